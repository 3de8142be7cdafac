@fn row::csr_matvecs
@props C06
@sig
requires wfx(n_row as int, _n_col as int, a_p@, a_j@, a_x@), x_x.len() >= n_vecs * _n_col, old(y_x).len() >= n_vecs * n_row,
ensures final(y_x).len() == old(y_x).len(),
    forall|i: int, t: int| #![trigger n_vecs * i + t] 0 <= i < n_row && 0 <= t < n_vecs ==> final(y_x)[n_vecs * i + t].sv() ==
        old(y_x)[n_vecs * i + t].sv().add(linedotw(a_j@, a_x@, x_x@, n_vecs as int, t, a_p[i].iv(), a_p[i + 1].iv(), _n_col as int)),
    forall|k: int| n_vecs * n_row <= k < final(y_x).len() ==> final(y_x)[k] == old(y_x)[k],
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    y_x.len() == old(y_x).len(),
    forall|q: int, t: int| #![trigger n_vecs * q + t] 0 <= q < i && 0 <= t < n_vecs ==> y_x[n_vecs * q + t].sv() ==
        old(y_x)[n_vecs * q + t].sv().add(linedotw(a_j@, a_x@, x_x@, n_vecs as int, t, a_p[q].iv(), a_p[q + 1].iv(), _n_col as int)),
    forall|k: int| n_vecs * i <= k < y_x.len() ==> y_x[k] == old(y_x)[k],
@top 0
    let ghost pre = y_x@;
    proof { cell_in(n_vecs as int, i as int, n_row as int); }
@loop 1
invariant
    y.len() == pre.len() - n_vecs * i,
    forall|t: int| 0 <= t < n_vecs ==> (#[trigger] y[t]).sv() ==
        pre[n_vecs * i + t].sv().add(dsumw(a_j@, a_x@, x_x@, n_vecs as int, t, start as int, jj as int)),
    forall|k: int| n_vecs <= k < y.len() ==> y[k] == pre[n_vecs * i + k],
@top 1
    proof { cell_in(n_vecs as int, a_j[jj as int].iv(), _n_col as int); }
@post 1
    let ghost yf = y@;
    proof { assert forall|t: int| 0 <= t < n_vecs implies (#[trigger] yf[t]).sv() ==
        pre[n_vecs * i + t].sv().add(linedotw(a_j@, a_x@, x_x@, n_vecs as int, t, start as int, end as int, _n_col as int)) by {
        dotw_eq(a_j@, a_x@, x_x@, n_vecs as int, t, start as int, end as int, _n_col as int); } }
@bot 0
    proof {
        assert(forall|k: int| 0 <= k < n_vecs * i ==> y_x[k] == pre[k]);
        assert(forall|k: int| 0 <= k < yf.len() ==> y_x[n_vecs * i + k] == yf[k]);
        assert forall|q: int, t: int| #![trigger n_vecs * q + t] 0 <= q < i + 1 && 0 <= t < n_vecs implies y_x[n_vecs * q + t].sv() ==
            old(y_x)[n_vecs * q + t].sv().add(linedotw(a_j@, a_x@, x_x@, n_vecs as int, t, a_p[q].iv(), a_p[q + 1].iv(), _n_col as int)) by {
            if q < i { cell_in(n_vecs as int, q, i as int); let z = pre[n_vecs * q + t]; } else { assert(q == i); let z = yf[t].sv(); }
        }
        assert forall|k: int| n_vecs * (i + 1) <= k < y_x.len() implies y_x[k] == old(y_x)[k] by {
            cell_in(n_vecs as int, i as int, i + 1); let z = yf[k - n_vecs * i]; let z2 = pre[k];
        }
    }

@fn col::csc_matvecs
@props C06
@sig
requires wfx(n_col as int, _n_row as int, a_p@, a_i@, a_x@), x_x.len() >= n_vecs * n_col, old(y_x).len() >= n_vecs * _n_row,
ensures final(y_x).len() == old(y_x).len(),
    forall|i: int, t: int| #![trigger n_vecs * i + t] 0 <= i < _n_row && 0 <= t < n_vecs ==> final(y_x)[n_vecs * i + t].sv() ==
        old(y_x)[n_vecs * i + t].sv().add(coldotw(a_p@, a_i@, a_x@, x_x@, n_vecs as int, t, n_col as int, i)),
    forall|k: int| n_vecs * _n_row <= k < final(y_x).len() ==> final(y_x)[k] == old(y_x)[k],
@top
    proof { ptr_all(n_col as int, a_p@); }
@loop 0
invariant
    y_x.len() == old(y_x).len(),
    forall|q: int, t: int| #![trigger n_vecs * q + t] 0 <= q < _n_row && 0 <= t < n_vecs ==> y_x[n_vecs * q + t].sv() ==
        old(y_x)[n_vecs * q + t].sv().add(coldotw(a_p@, a_i@, a_x@, x_x@, n_vecs as int, t, j as int, q)),
    forall|k: int| n_vecs * _n_row <= k < y_x.len() ==> y_x[k] == old(y_x)[k],
@top 0
    proof { cell_in(n_vecs as int, j as int, n_col as int); }
@loop 1
invariant
    y_x.len() == old(y_x).len(),
    forall|q: int, t: int| #![trigger n_vecs * q + t] 0 <= q < _n_row && 0 <= t < n_vecs ==> y_x[n_vecs * q + t].sv() ==
        old(y_x)[n_vecs * q + t].sv().add(coldotw(a_p@, a_i@, a_x@, x_x@, n_vecs as int, t, j as int, q))
           .add(esum(a_i@, a_x@, start as int, ii as int, q).mul(x_x[n_vecs * j + t].sv())),
    forall|k: int| n_vecs * _n_row <= k < y_x.len() ==> y_x[k] == old(y_x)[k],
@pre 1
    proof { cell_in(n_vecs as int, j as int, n_col as int);
        assert forall|q: int, t: int| #![trigger n_vecs * q + t] 0 <= q < _n_row && 0 <= t < n_vecs implies
            esum(a_i@, a_x@, start as int, start as int, q).mul(x_x[n_vecs * j + t].sv()) == C::zero() by { mul_zero(x_x[n_vecs * j + t].sv()); } }
@top 1
    let ghost pre = y_x@;
    proof { cell_in(n_vecs as int, a_i[ii as int].iv(), _n_row as int); }
@bot 1
    proof {
        assert forall|q: int, t: int| #![trigger n_vecs * q + t] 0 <= q < _n_row && 0 <= t < n_vecs implies y_x[n_vecs * q + t].sv() ==
            old(y_x)[n_vecs * q + t].sv().add(coldotw(a_p@, a_i@, a_x@, x_x@, n_vecs as int, t, j as int, q))
               .add(esum(a_i@, a_x@, start as int, ii + 1, q).mul(x_x[n_vecs * j + t].sv())) by {
            let iq = a_i[ii as int].iv();
            esum_mul_step(a_i@, a_x@, start as int, ii as int, q, x_x[n_vecs * j + t].sv());
            cell_in(n_vecs as int, q, _n_row as int);
            assert(pre[n_vecs * q + t].sv() == old(y_x)[n_vecs * q + t].sv().add(coldotw(a_p@, a_i@, a_x@, x_x@, n_vecs as int, t, j as int, q))
               .add(esum(a_i@, a_x@, start as int, ii as int, q).mul(x_x[n_vecs * j + t].sv())));
            let off = n_vecs * q + t - n_vecs * iq;
            if q < iq { cell_in(n_vecs as int, q, iq); assert(off < 0); }
            else if q > iq { cell_in(n_vecs as int, iq, q); assert(off >= n_vecs); }
            else { assert(off == t); }
        }
        assert forall|k: int| n_vecs * _n_row <= k < y_x.len() implies y_x[k] == old(y_x)[k] by {
            let iq = a_i[ii as int].iv();
            let off = k - n_vecs * iq; assert(off >= n_vecs);
        }
    }

@fn row::csr_diagonal
@props C13
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), -n_row <= k <= n_col, isize::MIN < k,
    old(y_x).len() >= diag_len(k as int, n_row as int, n_col as int),
ensures final(y_x).len() == old(y_x).len(),
    forall|i: int| 0 <= i < diag_len(k as int, n_row as int, n_col as int) ==> (#[trigger] final(y_x)[i]).sv() ==
        ent(a_p@, a_j@, a_x@, diag_row(k as int) + i, diag_col(k as int) + i),
    forall|i: int| diag_len(k as int, n_row as int, n_col as int) <= i < final(y_x).len() ==> final(y_x)[i] == old(y_x)[i],
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    n == diag_len(k as int, n_row as int, n_col as int), first_row == diag_row(k as int), first_col == diag_col(k as int),
    y_x.len() == old(y_x).len(),
    forall|q: int| 0 <= q < i ==> (#[trigger] y_x[q]).sv() == ent(a_p@, a_j@, a_x@, first_row + q, first_col + q),
    forall|q: int| i <= q < y_x.len() ==> y_x[q] == old(y_x)[q],
@loop 1
invariant
    diag.sv() == esum(a_j@, a_x@, row_begin as int, j as int, col as int),

@fn col::csc_diagonal
@props C13
@sig
requires wfx(n_col as int, n_row as int, a_p@, a_j@, a_x@), -n_row <= k <= n_col, isize::MIN < k < isize::MAX,
    old(y_x).len() >= diag_len(k as int, n_row as int, n_col as int),
ensures final(y_x).len() == old(y_x).len(),
    forall|i: int| 0 <= i < diag_len(k as int, n_row as int, n_col as int) ==> (#[trigger] final(y_x)[i]).sv() ==
        ent(a_p@, a_j@, a_x@, diag_col(k as int) + i, diag_row(k as int) + i),
    forall|i: int| diag_len(k as int, n_row as int, n_col as int) <= i < final(y_x).len() ==> final(y_x)[i] == old(y_x)[i],

@fn row::expandptr
@props C03
@sig
requires is_ptr(n_row as int, a_p@), old(b_i).len() >= a_p[n_row as int].iv(), n_row <= I::imax() + 1,
ensures final(b_i).len() == old(b_i).len(),
    forall|i: int, k: int| 0 <= i < n_row && #[trigger] inline(a_p@, i, k) ==> final(b_i)[k].iv() == i,
    forall|k: int| a_p[n_row as int].iv() <= k < final(b_i).len() ==> final(b_i)[k] == old(b_i)[k],
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    b_i.len() == old(b_i).len(),
    forall|q: int, k: int| 0 <= q < i && #[trigger] inline(a_p@, q, k) ==> b_i[k].iv() == q,
    forall|k: int| a_p[i as int].iv() <= k < b_i.len() ==> b_i[k] == old(b_i)[k],
@loop 1
invariant
    b_i.len() == old(b_i).len(),
    forall|q: int, k: int| 0 <= q < i && #[trigger] inline(a_p@, q, k) ==> b_i[k].iv() == q,
    forall|k: int| start <= k < jj ==> (#[trigger] b_i[k]).iv() == i,
    forall|k: int| jj <= k < b_i.len() ==> b_i[k] == old(b_i)[k],

@fn row::csr_tocoo
@props C03
@sig
requires wfx(n_row as int, _n_col as int, a_p@, a_j@, a_x@), n_row <= I::imax() + 1,
    old(a_i).len() >= a_p[n_row as int].iv(), old(b_j).len() >= a_p[n_row as int].iv(), old(b_x).len() >= a_p[n_row as int].iv(),
ensures final(a_i).len() == old(a_i).len(), final(b_j).len() == old(b_j).len(), final(b_x).len() == old(b_x).len(),
    forall|i: int, k: int| 0 <= i < n_row && #[trigger] inline(a_p@, i, k) ==> final(a_i)[k].iv() == i,
    forall|k: int| 0 <= k < a_p[n_row as int].iv() ==> #[trigger] final(b_j)[k] == a_j[k],
    forall|k: int| 0 <= k < a_p[n_row as int].iv() ==> #[trigger] final(b_x)[k] == a_x[k],
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    a_i.len() == old(a_i).len(), b_j.len() == old(b_j).len(), b_x.len() == old(b_x).len(),
    k == a_p[i as int].iv(),
    forall|q: int, l: int| 0 <= q < i && #[trigger] inline(a_p@, q, l) ==> a_i[l].iv() == q,
    forall|l: int| 0 <= l < k ==> #[trigger] b_j[l] == a_j[l],
    forall|l: int| 0 <= l < k ==> #[trigger] b_x[l] == a_x[l],
@loop 1
invariant
    a_i.len() == old(a_i).len(), b_j.len() == old(b_j).len(), b_x.len() == old(b_x).len(),
    k == jj,
    forall|q: int, l: int| 0 <= q < i && #[trigger] inline(a_p@, q, l) ==> a_i[l].iv() == q,
    forall|l: int| start <= l < jj ==> (#[trigger] a_i[l]).iv() == i,
    forall|l: int| 0 <= l < k ==> #[trigger] b_j[l] == a_j[l],
    forall|l: int| 0 <= l < k ==> #[trigger] b_x[l] == a_x[l],

