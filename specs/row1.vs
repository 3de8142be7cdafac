@fn row::csr_todense
@props C05
@sig
requires wfx(n_row as int, _n_col as int, a_p@, a_j@, a_x@),
    old(b_x).len() >= n_row, forall|i: int| 0 <= i < n_row ==> (#[trigger] old(b_x)[i]).len() >= _n_col,
ensures final(b_x).len() == old(b_x).len(),
    forall|i: int| 0 <= i < n_row ==> (#[trigger] final(b_x)[i]).len() == old(b_x)[i].len(),
    forall|i: int| n_row <= i < final(b_x).len() ==> (#[trigger] final(b_x)[i]) == old(b_x)[i],
    forall|i: int, j: int| 0 <= i < n_row && 0 <= j < final(b_x)[i].len() ==>
        #[trigger] final(b_x)[i][j].sv() == old(b_x)[i][j].sv().add(ent(a_p@, a_j@, a_x@, i, j)),
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    b_x.len() == old(b_x).len(),
    forall|q: int| 0 <= q < n_row ==> (#[trigger] b_x[q]).len() == old(b_x)[q].len(),
    forall|q: int| i <= q < b_x.len() ==> (#[trigger] b_x[q]) == old(b_x)[q],
    forall|q: int, c: int| 0 <= q < i && 0 <= c < b_x[q].len() ==>
        #[trigger] b_x[q][c].sv() == old(b_x)[q][c].sv().add(ent(a_p@, a_j@, a_x@, q, c)),
@loop 1
invariant
    b_x.len() == old(b_x).len(),
    forall|q: int| 0 <= q < n_row ==> (#[trigger] b_x[q]).len() == old(b_x)[q].len(),
    forall|q: int| i < q < b_x.len() ==> (#[trigger] b_x[q]) == old(b_x)[q],
    forall|q: int, c: int| 0 <= q < i && 0 <= c < b_x[q].len() ==>
        #[trigger] b_x[q][c].sv() == old(b_x)[q][c].sv().add(ent(a_p@, a_j@, a_x@, q, c)),
    forall|c: int| 0 <= c < b_x[i as int].len() ==>
        #[trigger] b_x[i as int][c].sv() == old(b_x)[i as int][c].sv().add(esum(a_j@, a_x@, row_start as int, jj as int, c)),
@top 1
    let ghost pre = b_x@;
@bot 1
    proof {
        assert forall|c: int| 0 <= c < b_x[i as int].len() implies
            #[trigger] b_x[i as int][c].sv() == old(b_x)[i as int][c].sv().add(esum(a_j@, a_x@, row_start as int, jj + 1, c)) by {
            let z = pre[i as int][c].sv();
        }
    }

@fn row::csr_matvec
@props C06
@sig
requires wfx(n_row as int, _n_col as int, a_p@, a_j@, a_x@), x_x.len() >= _n_col, old(y_x).len() >= n_row,
ensures final(y_x).len() == old(y_x).len(),
    forall|i: int| 0 <= i < n_row ==> (#[trigger] final(y_x)[i]).sv() ==
        old(y_x)[i].sv().add(linedot(a_j@, a_x@, x_x@, a_p[i].iv(), a_p[i + 1].iv(), _n_col as int)),
    forall|i: int| n_row <= i < final(y_x).len() ==> final(y_x)[i] == old(y_x)[i],
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    y_x.len() == old(y_x).len(),
    forall|q: int| 0 <= q < i ==> (#[trigger] y_x[q]).sv() ==
        old(y_x)[q].sv().add(linedot(a_j@, a_x@, x_x@, a_p[q].iv(), a_p[q + 1].iv(), _n_col as int)),
    forall|q: int| i <= q < y_x.len() ==> y_x[q] == old(y_x)[q],
@loop 1
invariant
    sum.sv() == y_x[i as int].sv().add(dsum(a_j@, a_x@, x_x@, start as int, jj as int)),
@post 1
    proof { dot_eq(a_j@, a_x@, x_x@, start as int, end as int, _n_col as int); }

@fn col::csc_matvec
@props C06
@sig
requires wfx(n_col as int, _n_row as int, a_p@, a_i@, a_x@), x_x.len() >= n_col, old(y_x).len() >= _n_row,
ensures final(y_x).len() == old(y_x).len(),
    forall|i: int| 0 <= i < final(y_x).len() ==> (#[trigger] final(y_x)[i]).sv() ==
        old(y_x)[i].sv().add(coldot(a_p@, a_i@, a_x@, x_x@, n_col as int, i)),
@top
    proof { ptr_all(n_col as int, a_p@); }
@loop 0
invariant
    y_x.len() == old(y_x).len(),
    forall|q: int| 0 <= q < y_x.len() ==> (#[trigger] y_x[q]).sv() ==
        old(y_x)[q].sv().add(coldot(a_p@, a_i@, a_x@, x_x@, j as int, q)),
@loop 1
invariant
    y_x.len() == old(y_x).len(),
    forall|q: int| 0 <= q < y_x.len() ==> (#[trigger] y_x[q]).sv() ==
        old(y_x)[q].sv().add(coldot(a_p@, a_i@, a_x@, x_x@, j as int, q)).add(esum(a_i@, a_x@, col_start as int, ii as int, q).mul(x_x[j as int].sv())),
@pre 1
    proof { mul_zero(x_x[j as int].sv()); }
@top 1
    let ghost pre = y_x@;
@bot 1
    proof {
        assert forall|q: int| 0 <= q < y_x.len() implies (#[trigger] y_x[q]).sv() ==
            old(y_x)[q].sv().add(coldot(a_p@, a_i@, a_x@, x_x@, j as int, q)).add(esum(a_i@, a_x@, col_start as int, ii + 1, q).mul(x_x[j as int].sv())) by {
            esum_mul_step(a_i@, a_x@, col_start as int, ii as int, q, x_x[j as int].sv());
            let z = pre[q].sv();
        }
    }

@fn coord::coo_matvec
@props C06
@sig
requires exists|nr: int| wfc(nr, x_x.len() as int, nnz as int, a_i@, a_j@, a_x@) && old(y_x).len() >= nr,
ensures final(y_x).len() == old(y_x).len(),
    forall|i: int| 0 <= i < final(y_x).len() ==> (#[trigger] final(y_x)[i]).sv() ==
        old(y_x)[i].sv().add(coodot(a_i@, a_j@, a_x@, x_x@, nnz as int, i, x_x.len() as int)),
@loop 0
invariant
    y_x.len() == old(y_x).len(),
    forall|q: int| 0 <= q < y_x.len() ==> (#[trigger] y_x[q]).sv() ==
        old(y_x)[q].sv().add(cdsum(a_i@, a_j@, a_x@, x_x@, n as int, q)),
@top 0
    let ghost pre = y_x@;
@bot 0
    proof {
        assert forall|q: int| 0 <= q < y_x.len() implies (#[trigger] y_x[q]).sv() ==
            old(y_x)[q].sv().add(cdsum(a_i@, a_j@, a_x@, x_x@, n + 1, q)) by { let z = pre[q].sv(); }
    }
@post 0
    proof {
        assert forall|q: int| 0 <= q < y_x.len() implies (#[trigger] y_x[q]).sv() ==
            old(y_x)[q].sv().add(coodot(a_i@, a_j@, a_x@, x_x@, nnz as int, q, x_x.len() as int)) by {
            coodot_eq(a_i@, a_j@, a_x@, x_x@, nnz as int, q, x_x.len() as int);
        }
    }

@fn coord::coo_todense
@props C05
@sig
requires wfc(n_row as int, n_col as int, nnz as int, a_i@, a_j@, a_x@), old(b_x).len() >= n_row * n_col,
ensures final(b_x).len() == old(b_x).len(),
    !fortran ==> forall|r: int, c: int| #![trigger n_col * r + c] 0 <= r < n_row && 0 <= c < n_col ==>
        final(b_x)[n_col * r + c].sv() == old(b_x)[n_col * r + c].sv().add(csum(a_i@, a_j@, a_x@, nnz as int, r, c)),
    fortran ==> forall|r: int, c: int| #![trigger n_row * c + r] 0 <= r < n_row && 0 <= c < n_col ==>
        final(b_x)[n_row * c + r].sv() == old(b_x)[n_row * c + r].sv().add(csum(a_i@, a_j@, a_x@, nnz as int, r, c)),
    forall|k: int| n_row * n_col <= k < final(b_x).len() ==> final(b_x)[k] == old(b_x)[k],
@loop 0
invariant
    b_x.len() == old(b_x).len(),
    forall|r: int, c: int| #![trigger n_col * r + c] 0 <= r < n_row && 0 <= c < n_col ==>
        b_x[n_col * r + c].sv() == old(b_x)[n_col * r + c].sv().add(csum(a_i@, a_j@, a_x@, n as int, r, c)),
    forall|k: int| n_row * n_col <= k < b_x.len() ==> b_x[k] == old(b_x)[k],
@top 0
    let ghost pre = b_x@;
    proof { cell_in(n_col as int, a_i[n as int].iv(), n_row as int); assert(n_col * n_row == n_row * n_col) by(nonlinear_arith); }
@bot 0
    proof {
        assert forall|r: int, c: int| #![trigger n_col * r + c] 0 <= r < n_row && 0 <= c < n_col implies
            b_x[n_col * r + c].sv() == old(b_x)[n_col * r + c].sv().add(csum(a_i@, a_j@, a_x@, n + 1, r, c)) by {
            cell(n_col as int, r, c, a_i[n as int].iv(), a_j[n as int].iv());
            cell_in(n_col as int, r, n_row as int);
            let z = pre[n_col * r + c].sv();
        }
    }
@loop 1
invariant
    b_x.len() == old(b_x).len(),
    forall|r: int, c: int| #![trigger n_row * c + r] 0 <= r < n_row && 0 <= c < n_col ==>
        b_x[n_row * c + r].sv() == old(b_x)[n_row * c + r].sv().add(csum(a_i@, a_j@, a_x@, n as int, r, c)),
    forall|k: int| n_row * n_col <= k < b_x.len() ==> b_x[k] == old(b_x)[k],
@top 1
    let ghost pre = b_x@;
    proof { cell_in(n_row as int, a_j[n as int].iv(), n_col as int); }
@bot 1
    proof {
        assert forall|r: int, c: int| #![trigger n_row * c + r] 0 <= r < n_row && 0 <= c < n_col implies
            b_x[n_row * c + r].sv() == old(b_x)[n_row * c + r].sv().add(csum(a_i@, a_j@, a_x@, n + 1, r, c)) by {
            cell(n_row as int, c, r, a_j[n as int].iv(), a_i[n as int].iv());
            cell_in(n_row as int, c, n_col as int);
            let z = pre[n_row * c + r].sv();
        }
    }

@fn util::axpy
@props C06
@sig
requires 0 <= n.iv() <= usize::MAX, x.len() >= n.iv(), old(y).len() >= n.iv(),
ensures final(y).len() == old(y).len(),
    forall|i: int| 0 <= i < n.iv() ==> (#[trigger] final(y)[i]).sv() == old(y)[i].sv().add(a.sv().mul(x[i].sv())),
    forall|i: int| n.iv() <= i < final(y).len() ==> final(y)[i] == old(y)[i],
@loop 0
invariant
    y.len() == old(y).len(),
    forall|q: int| 0 <= q < i ==> (#[trigger] y[q]).sv() == old(y)[q].sv().add(a.sv().mul(x[q].sv())),
    forall|q: int| i <= q < y.len() ==> y[q] == old(y)[q],

@fn row::csr_scale_rows
@props C14
@sig
requires is_ptr(n_row as int, a_p@), old(a_x).len() >= a_p[n_row as int].iv(), x_x.len() >= n_row,
ensures final(a_x).len() == old(a_x).len(),
    forall|i: int, k: int| 0 <= i < n_row && #[trigger] inline(a_p@, i, k) ==> final(a_x)[k].sv() == old(a_x)[k].sv().mul(x_x[i].sv()),
    forall|k: int| a_p[n_row as int].iv() <= k < final(a_x).len() ==> final(a_x)[k] == old(a_x)[k],
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    a_x.len() == old(a_x).len(),
    forall|q: int, k: int| 0 <= q < i && #[trigger] inline(a_p@, q, k) ==> a_x[k].sv() == old(a_x)[k].sv().mul(x_x[q].sv()),
    forall|k: int| a_p[i as int].iv() <= k < a_x.len() ==> a_x[k] == old(a_x)[k],
@loop 1
invariant
    a_x.len() == old(a_x).len(),
    forall|q: int, k: int| 0 <= q < i && #[trigger] inline(a_p@, q, k) ==> a_x[k].sv() == old(a_x)[k].sv().mul(x_x[q].sv()),
    forall|k: int| start <= k < jj ==> (#[trigger] a_x[k]).sv() == old(a_x)[k].sv().mul(x_x[i as int].sv()),
    forall|k: int| jj <= k < a_x.len() ==> a_x[k] == old(a_x)[k],

@fn row::csr_scale_columns
@props C14
@sig
requires wf(n_row as int, x_x.len() as int, a_p@, a_j@), old(a_x).len() >= a_p[n_row as int].iv(),
ensures final(a_x).len() == old(a_x).len(),
    forall|k: int| 0 <= k < a_p[n_row as int].iv() ==> (#[trigger] final(a_x)[k]).sv() == old(a_x)[k].sv().mul(x_x[a_j[k].iv()].sv()),
    forall|k: int| a_p[n_row as int].iv() <= k < final(a_x).len() ==> final(a_x)[k] == old(a_x)[k],
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    a_x.len() == old(a_x).len(),
    forall|k: int| 0 <= k < i ==> (#[trigger] a_x[k]).sv() == old(a_x)[k].sv().mul(x_x[a_j[k].iv()].sv()),
    forall|k: int| i <= k < a_x.len() ==> a_x[k] == old(a_x)[k],

@fn row::csr_has_sorted_indices
@props C11
@sig
requires exists|m: int| wf(n_row as int, m, a_p@, a_j@),
ensures res == sorted_lines(n_row as int, a_p@, a_j@),
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    forall|r: int| 0 <= r < i ==> #[trigger] sorted_line(a_p@, a_j@, r),
@loop 1
invariant
    start < end ==> sorted_seg(a_j@, start as int, jj as int),
@top 1
    proof { if !(a_j[jj - 1].iv() <= a_j[jj as int].iv()) { assert(!sorted_line(a_p@, a_j@, i as int)); } }

@fn row::csr_has_canonical_format
@props C11
@sig
requires exists|m: int| wf(n_row as int, m, a_p@, a_j@),
ensures res == strict_lines(n_row as int, a_p@, a_j@),
@top
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant
    forall|r: int| 0 <= r < i ==> #[trigger] strict_line(a_p@, a_j@, r),
@loop 1
invariant
    start < end ==> strict_seg(a_j@, start as int, jj as int),
@top 1
    proof { if !(a_j[jj - 1].iv() < a_j[jj as int].iv()) { assert(!strict_line(a_p@, a_j@, i as int)); } }
