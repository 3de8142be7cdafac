@fn row::csr_matmat_maxnnz
@props C07
@sig
requires exists|m: int| m < usize::MAX && #[trigger] wf(n_row as int, m, a_p@, a_j@) && wf(m, n_col as int, b_p@, b_j@),
    n_row <= isize::MAX, matcnt(a_p@, a_j@, b_p@, b_j@, n_col as int, n_row as int) <= usize::MAX,
ensures res >= matcnt(a_p@, a_j@, b_p@, b_j@, n_col as int, n_row as int),
@top
    let ghost m: int = choose|m: int| m < usize::MAX && #[trigger] wf(n_row as int, m, a_p@, a_j@) && wf(m, n_col as int, b_p@, b_j@);
    proof { ptr_all(n_row as int, a_p@); ptr_all(m, b_p@); }
@loop 0
invariant
    mask.len() == n_col, nnz == matcnt(a_p@, a_j@, b_p@, b_j@, n_col as int, i as int),
    forall|k: int| 0 <= k < n_col ==> (#[trigger] mask[k]) < i,
@top 0
    proof { matcnt_mono(a_p@, a_j@, b_p@, b_j@, n_col as int, i + 1, n_row as int); matcnt_mono(a_p@, a_j@, b_p@, b_j@, n_col as int, 0, i as int);
        assert(marked(mask@, n_col as int, i as int) =~= Set::empty()); }
@loop 1
invariant
    mask.len() == n_col, row_nnz == marked(mask@, n_col as int, i as int).len(), row_nnz <= n_col,
    forall|k: int| 0 <= k < n_col ==> (#[trigger] mask[k]) <= i,
    forall|k: int| 0 <= k < n_col ==> ((#[trigger] mask[k]) == i) == reach(a_j@, b_p@, b_j@, start as int, jj as int, k),
@loop 2
invariant
    mask.len() == n_col, row_nnz == marked(mask@, n_col as int, i as int).len(), row_nnz <= n_col,
    forall|k: int| 0 <= k < n_col ==> (#[trigger] mask[k]) <= i,
    forall|k: int| 0 <= k < n_col ==> ((#[trigger] mask[k]) == i) == (reach(a_j@, b_p@, b_j@, start as int, jj as int, k) || occ(b_j@, b_start as int, kk as int, k)),
@top 2
    let ghost pre = mask@;
    proof { marked_step(pre, n_col as int, i as isize, b_j[kk as int].iv()); }
@bot 2
    proof { assert forall|k: int| 0 <= k < n_col implies ((#[trigger] mask[k]) == i) == (reach(a_j@, b_p@, b_j@, start as int, jj as int, k) || occ(b_j@, b_start as int, kk + 1, k)) by { let z = pre[k]; } }
@post 1
    proof { assert(marked(mask@, n_col as int, i as int) =~= rowset(a_j@, b_p@, b_j@, start as int, end as int, n_col as int)); }

@fn row::csr_matmat
@rlimit 400
@props C07
@sig
requires exists|m: int| m < usize::MAX && #[trigger] wfx(n_row as int, m, a_p@, a_j@, a_x@) && wfx(m, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    matcnt(a_p@, a_j@, b_p@, b_j@, n_col as int, n_row as int) <= I::imax(), matcnt(a_p@, a_j@, b_p@, b_j@, n_col as int, n_row as int) <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= matcnt(a_p@, a_j@, b_p@, b_j@, n_col as int, n_row as int),
    old(c_x).len() >= matcnt(a_p@, a_j@, b_p@, b_j@, n_col as int, n_row as int),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wfx(n_row as int, n_col as int, final(c_p)@, final(c_j)@, final(c_x)@),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).sv() != C::zero(),
    final(c_p)[n_row as int].iv() <= matcnt(a_p@, a_j@, b_p@, b_j@, n_col as int, n_row as int),
    forall|m: int, r: int, k: int| #[trigger] wfx(n_row as int, m, a_p@, a_j@, a_x@) && 0 <= r < n_row && 0 <= k < n_col ==>
        #[trigger] ent(final(c_p)@, final(c_j)@, final(c_x)@, r, k) == prod(a_j@, a_x@, b_p@, b_j@, b_x@, a_p[r].iv(), a_p[r + 1].iv(), m, k),
@top
    let ghost m: int = choose|m: int| m < usize::MAX && #[trigger] wfx(n_row as int, m, a_p@, a_j@, a_x@) && wfx(m, n_col as int, b_p@, b_j@, b_x@);
    let ghost nc = n_col as int;
    let ghost cnt = matcnt(a_p@, a_j@, b_p@, b_j@, nc, n_row as int);
    proof { ptr_all(n_row as int, a_p@); ptr_all(m, b_p@); }
@loop 0
invariant
    next.len() == n_col, sums.len() == n_col, c_p.len() == old(c_p).len(), c_j.len() == old(c_j).len(), c_x.len() == old(c_x).len(),
    0 <= nnz.iv() <= matcnt(a_p@, a_j@, b_p@, b_j@, nc, i as int),
    is_ptr(i as int, c_p@), c_p[i as int].iv() == nnz.iv(),
    forall|k: int| 0 <= k < nc ==> (#[trigger] next[k]) == -1,
    forall|k: int| 0 <= k < nc ==> (#[trigger] sums[k]).sv() == C::zero(),
    forall|k: int| 0 <= k < nnz.iv() ==> (#[trigger] c_x[k]).sv() != C::zero(),
    forall|k: int| 0 <= k < nnz.iv() ==> 0 <= (#[trigger] c_j[k]).iv() < nc,
    forall|r: int| 0 <= r < i ==> #[trigger] distinct_line(c_p@, c_j@, r),
    forall|r: int, k: int| 0 <= r < i && 0 <= k < nc ==> #[trigger] ent(c_p@, c_j@, c_x@, r, k) == mm(a_j@, a_x@, b_p@, b_j@, b_x@, a_p[r].iv(), a_p[r + 1].iv(), k),
@top 0
    let ghost so = nnz.iv(); let ghost sj = c_j@; let ghost sx = c_x@; let ghost sp = c_p@;
    let ghost mut l: Seq<int> = Seq::empty();
    proof { chain_empty(next@, nc); matcnt_mono(a_p@, a_j@, b_p@, b_j@, nc, i + 1, n_row as int); }
@loop 1
invariant
    next.len() == n_col, sums.len() == n_col, chain(next@, head, l, nc), length.iv() == l.len(),
    forall|k: int| 0 <= k < nc ==> (#[trigger] sums[k]).sv() == mm(a_j@, a_x@, b_p@, b_j@, b_x@, jj_start as int, jj as int, k),
    forall|k: int| 0 <= k < nc && (#[trigger] next[k]) == -1 ==> sums[k].sv() == C::zero(),
    forall|k: int| 0 <= k < nc && (#[trigger] next[k]) != -1 ==> reach(a_j@, b_p@, b_j@, jj_start as int, jj as int, k),
@pre 2
    proof { mul_zero(v.sv()); }
@loop 2
invariant
    next.len() == n_col, sums.len() == n_col, chain(next@, head, l, nc), length.iv() == l.len(),
    forall|k: int| 0 <= k < nc ==> (#[trigger] sums[k]).sv() == mm(a_j@, a_x@, b_p@, b_j@, b_x@, jj_start as int, jj as int, k).add(v.sv().mul(esum(b_j@, b_x@, kk_start as int, kk as int, k))),
    forall|k: int| 0 <= k < nc && (#[trigger] next[k]) == -1 ==> sums[k].sv() == C::zero(),
    forall|k: int| 0 <= k < nc && (#[trigger] next[k]) != -1 ==> reach(a_j@, b_p@, b_j@, jj_start as int, jj as int, k) || occ(b_j@, kk_start as int, kk as int, k),
@top 2
    let ghost pn = next@; let ghost ph = head; let ghost ps = sums@; let ghost pl = l;
    proof { if pn[b_j[kk as int].iv()] == -1 { chain_push(pn, ph, pl, nc, b_j[kk as int].iv()); } }
@bot 2
    proof {
        let k0 = b_j[kk as int].iv();
        if pn[k0] == -1 { chain_push(pn, ph, pl, nc, k0); l = pl.push(k0); }
        assert forall|k: int| 0 <= k < nc implies (#[trigger] sums[k]).sv() == mm(a_j@, a_x@, b_p@, b_j@, b_x@, jj_start as int, jj as int, k).add(v.sv().mul(esum(b_j@, b_x@, kk_start as int, kk + 1, k))) by {
            mul_distr(v.sv(), esum(b_j@, b_x@, kk_start as int, kk as int, k), if k == k0 { b_x[kk as int].sv() } else { C::zero() });
            mul_zero(v.sv());
            let z = ps[k];
        }
        assert forall|k: int| 0 <= k < nc && (#[trigger] next[k]) == -1 implies sums[k].sv() == C::zero() by { let z = pn[k]; let y = ps[k]; }
        assert forall|k: int| 0 <= k < nc && (#[trigger] next[k]) != -1 implies reach(a_j@, b_p@, b_j@, jj_start as int, jj as int, k) || occ(b_j@, kk_start as int, kk + 1, k) by { let z = pn[k]; }
    }
@post 1
    let ghost len = l.len() as int;
    proof {
        let rs = rowset(a_j@, b_p@, b_j@, jj_start as int, jj_end as int, nc);
        assert forall|k: int| touched(next@, nc).contains(k) implies rs.contains(k) by { let z = next[k]; }
        vstd::set_lib::lemma_len_subset(touched(next@, nc), rs);
    }
@loop 3
invariant
    next.len() == n_col, sums.len() == n_col, chain(next@, head, l, nc), l.len() == len - _jj,
    c_j.len() == old(c_j).len(), c_x.len() == old(c_x).len(),
    so <= nnz.iv() <= so + _jj,
    forall|k: int| 0 <= k < nc && (#[trigger] next[k]) != -1 ==> sums[k].sv() == mm(a_j@, a_x@, b_p@, b_j@, b_x@, jj_start as int, jj_end as int, k),
    forall|k: int| 0 <= k < nc && (#[trigger] next[k]) == -1 ==> sums[k].sv() == C::zero(),
    forall|k: int| 0 <= k < nc ==> #[trigger] esum(c_j@, c_x@, so, nnz.iv(), k) == if next[k] == -1 { mm(a_j@, a_x@, b_p@, b_j@, b_x@, jj_start as int, jj_end as int, k) } else { C::zero() },
    forall|t: int| so <= t < nnz.iv() ==> next[(#[trigger] c_j[t]).iv()] == -1,
    forall|k: int| 0 <= k < nnz.iv() ==> (#[trigger] c_x[k]).sv() != C::zero(),
    forall|k: int| 0 <= k < nnz.iv() ==> 0 <= (#[trigger] c_j[k]).iv() < nc,
    distinct_seg(c_j@, so, nnz.iv()),
    forall|k: int| 0 <= k < so ==> (#[trigger] c_j[k]) == sj[k], forall|k: int| 0 <= k < so ==> (#[trigger] c_x[k]) == sx[k],
@top 3
    let ghost pn = next@; let ghost ph = head; let ghost ps = sums@; let ghost pl = l; let ghost bj = c_j@; let ghost bx = c_x@; let ghost bn = nnz.iv();
    proof { chain_pop(pn, ph, pl, nc); }
@bot 3
    proof {
        l = pl.drop_last();
        let h = ph as int;
        assert forall|k: int| 0 <= k < nc implies #[trigger] esum(c_j@, c_x@, so, nnz.iv(), k) == if next[k] == -1 { mm(a_j@, a_x@, b_p@, b_j@, b_x@, jj_start as int, jj_end as int, k) } else { C::zero() } by {
            esum_ext(bj, bx, so, bn, c_j@, c_x@, 0, k);
            let z = esum(bj, bx, so, bn, k); let y = pn[k]; let w = pn[h];
        }
        assert forall|t: int| so <= t < nnz.iv() implies next[(#[trigger] c_j[t]).iv()] == -1 by { let z = bj[t]; }
        assert forall|k: int| 0 <= k < nc && (#[trigger] next[k]) != -1 implies sums[k].sv() == mm(a_j@, a_x@, b_p@, b_j@, b_x@, jj_start as int, jj_end as int, k) by { let z = pn[k]; }
        assert forall|k: int| 0 <= k < nc && (#[trigger] next[k]) == -1 implies sums[k].sv() == C::zero() by { let z = pn[k]; }
        assert forall|k: int, q: int| #![trigger c_j[k], c_j[q]] so <= k < q < nnz.iv() implies c_j[k].iv() != c_j[q].iv() by { let z = bj[k]; let y = bj[q]; }
    }
@post 3
    proof { assert(l.len() == 0); assert forall|k: int| 0 <= k < nc implies (#[trigger] next[k]) == -1 by { if next[k] != -1 { assert(l.contains(k)); } } }
@bot 0
    proof {
        let n1 = i + 1;
        assert forall|k: int| 0 <= k < nc implies (#[trigger] sums[k]).sv() == C::zero() by { let z = next[k]; }
        assert forall|r: int, k: int| 0 <= r < n1 && 0 <= k < nc implies #[trigger] ent(c_p@, c_j@, c_x@, r, k) == mm(a_j@, a_x@, b_p@, b_j@, b_x@, a_p[r].iv(), a_p[r + 1].iv(), k) by {
            if r < i {
                assert(c_p[r] == sp[r] && c_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[i as int].iv());
                esum_ext(sj, sx, sp[r].iv(), sp[r + 1].iv(), c_j@, c_x@, 0, k);
                let z = ent(sp, sj, sx, r, k);
            } else { let z = esum(c_j@, c_x@, so, nnz.iv(), k); let y = next[k]; }
        }
        assert forall|r: int| 0 <= r < n1 implies #[trigger] distinct_line(c_p@, c_j@, r) by {
            if r < i {
                assert(distinct_line(sp, sj, r));
                assert(c_p[r] == sp[r] && c_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[i as int].iv());
                assert forall|k: int, q: int| #![trigger c_j[k], c_j[q]] c_p[r].iv() <= k < q < c_p[r + 1].iv() implies c_j[k].iv() != c_j[q].iv() by { let z = sj[k]; let y = sj[q]; }
            }
        }
    }
@end
    proof {
        assert forall|mm0: int, r: int, k: int| #[trigger] wfx(n_row as int, mm0, a_p@, a_j@, a_x@) && 0 <= r < n_row && 0 <= k < n_col implies
            #[trigger] ent(c_p@, c_j@, c_x@, r, k) == prod(a_j@, a_x@, b_p@, b_j@, b_x@, a_p[r].iv(), a_p[r + 1].iv(), mm0, k) by {
            assert(a_p[r + 1].iv() <= a_p[n_row as int].iv());
            mm_prod(a_j@, a_x@, b_p@, b_j@, b_x@, a_p[r].iv(), a_p[r + 1].iv(), mm0, k);
        }
    }

@fn col::csc_matmat_maxnnz
@props C07
@sig
requires exists|m: int| m < usize::MAX && #[trigger] wf(n_col as int, m, b_p@, b_i@) && wf(m, n_row as int, a_p@, a_i@),
    n_col <= isize::MAX, matcnt(b_p@, b_i@, a_p@, a_i@, n_row as int, n_col as int) <= usize::MAX,
ensures res >= matcnt(b_p@, b_i@, a_p@, a_i@, n_row as int, n_col as int),

@fn col::csc_matmat
@props C07
@sig
requires exists|m: int| m < usize::MAX && #[trigger] wfx(n_col as int, m, b_p@, b_i@, b_x@) && wfx(m, n_row as int, a_p@, a_i@, a_x@),
    n_row <= isize::MAX, n_row <= I::imax(), n_col < usize::MAX,
    matcnt(b_p@, b_i@, a_p@, a_i@, n_row as int, n_col as int) <= I::imax(), matcnt(b_p@, b_i@, a_p@, a_i@, n_row as int, n_col as int) <= isize::MAX,
    old(c_p).len() >= n_col + 1, old(c_i).len() >= matcnt(b_p@, b_i@, a_p@, a_i@, n_row as int, n_col as int),
    old(c_x).len() >= matcnt(b_p@, b_i@, a_p@, a_i@, n_row as int, n_col as int),
ensures final(c_p).len() == old(c_p).len(), final(c_i).len() == old(c_i).len(), final(c_x).len() == old(c_x).len(),
    wfx(n_col as int, n_row as int, final(c_p)@, final(c_i)@, final(c_x)@),
    distinct_lines(n_col as int, final(c_p)@, final(c_i)@),
    forall|k: int| 0 <= k < final(c_p)[n_col as int].iv() ==> (#[trigger] final(c_x)[k]).sv() != C::zero(),
    final(c_p)[n_col as int].iv() <= matcnt(b_p@, b_i@, a_p@, a_i@, n_row as int, n_col as int),
    forall|m: int, r: int, k: int| #[trigger] wfx(n_col as int, m, b_p@, b_i@, b_x@) && 0 <= r < n_col && 0 <= k < n_row ==>
        #[trigger] ent(final(c_p)@, final(c_i)@, final(c_x)@, r, k) == prod(b_i@, b_x@, a_p@, a_i@, a_x@, b_p[r].iv(), b_p[r + 1].iv(), m, k),
