@fn row::csr_count_diagonals
@props C11
@extra
use std::collections::HashSet;
@sig
requires exists|m: int| m <= isize::MAX && wf(n_row as int, m, a_p@, a_j@), n_row <= isize::MAX,
ensures res == dall(a_p@, a_j@, n_row as int).len(),
@top
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant diagonals@ == dall(a_p@, a_j@, i as int),
@loop 1
invariant diagonals@ == dseg(dall(a_p@, a_j@, i as int), a_j@, i as int, a_p[i as int].iv(), jj as int),

@fn row::csr_select
@props C12
@rlimit 400
@index 0 2 3 5
@extra
use std::collections::HashSet;
@sig
requires exists|n: int, m: int| sel_pre(n, m, a_p@, a_j@, a_x@, rowidx@, colidx@),
    rowidx.len() < usize::MAX, colidx.len() <= I::imax(), seltot(a_p@, a_j@, rowidx@, colidx@, rowidx.len() as int) <= I::imax(),
    seltot(a_p@, a_j@, rowidx@, colidx@, rowidx.len() as int) <= isize::MAX,
ensures final(b_p).len() == rowidx.len() + 1, final(b_j).len() == final(b_p)[rowidx.len() as int].iv(), final(b_x).len() == final(b_j).len(),
    wfx(rowidx.len() as int, colidx.len() as int, final(b_p)@, final(b_j)@, final(b_x)@), strict_lines(rowidx.len() as int, final(b_p)@, final(b_j)@),
    sel_ok(a_p@, a_j@, a_x@, rowidx@, colidx@, rowidx.len() as int, final(b_p)@, final(b_j)@, final(b_x)@),
    forall|n: int, m: int| distinct_lines(n, a_p@, a_j@) && #[trigger] sel_pre(n, m, a_p@, a_j@, a_x@, rowidx@, colidx@) ==> sel_val(a_p@, a_j@, a_x@, rowidx@, colidx@, final(b_p)@, final(b_j)@, final(b_x)@),
@top
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost (nr, nc) = choose|n: int, m: int| sel_pre(n, m, a_p@, a_j@, a_x@, rowidx@, colidx@);
    let ghost tot = seltot(a_p@, a_j@, rowidx@, colidx@, rowidx.len() as int);
    proof { ptr_all(nr, a_p@); }
@loop 0
invariant new_nnz == seltot(a_p@, a_j@, rowidx@, colidx@, vpi0 as int),
@top 0
    proof { seltot_mono(a_p@, a_j@, rowidx@, colidx@, vpi0 + 1, rowidx.len() as int); seltot_mono(a_p@, a_j@, rowidx@, colidx@, 0, vpi0 as int); let z = rowidx[vpi0 as int]; }
@loop 1
invariant
    forall|k: int| 0 <= k <= usize::MAX ==> #[trigger] colptrs@.contains(k as usize) == occ(a_j@, row_start as int, jj as int, k),
@loop 2
invariant
    new_nnz == seltot(a_p@, a_j@, rowidx@, colidx@, vpi0 as int) + selcnt(a_j@, row_start as int, row_end as int, colidx@, vpi2 as int),
@top 2
    proof { selcnt_mono(a_j@, row_start as int, row_end as int, colidx@, vpi2 + 1, colidx.len() as int); let z = colidx[vpi2 as int]; }
@loop 3
invariant
    b_p.len() == rowidx.len() + 1, b_j.len() == tot, b_x.len() == tot,
    kk == seltot(a_p@, a_j@, rowidx@, colidx@, vpi3 as int), is_ptr(vpi3 as int, b_p@), b_p[vpi3 as int].iv() == kk,
    forall|k: int| 0 <= k < kk ==> 0 <= (#[trigger] b_j[k]).iv() < colidx.len(),
    sel_ok(a_p@, a_j@, a_x@, rowidx@, colidx@, vpi3 as int, b_p@, b_j@, b_x@), strict_lines(vpi3 as int, b_p@, b_j@),
@top 3
    let ghost so = kk as int; let ghost sj = b_j@; let ghost sx = b_x@; let ghost sp = b_p@;
    proof { seltot_mono(a_p@, a_j@, rowidx@, colidx@, vpi3 + 1, rowidx.len() as int); seltot_mono(a_p@, a_j@, rowidx@, colidx@, 0, vpi3 as int); let z = rowidx[vpi3 as int]; }
@loop 4
invariant
    forall|k: int| 0 <= k <= usize::MAX ==> #[trigger] colptrs@.dom().contains(k as usize) == (last(a_j@, start as int, jj as int, k) >= 0),
    forall|k: int| 0 <= k <= usize::MAX && #[trigger] colptrs@.dom().contains(k as usize) ==> colptrs@[k as usize] == last(a_j@, start as int, jj as int, k),
@loop 5
invariant
    b_j.len() == tot, b_x.len() == tot, so <= kk,
    kk == so + selcnt(a_j@, start as int, end as int, colidx@, vpi5 as int),
    selrow(a_j@, a_x@, start as int, end as int, colidx@, vpi5 as int, b_j@, b_x@, so, kk as int),
    strict_seg(b_j@, so, kk as int), forall|k: int| so <= k < kk ==> 0 <= (#[trigger] b_j[k]).iv() < vpi5,
    forall|k: int| 0 <= k < so ==> (#[trigger] b_j[k]) == sj[k], forall|k: int| 0 <= k < so ==> (#[trigger] b_x[k]) == sx[k],
@top 5
    let ghost gj = b_j@; let ghost gx = b_x@; let ghost gk = kk as int;
    proof { selcnt_mono(a_j@, start as int, end as int, colidx@, vpi5 + 1, colidx.len() as int); let z = colidx[vpi5 as int]; last_occ(a_j@, start as int, end as int, z.iv()); }
@bot 5
    proof {
        let n1 = vpi5 + 1;
        assert forall|q: int| 0 <= q < n1 implies selpos(a_j@, a_x@, start as int, end as int, colidx[q].iv(), #[trigger] vals(b_j@, b_x@, so, kk as int, q)) by {
            let w = vals(gj, gx, so, gk, q);
            vals_ext(gj, gx, so, gk, b_j@, b_x@, 0, q);
            if kk > gk { vals_store(gj, gx, so, gk, b_j@, b_x@, q); }
            if q == vpi5 { vals_has(gj, gx, so, gk, q); occ_ex(gj, so, gk, q); assert(w.len() == 0); assert(w == Seq::<T>::empty()); if kk > gk { assert(vals(b_j@, b_x@, so, kk as int, q) == seq![b_x[gk]]); } }
        }
    }
@bot 3
    proof {
        let n1 = vpi3 + 1;
        assert forall|r: int, q: int| 0 <= r < n1 && 0 <= q < colidx.len() implies
            selpos(a_j@, a_x@, a_p[rowidx[r].iv()].iv(), a_p[rowidx[r].iv() + 1].iv(), colidx[q].iv(), #[trigger] vall(b_p@, b_j@, b_x@, r, q)) by {
            if r < vpi3 {
                assert(b_p[r] == sp[r] && b_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[vpi3 as int].iv());
                vals_ext(sj, sx, sp[r].iv(), sp[r + 1].iv(), b_j@, b_x@, 0, q);
                let z = vall(sp, sj, sx, r, q);
            } else { let z = vals(b_j@, b_x@, so, kk as int, q); }
        }
        assert forall|r: int| 0 <= r < n1 implies #[trigger] strict_line(b_p@, b_j@, r) by {
            if r < vpi3 {
                assert(b_p[r] == sp[r] && b_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[vpi3 as int].iv());
                assert(strict_line(sp, sj, r));
            }
        }
    }
@end
    proof {
        assert forall|n: int, m: int| distinct_lines(n, a_p@, a_j@) && #[trigger] sel_pre(n, m, a_p@, a_j@, a_x@, rowidx@, colidx@) implies sel_val(a_p@, a_j@, a_x@, rowidx@, colidx@, b_p@, b_j@, b_x@) by {
            sel_ent(n, m, a_p@, a_j@, a_x@, rowidx@, colidx@, rowidx.len() as int, b_p@, b_j@, b_x@);
        }
    }

@fn row::csr_row_index
@props C12
@sig
requires exists|n: int, m: int| wfx(n, m, a_p@, a_j@, a_x@) && n < usize::MAX && (forall|r: int| 0 <= r < rows.len() ==> (#[trigger] rows[r]) < n), n_row_idx <= rows.len(),
    old(b_j).len() + catrows(a_p@, a_j@, rowlist(rows@, n_row_idx as int)).len() <= isize::MAX,
    old(b_x).len() + catrows(a_p@, a_j@, rowlist(rows@, n_row_idx as int)).len() <= isize::MAX,
ensures final(b_j)@ == old(b_j)@ + catrows(a_p@, a_j@, rowlist(rows@, n_row_idx as int)),
    final(b_x)@ == old(b_x)@ + catrows(a_p@, a_x@, rowlist(rows@, n_row_idx as int)),
@top
    let ghost (n, m) = choose|n: int, m: int| wfx(n, m, a_p@, a_j@, a_x@) && n < usize::MAX && (forall|r: int| 0 <= r < rows.len() ==> (#[trigger] rows[r]) < n);
    proof { ptr_all(n, a_p@); }
@loop 0
invariant b_j@ == old(b_j)@ + catrows(a_p@, a_j@, rowlist(rows@, i as int)),
    b_x@ == old(b_x)@ + catrows(a_p@, a_x@, rowlist(rows@, i as int)),
@bot 0
    proof {
        assert(rowlist(rows@, i + 1) == rowlist(rows@, i as int).push(rows[i as int] as int));
        catrows_push(a_p@, a_j@, rowlist(rows@, i as int), rows[i as int] as int);
        catrows_push(a_p@, a_x@, rowlist(rows@, i as int), rows[i as int] as int);
        assert(b_j@ == old(b_j)@ + catrows(a_p@, a_j@, rowlist(rows@, i + 1)));
        assert(b_x@ == old(b_x)@ + catrows(a_p@, a_x@, rowlist(rows@, i + 1)));
    }

@fn row::csr_row_slice
@props C12
@sig
requires exists|n: int, m: int| wfx(n, m, a_p@, a_j@, a_x@) && stop <= n && n < usize::MAX, step >= 1, stop + step <= usize::MAX,
    old(b_j).len() + catrows(a_p@, a_j@, rowrange(start as int, step as int, rangelen(start as int, stop as int, step as int))).len() <= isize::MAX,
    old(b_x).len() + catrows(a_p@, a_j@, rowrange(start as int, step as int, rangelen(start as int, stop as int, step as int))).len() <= isize::MAX,
ensures final(b_j)@ == old(b_j)@ + catrows(a_p@, a_j@, rowrange(start as int, step as int, rangelen(start as int, stop as int, step as int))),
    final(b_x)@ == old(b_x)@ + catrows(a_p@, a_x@, rowrange(start as int, step as int, rangelen(start as int, stop as int, step as int))),
@top
    let ghost (n, m) = choose|n: int, m: int| wfx(n, m, a_p@, a_j@, a_x@) && stop <= n && n < usize::MAX;
    let ghost mut t: int = 0;
    proof { ptr_all(n, a_p@); assert(step * 0int == 0) by(nonlinear_arith); if start >= stop { } }
    assert(b_j@ == old(b_j)@ + catrows(a_p@, a_j@, rowrange(start as int, step as int, 0)));
    assert(b_x@ == old(b_x)@ + catrows(a_p@, a_x@, rowrange(start as int, step as int, 0)));
@loop 0
invariant t >= 0, row == start + step * t, t > 0 ==> start + step * (t - 1) < stop,
    b_j@ == old(b_j)@ + catrows(a_p@, a_j@, rowrange(start as int, step as int, t)),
    b_x@ == old(b_x)@ + catrows(a_p@, a_x@, rowrange(start as int, step as int, t)),
decreases if stop > row { stop - row } else { 0 }
@top 0
    let ghost gj = b_j@; let ghost gx = b_x@;
@bot 0
    proof {
        assert(start + step * (t + 1 - 1) < stop);
        assert(step * (t + 1) == step * t + step) by(nonlinear_arith);
        catrows_push(a_p@, a_j@, rowrange(start as int, step as int, t), start + step * t);
        catrows_push(a_p@, a_x@, rowrange(start as int, step as int, t), start + step * t);
        t = t + 1;
        assert(b_j@ == old(b_j)@ + catrows(a_p@, a_j@, rowrange(start as int, step as int, t)));
        assert(b_x@ == old(b_x)@ + catrows(a_p@, a_x@, rowrange(start as int, step as int, t)));
    }
@post 0
    proof { rangelen_is(start as int, stop as int, step as int, t); }
@loop 1
invariant false,
decreases 0int

@fn row::get_csr_submatrix
@props C12
@rlimit 400
@sig
requires exists|n: int, m: int| wfx(n, m, a_p@, a_j@, a_x@) && ir1.iv() <= n && n < usize::MAX, 0 <= ir0.iv() <= ir1.iv(), 0 <= ic0.iv() <= ic1.iv(),
    ic1.iv() <= usize::MAX,
ensures final(b_p).len() == ir1.iv() - ir0.iv() + 1, final(b_j).len() == final(b_p)[ir1.iv() - ir0.iv()].iv(), final(b_x).len() == final(b_j).len(),
    wfx(ir1.iv() - ir0.iv(), ic1.iv() - ic0.iv(), final(b_p)@, final(b_j)@, final(b_x)@),
    sub_ok(a_p@, a_j@, a_x@, ir0.iv(), ir1.iv() - ir0.iv(), ic0.iv(), ic1.iv(), final(b_p)@, final(b_j)@, final(b_x)@),
    forall|r: int, c: int| 0 <= r < ir1.iv() - ir0.iv() && 0 <= c < ic1.iv() - ic0.iv() ==> #[trigger] ent(final(b_p)@, final(b_j)@, final(b_x)@, r, c) == ent(a_p@, a_j@, a_x@, ir0.iv() + r, ic0.iv() + c),
@top
    let ghost (n, m) = choose|n: int, m: int| wfx(n, m, a_p@, a_j@, a_x@) && ir1.iv() <= n && n < usize::MAX;
    let ghost r0 = ir0.iv(); let ghost nr = ir1.iv() - ir0.iv(); let ghost lo = ic0.iv(); let ghost hi = ic1.iv();
    let ghost tot = keptot(a_p@, a_j@, r0, nr, lo, hi);
    proof { ptr_all(n, a_p@); keptot_bound(n, a_p@, a_j@, r0, nr, lo, hi); }
@loop 0
invariant new_nnz == keptot(a_p@, a_j@, r0, i as int, lo, hi),
@top 0
    proof { keptot_mono(a_p@, a_j@, r0, i + 1, nr, lo, hi); keptot_mono(a_p@, a_j@, r0, 0, i as int, lo, hi); }
@loop 1
invariant new_nnz == keptot(a_p@, a_j@, r0, i as int, lo, hi) + kept(a_j@, row_start as int, jj as int, lo, hi).len(),
@top 1
    proof { kept_mono(a_j@, row_start as int, jj + 1, row_end as int, lo, hi); }
@loop 2
invariant
    b_p.len() == nr + 1, b_j.len() == tot, b_x.len() == tot, kk == keptot(a_p@, a_j@, r0, i as int, lo, hi),
    is_ptr(i as int, b_p@), forall|r: int| 0 <= r <= i ==> (#[trigger] b_p[r]).iv() == keptot(a_p@, a_j@, r0, r, lo, hi),
    forall|k: int| 0 <= k < kk ==> 0 <= (#[trigger] b_j[k]).iv() < hi - lo,
    forall|r: int| 0 <= r < i ==> #[trigger] kline(a_p@, a_j@, a_x@, r0, lo, hi, b_p@, b_j@, b_x@, r),
@top 2
    let ghost so = kk as int; let ghost sj = b_j@; let ghost sx = b_x@; let ghost sp = b_p@;
    proof { keptot_mono(a_p@, a_j@, r0, i + 1, nr, lo, hi); keptot_mono(a_p@, a_j@, r0, 0, i as int, lo, hi); }
@loop 3
invariant
    b_j.len() == tot, b_x.len() == tot, kk == so + kept(a_j@, row_start as int, jj as int, lo, hi).len(),
    keptseg(a_j@, a_x@, row_start as int, jj as int, lo, hi, b_j@, b_x@, so),
    forall|k: int| 0 <= k < kk ==> 0 <= (#[trigger] b_j[k]).iv() < hi - lo,
    forall|k: int| 0 <= k < so ==> (#[trigger] b_j[k]) == sj[k], forall|k: int| 0 <= k < so ==> (#[trigger] b_x[k]) == sx[k],
@pre 3
    proof { keptseg_start(a_j@, a_x@, row_start as int, lo, hi, b_j@, b_x@, so); }
@top 3
    let ghost gj = b_j@; let ghost gx = b_x@;
    proof { kept_mono(a_j@, row_start as int, jj + 1, row_end as int, lo, hi); }
@bot 3
    proof { keptseg_step(a_j@, a_x@, row_start as int, jj as int, lo, hi, gj, gx, so, b_j@, b_x@); }
@bot 2
    proof {
        let n1 = i + 1;
        assert forall|r: int| 0 <= r <= n1 implies (#[trigger] b_p[r]).iv() == keptot(a_p@, a_j@, r0, r, lo, hi) by { if r < n1 { assert(b_p[r] == sp[r]); } }
        assert forall|r: int| 0 <= r < n1 implies #[trigger] kline(a_p@, a_j@, a_x@, r0, lo, hi, b_p@, b_j@, b_x@, r) by {
            assert(b_p[r] == sp[r]);
            if r < i {
                keptot_mono(a_p@, a_j@, r0, r + 1, i as int, lo, hi); keptot_mono(a_p@, a_j@, r0, 0, r, lo, hi);
                assert(kline(a_p@, a_j@, a_x@, r0, lo, hi, sp, sj, sx, r));
                keptseg_ext(a_j@, a_x@, a_p[r0 + r].iv(), a_p[r0 + r + 1].iv(), lo, hi, sj, sx, sp[r].iv(), so, b_j@, b_x@);
            }
        }
    }
@end
    proof { sub_ent(a_p@, a_j@, a_x@, r0, nr, lo, hi, b_p@, b_j@, b_x@); }

@fn row::csr_column_index1
@props C12
@sig
requires wf(n_row as int, n_col as int, a_p@, a_j@), n_idx <= col_idxs.len(), forall|k: int| 0 <= k < n_idx ==> (#[trigger] col_idxs[k]) < n_col, n_idx <= I::imax(),
    old(col_offsets).len() >= n_col, forall|c: int| 0 <= c < n_col ==> (#[trigger] old(col_offsets)[c]).iv() == 0,
    old(b_p).len() >= n_row + 1, n_row < usize::MAX, centries(col_idxs@, n_idx as int, a_j@, a_p[n_row as int].iv()) <= I::imax(),
ensures final(col_offsets).len() == old(col_offsets).len(), final(b_p).len() == old(b_p).len(),
    forall|c: int| 0 <= c < n_col ==> (#[trigger] final(col_offsets)[c]).iv() == ccum(col_idxs@, n_idx as int, c),
    forall|r: int| 0 <= r <= n_row ==> (#[trigger] final(b_p)[r]).iv() == centries(col_idxs@, n_idx as int, a_j@, a_p[r].iv()),
@top
    let ghost n = n_idx as int; let ghost nz = a_p[n_row as int].iv();
    proof { ptr_all(n_row as int, a_p@); }
@loop 0
invariant col_offsets.len() == old(col_offsets).len(),
    forall|c: int| 0 <= c < n_col ==> (#[trigger] col_offsets[c]).iv() == ccount(col_idxs@, jj as int, c),
@top 0
    let ghost pre = col_offsets@;
    proof { let z = col_idxs[jj as int]; ccount_mono(col_idxs@, jj as int, jj as int, z as int); }
@bot 0
    proof { assert forall|c: int| 0 <= c < n_col implies (#[trigger] col_offsets[c]).iv() == ccount(col_idxs@, jj + 1, c) by { let z = pre[c]; } }
@loop 1
invariant b_p.len() == old(b_p).len(),
    new_nnz.iv() == centries(col_idxs@, n, a_j@, a_p[i as int].iv()),
    forall|r: int| 0 <= r <= i ==> (#[trigger] b_p[r]).iv() == centries(col_idxs@, n, a_j@, a_p[r].iv()),
@loop 2
invariant new_nnz.iv() == centries(col_idxs@, n, a_j@, jj as int),
@top 2
    proof { centries_mono(col_idxs@, n, a_j@, jj + 1, nz); centries_mono(col_idxs@, n, a_j@, 0, jj as int); let z = a_j[jj as int]; let y = col_offsets[z.iv()]; }
@loop 3
invariant col_offsets.len() == old(col_offsets).len(),
    1 <= n_col ==> j <= n_col,
    forall|c: int| 0 <= c < j && c < n_col ==> (#[trigger] col_offsets[c]).iv() == ccum(col_idxs@, n, c),
    forall|c: int| j <= c < n_col ==> (#[trigger] col_offsets[c]).iv() == ccount(col_idxs@, n, c),
@pre 3
    proof { if n_col > 0 { assert(ccum(col_idxs@, n, 0) == ccum(col_idxs@, n, -1) + ccount(col_idxs@, n, 0)); } }
@top 3
    let ghost pre = col_offsets@;
    proof { ccum_le(col_idxs@, n, j as int); let z = col_offsets[j as int]; let y = col_offsets[j - 1]; assert(ccum(col_idxs@, n, j as int) == ccum(col_idxs@, n, j - 1) + ccount(col_idxs@, n, j as int)); }
@bot 3
    proof {
        let j1 = j + 1;
        assert forall|c: int| 0 <= c < j1 && c < n_col implies (#[trigger] col_offsets[c]).iv() == ccum(col_idxs@, n, c) by { let z = pre[c]; }
        assert forall|c: int| j1 <= c < n_col implies (#[trigger] col_offsets[c]).iv() == ccount(col_idxs@, n, c) by { let z = pre[c]; }
    }

@fn row::csr_column_index2
@props C12
@sig
requires exists|m: int| coffs(m, col_offsets@, col_order.len() as int) && (forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] a_j[k]).iv() < m), 
    nnz <= a_j.len(), nnz <= a_x.len(),
    old(b_j).len() >= cexpj(col_order@, col_offsets@, a_j@, nnz as int).len(), old(b_x).len() >= cexpj(col_order@, col_offsets@, a_j@, nnz as int).len(),
ensures final(b_j).len() == old(b_j).len(), final(b_x).len() == old(b_x).len(),
    forall|k: int| 0 <= k < cexpj(col_order@, col_offsets@, a_j@, nnz as int).len() ==> (#[trigger] final(b_j)[k]) == cexpj(col_order@, col_offsets@, a_j@, nnz as int)[k],
    forall|k: int| 0 <= k < cexpj(col_order@, col_offsets@, a_j@, nnz as int).len() ==> (#[trigger] final(b_x)[k]) == cexpx(col_offsets@, a_j@, a_x@, nnz as int)[k],
@top
    let ghost m = choose|m: int| coffs(m, col_offsets@, col_order.len() as int) && (forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] a_j[k]).iv() < m);
    let ghost ord = col_order@; let ghost offs = col_offsets@;
@loop 0
invariant b_j.len() == old(b_j).len(), b_x.len() == old(b_x).len(), n == cexpj(ord, offs, a_j@, jj as int).len(),
    forall|k: int| 0 <= k < n ==> (#[trigger] b_j[k]) == cexpj(ord, offs, a_j@, jj as int)[k],
    forall|k: int| 0 <= k < n ==> (#[trigger] b_x[k]) == cexpx(offs, a_j@, a_x@, jj as int)[k],
@top 0
    let ghost so = n as int; let ghost sj = b_j@; let ghost sx = b_x@; let ghost c = a_j[jj as int].iv();
    let ghost lo = cprev(offs, c); let ghost hi = offs[c].iv();
    proof { cexp_mono(ord, offs, a_j@, a_x@, m, jj + 1, nnz as int); cexp_mono(ord, offs, a_j@, a_x@, m, 0, jj as int); cexp_mono(ord, offs, a_j@, a_x@, m, 0, jj + 1); let z = col_offsets[c]; if c > 0 { let y = col_offsets[c - 1]; } 
        assert(cexpj(ord, offs, a_j@, jj + 1).len() == so + hi - lo); }
@loop 1
invariant b_j.len() == old(b_j).len(), b_x.len() == old(b_x).len(), n == so + k - lo,
    forall|q: int| 0 <= q < so ==> (#[trigger] b_j[q]) == sj[q], forall|q: int| 0 <= q < so ==> (#[trigger] b_x[q]) == sx[q],
    forall|q: int| so <= q < n ==> (#[trigger] b_j[q]) == ord[lo + q - so], forall|q: int| so <= q < n ==> (#[trigger] b_x[q]) == a_x[jj as int],
