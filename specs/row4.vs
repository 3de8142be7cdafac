@fn row::csr_eliminate_zeros
@props C10
@sig
requires wfx(n_row as int, _n_col as int, old(a_p)@, old(a_j)@, old(a_x)@),
ensures final(a_p).len() == old(a_p).len(), final(a_j).len() == old(a_j).len(), final(a_x).len() == old(a_x).len(),
    compacted(n_row as int, old(a_p)@, old(a_j)@, old(a_x)@, final(a_p)@, final(a_j)@, final(a_x)@),
    wfx(n_row as int, _n_col as int, final(a_p)@, final(a_j)@, final(a_x)@),
    forall|r: int, c: int| 0 <= r < n_row ==> #[trigger] ent(final(a_p)@, final(a_j)@, final(a_x)@, r, c) == ent(old(a_p)@, old(a_j)@, old(a_x)@, r, c),
    forall|r: int| 0 <= r < n_row && sorted_line(old(a_p)@, old(a_j)@, r) ==> #[trigger] sorted_line(final(a_p)@, final(a_j)@, r),
    forall|r: int| 0 <= r < n_row && strict_line(old(a_p)@, old(a_j)@, r) ==> #[trigger] strict_line(final(a_p)@, final(a_j)@, r),
    forall|k: int| 0 <= k < final(a_p)[n_row as int].iv() ==> (#[trigger] final(a_x)[k]).sv() != C::zero(),
    final(a_p)[n_row as int].iv() <= old(a_p)[n_row as int].iv(),
@top
    let ghost oj = a_j@; let ghost ox = a_x@; let ghost op = a_p@;
    proof { ptr_all(n_row as int, op); }
@loop 0
invariant
    a_p.len() == op.len(), a_j.len() == oj.len(), a_x.len() == ox.len(),
    row_end == op[i as int].iv(),
    nnz == nzp(ox, row_end as int).len(), nnz <= row_end,
    forall|q: int| 0 <= q <= i ==> (#[trigger] a_p[q]).iv() == nzp(ox, op[q].iv()).len(),
    forall|q: int| i < q < op.len() ==> a_p[q] == op[q],
    forall|k: int| row_end <= k < oj.len() ==> a_j[k] == oj[k],
    forall|k: int| row_end <= k < ox.len() ==> a_x[k] == ox[k],
    forall|t: int| 0 <= t < nnz ==> (#[trigger] a_j[t]) == oj[nzp(ox, row_end as int)[t]],
    forall|t: int| 0 <= t < nnz ==> (#[trigger] a_x[t]) == ox[nzp(ox, row_end as int)[t]],
@top 0
    assert(a_p[i + 1] == op[i + 1]);
@loop 1
invariant
    a_j.len() == oj.len(), a_x.len() == ox.len(),
    op[i as int].iv() <= jj <= row_end, row_end == op[i + 1].iv(),
    nnz == nzp(ox, jj as int).len(), nnz <= jj,
    forall|k: int| jj <= k < oj.len() ==> a_j[k] == oj[k],
    forall|k: int| jj <= k < ox.len() ==> a_x[k] == ox[k],
    forall|t: int| 0 <= t < nnz ==> (#[trigger] a_j[t]) == oj[nzp(ox, jj as int)[t]],
    forall|t: int| 0 <= t < nnz ==> (#[trigger] a_x[t]) == ox[nzp(ox, jj as int)[t]],
decreases row_end - jj
@end
    proof { compacted_ok(n_row as int, _n_col as int, op, oj, ox, a_p@, a_j@, a_x@); }

@fn row::csr_sum_duplicates
@props C10
@sig
requires wfx(n_row as int, _n_col as int, old(a_p)@, old(a_j)@, old(a_x)@),
ensures final(a_p).len() == old(a_p).len(), final(a_j).len() == old(a_j).len(), final(a_x).len() == old(a_x).len(),
    wfx(n_row as int, _n_col as int, final(a_p)@, final(a_j)@, final(a_x)@),
    forall|r: int, c: int| 0 <= r < n_row ==> #[trigger] ent(final(a_p)@, final(a_j)@, final(a_x)@, r, c) == ent(old(a_p)@, old(a_j)@, old(a_x)@, r, c),
    forall|r: int| 0 <= r < n_row && sorted_line(old(a_p)@, old(a_j)@, r) ==> #[trigger] strict_line(final(a_p)@, final(a_j)@, r),
    forall|r: int, c: int| 0 <= r < n_row ==> #[trigger] occ(final(a_j)@, final(a_p)[r].iv(), final(a_p)[r + 1].iv(), c) == occ(old(a_j)@, old(a_p)[r].iv(), old(a_p)[r + 1].iv(), c),
    final(a_p)[n_row as int].iv() <= old(a_p)[n_row as int].iv(),
@top
    let ghost oj = a_j@; let ghost ox = a_x@; let ghost op = a_p@;
    proof { ptr_all(n_row as int, op); }
@loop 0
invariant
    a_p.len() == op.len(), a_j.len() == oj.len(), a_x.len() == ox.len(),
    row_end == op[i as int].iv(), nnz <= row_end,
    is_ptr(i as int, a_p@), a_p[i as int].iv() == nnz,
    forall|q: int| i < q < op.len() ==> a_p[q] == op[q],
    forall|k: int| row_end <= k < oj.len() ==> a_j[k] == oj[k],
    forall|k: int| row_end <= k < ox.len() ==> a_x[k] == ox[k],
    forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] a_j[k]).iv() < _n_col,
    forall|r: int, c: int| 0 <= r < i ==> #[trigger] ent(a_p@, a_j@, a_x@, r, c) == ent(op, oj, ox, r, c),
    forall|r: int, c: int| 0 <= r < i ==> #[trigger] occ(a_j@, a_p[r].iv(), a_p[r + 1].iv(), c) == occ(oj, op[r].iv(), op[r + 1].iv(), c),
    forall|r: int| 0 <= r < i && sorted_line(op, oj, r) ==> #[trigger] strict_line(a_p@, a_j@, r),
@top 0
    let ghost so = nnz as int; let ghost sj = a_j@; let ghost sx = a_x@; let ghost sp = a_p@;
    let ghost rs = row_end as int;
    assert(a_p[i + 1] == op[i + 1]);
@loop 1
invariant
    a_j.len() == oj.len(), a_x.len() == ox.len(), so <= nnz <= jj,
    rs <= jj <= row_end, row_end == op[i + 1].iv(),
    forall|k: int| jj <= k < oj.len() ==> a_j[k] == oj[k],
    forall|k: int| jj <= k < ox.len() ==> a_x[k] == ox[k],
    forall|k: int| 0 <= k < so ==> a_j[k] == sj[k], forall|k: int| 0 <= k < so ==> a_x[k] == sx[k],
    forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] a_j[k]).iv() < _n_col,
    forall|c: int| esum(a_j@, a_x@, so, nnz as int, c) == #[trigger] esum(oj, ox, rs, jj as int, c),
    forall|c: int| occ(a_j@, so, nnz as int, c) == #[trigger] occ(oj, rs, jj as int, c),
    sorted_line(op, oj, i as int) ==> strict_seg(a_j@, so, nnz as int)
        && forall|k: int, l: int| #![trigger a_j[k], oj[l]] so <= k < nnz && jj <= l < row_end ==> a_j[k].iv() < oj[l].iv(),
decreases row_end - jj
@top 1
    let ghost k0 = jj as int; let ghost bj = a_j@; let ghost bx = a_x@;
@loop 2
invariant
    k0 < jj <= row_end, oj[k0] == j,
    forall|l: int| k0 <= l < jj ==> (#[trigger] oj[l]).iv() == j.iv(),
    forall|c: int| #[trigger] esum(oj, ox, rs, jj as int, c) == esum(oj, ox, rs, k0, c).add(if c == j.iv() { x.sv() } else { C::zero() }),
    forall|c: int| #[trigger] occ(oj, rs, jj as int, c) == (occ(oj, rs, k0, c) || c == j.iv()),
decreases row_end - jj
@top 2
    let ghost px = x;
    assert forall|c: int| #[trigger] esum(oj, ox, rs, jj + 1, c) == esum(oj, ox, rs, k0, c).add(if c == j.iv() { px.sv().add(ox[jj as int].sv()) } else { C::zero() }) by {
        let z = esum(oj, ox, rs, jj as int, c);
    }
    assert forall|c: int| #[trigger] occ(oj, rs, jj + 1, c) == (occ(oj, rs, k0, c) || c == j.iv()) by { let z = occ(oj, rs, jj as int, c); }
@bot 1
    proof {
        assert forall|c: int| esum(a_j@, a_x@, so, nnz as int, c) == #[trigger] esum(oj, ox, rs, jj as int, c) by {
            esum_ext(bj, bx, so, nnz - 1, a_j@, a_x@, 0, c);
            let z = esum(oj, ox, rs, k0, c);
        }
        assert forall|c: int| occ(a_j@, so, nnz as int, c) == #[trigger] occ(oj, rs, jj as int, c) by {
            occ_ext(bj, so, nnz - 1, a_j@, 0, c);
            let z = occ(oj, rs, k0, c);
        }
        if sorted_line(op, oj, i as int) {
            assert forall|k: int, l: int| #![trigger a_j[k], a_j[l]] so <= k < l < nnz implies a_j[k].iv() < a_j[l].iv() by { let z = bj[k]; let y = bj[l]; let w = oj[k0]; }
            assert forall|k: int, l: int| #![trigger a_j[k], oj[l]] so <= k < nnz && jj <= l < row_end implies a_j[k].iv() < oj[l].iv() by {
                let z = bj[k]; let w = oj[k0]; let v = oj[jj as int];
            }
        }
    }
@bot 0
    proof {
        let n1 = i + 1;
        assert(sp[i as int] == a_p[i as int]);
        assert(is_ptr(n1, a_p@));
        assert forall|r: int, c: int| 0 <= r < n1 implies #[trigger] ent(a_p@, a_j@, a_x@, r, c) == ent(op, oj, ox, r, c) by {
            if r < i {
                assert(a_p[r] == sp[r] && a_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[i as int].iv());
                esum_ext(sj, sx, sp[r].iv(), sp[r + 1].iv(), a_j@, a_x@, 0, c);
                let z = ent(sp, sj, sx, r, c);
            } else { let z = esum(oj, ox, rs, row_end as int, c); }
        }
        assert forall|r: int, c: int| 0 <= r < n1 implies #[trigger] occ(a_j@, a_p[r].iv(), a_p[r + 1].iv(), c) == occ(oj, op[r].iv(), op[r + 1].iv(), c) by {
            if r < i {
                assert(a_p[r] == sp[r] && a_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[i as int].iv());
                occ_ext(sj, sp[r].iv(), sp[r + 1].iv(), a_j@, 0, c);
                let z = occ(sj, sp[r].iv(), sp[r + 1].iv(), c);
            } else { let z = occ(oj, rs, row_end as int, c); }
        }
        assert forall|r: int| 0 <= r < n1 && sorted_line(op, oj, r) implies #[trigger] strict_line(a_p@, a_j@, r) by {
            if r < i {
                assert(strict_line(sp, sj, r));
                assert(a_p[r] == sp[r] && a_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[i as int].iv());
                assert forall|k: int, l: int| #![trigger a_j[k], a_j[l]] a_p[r].iv() <= k < l < a_p[r + 1].iv() implies a_j[k].iv() < a_j[l].iv() by { let z = sj[k]; let y = sj[l]; }
            }
        }
    }

@fn row::csr_sort_indices
@props C10
@sub temp.sort_by(|a, b| ==> vp_sort_pairs(&mut temp, |a: &(I, T), b: &(I, T)| -> (o: Ordering)
@closure 0
ensures o == ord(a.0.iv(), b.0.iv())
@sig
requires exists|m: int| #[trigger] wfx(n_row as int, m, a_p@, old(a_j)@, old(a_x)@),
ensures final(a_j).len() == old(a_j).len(), final(a_x).len() == old(a_x).len(),
    sorted_lines(n_row as int, a_p@, final(a_j)@),
    forall|r: int, c: int| 0 <= r < n_row ==> #[trigger] vals(final(a_j)@, final(a_x)@, a_p[r].iv(), a_p[r + 1].iv(), c) == vals(old(a_j)@, old(a_x)@, a_p[r].iv(), a_p[r + 1].iv(), c),
    forall|r: int, c: int| 0 <= r < n_row ==> #[trigger] ent(a_p@, final(a_j)@, final(a_x)@, r, c) == ent(a_p@, old(a_j)@, old(a_x)@, r, c),
    forall|m: int| #[trigger] wfx(n_row as int, m, a_p@, old(a_j)@, old(a_x)@) ==> wfx(n_row as int, m, a_p@, final(a_j)@, final(a_x)@),
    forall|k: int| a_p[n_row as int].iv() <= k < final(a_j).len() ==> final(a_j)[k] == old(a_j)[k],
    forall|k: int| a_p[n_row as int].iv() <= k < final(a_x).len() ==> final(a_x)[k] == old(a_x)[k],
@top
    proof { ptr_all(n_row as int, a_p@); }
    let ghost oj = a_j@; let ghost ox = a_x@;
@loop 0
invariant
    a_j.len() == oj.len(), a_x.len() == ox.len(),
    forall|r: int| 0 <= r < i ==> #[trigger] sorted_line(a_p@, a_j@, r),
    forall|r: int, c: int| 0 <= r < i ==> #[trigger] vals(a_j@, a_x@, a_p[r].iv(), a_p[r + 1].iv(), c) == vals(oj, ox, a_p[r].iv(), a_p[r + 1].iv(), c),
    forall|k: int| a_p[i as int].iv() <= k < oj.len() ==> a_j[k] == oj[k],
    forall|k: int| a_p[i as int].iv() <= k < ox.len() ==> a_x[k] == ox[k],
@top 0
    let ghost sj = a_j@; let ghost sx = a_x@;
@loop 1
invariant
    n == jj - row_start, temp.len() == row_end - row_start,
    forall|t: int| 0 <= t < n ==> (#[trigger] temp[t]).0 == oj[row_start + t] && temp[t].1 == ox[row_start + t],
@post 1
    let ghost t0 = temp@;
@loop 2
invariant
    a_j.len() == oj.len(), a_x.len() == ox.len(),
    n == jj - row_start, temp.len() == row_end - row_start,
    forall|k: int| row_start <= k < jj ==> (#[trigger] a_j[k]) == temp[k - row_start].0,
    forall|k: int| row_start <= k < jj ==> (#[trigger] a_x[k]) == temp[k - row_start].1,
    forall|k: int| 0 <= k < row_start ==> a_j[k] == sj[k], forall|k: int| 0 <= k < row_start ==> a_x[k] == sx[k],
    forall|k: int| jj <= k < oj.len() ==> a_j[k] == oj[k], forall|k: int| jj <= k < ox.len() ==> a_x[k] == ox[k],
@bot 0
    proof {
        assert forall|r: int, c: int| 0 <= r < i + 1 implies #[trigger] vals(a_j@, a_x@, a_p[r].iv(), a_p[r + 1].iv(), c) == vals(oj, ox, a_p[r].iv(), a_p[r + 1].iv(), c) by {
            if r < i {
                assert(a_p[r + 1].iv() <= a_p[i as int].iv());
                vals_ext(sj, sx, a_p[r].iv(), a_p[r + 1].iv(), a_j@, a_x@, 0, c);
                let z = vals(sj, sx, a_p[r].iv(), a_p[r + 1].iv(), c);
            } else {
                vals_pv(temp@, a_j@, a_x@, row_start as int, temp.len() as int, c);
                vals_pv(t0, oj, ox, row_start as int, temp.len() as int, c);
                let z = pvals(temp@, temp.len() as int, c);
            }
        }
        assert forall|r: int| 0 <= r < i + 1 implies #[trigger] sorted_line(a_p@, a_j@, r) by {
            if r < i {
                assert(sorted_line(a_p@, sj, r));
                assert(a_p[r + 1].iv() <= a_p[i as int].iv());
                assert forall|k: int, l: int| #![trigger a_j[k], a_j[l]] a_p[r].iv() <= k <= l < a_p[r + 1].iv() implies a_j[k].iv() <= a_j[l].iv() by { let z = sj[k]; let y = sj[l]; }
            } else {
                assert forall|k: int, l: int| #![trigger a_j[k], a_j[l]] a_p[r].iv() <= k <= l < a_p[r + 1].iv() implies a_j[k].iv() <= a_j[l].iv() by { let z = temp[k - row_start]; let y = temp[l - row_start]; }
            }
        }
    }
@end
    proof {
        assert forall|r: int, c: int| 0 <= r < n_row implies #[trigger] ent(a_p@, a_j@, a_x@, r, c) == ent(a_p@, oj, ox, r, c) by {
            vals_sum(a_j@, a_x@, a_p[r].iv(), a_p[r + 1].iv(), c); vals_sum(oj, ox, a_p[r].iv(), a_p[r + 1].iv(), c);
            let z = vals(a_j@, a_x@, a_p[r].iv(), a_p[r + 1].iv(), c);
        }
        assert forall|m: int| #[trigger] wfx(n_row as int, m, a_p@, oj, ox) implies wfx(n_row as int, m, a_p@, a_j@, a_x@) by {
            assert forall|k: int| 0 <= k < a_p[n_row as int].iv() implies 0 <= (#[trigger] a_j[k]).iv() < m by {
                let r = line_of(n_row as int, a_p@, k); let s = a_p[r].iv(); let e = a_p[r + 1].iv(); let c = a_j[k].iv();
                occ_ex(a_j@, s, e, c); vals_has(a_j@, a_x@, s, e, c); vals_has(oj, ox, s, e, c); occ_ex(oj, s, e, c);
                let z = vals(a_j@, a_x@, s, e, c);
                assert(e <= a_p[n_row as int].iv());
            }
        }
    }
