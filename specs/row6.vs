@fn row::csr_binop_csr_general
@rlimit 400
@props C09
@sub op: Binop<T, T2> ==> op: F
@sub T2: Nonzero> ==> T2: Nonzero, F: Fn(T, T) -> T2>
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    forall|x: T, y: T| #[trigger] op.requires((x, y)),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    binop_ok::<I, T, T2, F>(op, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@top
    let ghost nc = n_col as int;
    proof { ptr_all(n_row as int, a_p@); ptr_all(n_row as int, b_p@); }
@loop 0
invariant
    next.len() == n_col, a_row.len() == n_col, b_row.len() == n_col, c_p.len() == old(c_p).len(), c_j.len() == old(c_j).len(), c_x.len() == old(c_x).len(),
    0 <= nnz.iv() <= a_p[i as int].iv() + b_p[i as int].iv(),
    is_ptr(i as int, c_p@), c_p[i as int].iv() == nnz.iv(),
    forall|k: int| 0 <= k < nc ==> (#[trigger] next[k]) == -1,
    forall|k: int| 0 <= k < nc ==> (#[trigger] a_row[k]).sv() == C::zero(),
    forall|k: int| 0 <= k < nc ==> (#[trigger] b_row[k]).sv() == C::zero(),
    forall|k: int| 0 <= k < nnz.iv() ==> (#[trigger] c_x[k]).nz(),
    forall|k: int| 0 <= k < nnz.iv() ==> 0 <= (#[trigger] c_j[k]).iv() < nc,
    binop_ok::<I, T, T2, F>(op, i as int, nc, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@),
@top 0
    let ghost so = nnz.iv(); let ghost sj = c_j@; let ghost sx = c_x@; let ghost sp = c_p@;
    let ghost mut l: Seq<int> = Seq::empty();
    let ghost as_ = a_p[i as int].iv(); let ghost ae = a_p[i + 1].iv(); let ghost bs = b_p[i as int].iv(); let ghost be = b_p[i + 1].iv();
    proof { chain_empty(next@, nc); }
@loop 1
invariant
    next.len() == n_col, a_row.len() == n_col, chain(next@, head, l, nc), length.iv() == l.len(), l.len() <= jj - i_start,
    forall|k: int| 0 <= k < nc ==> (#[trigger] a_row[k]).sv() == esum(a_j@, a_x@, i_start as int, jj as int, k),
    forall|k: int| 0 <= k < nc ==> ((#[trigger] next[k]) != -1) == occ(a_j@, i_start as int, jj as int, k),
@top 1
    let ghost pn = next@; let ghost ph = head; let ghost ps = a_row@; let ghost pl = l; let ghost k0 = a_j[jj as int].iv();
    proof { if pn[k0] == -1 { chain_push(pn, ph, pl, nc, k0); } }
@bot 1
    proof {
        if pn[k0] == -1 { l = pl.push(k0); }
        assert forall|k: int| 0 <= k < nc implies (#[trigger] a_row[k]).sv() == esum(a_j@, a_x@, i_start as int, jj + 1, k) by { let z = ps[k]; }
        assert forall|k: int| 0 <= k < nc implies ((#[trigger] next[k]) != -1) == occ(a_j@, i_start as int, jj + 1, k) by { let z = pn[k]; }
    }
@loop 2
invariant
    next.len() == n_col, b_row.len() == n_col, chain(next@, head, l, nc), length.iv() == l.len(), l.len() <= ae - as_ + jj - i_start,
    forall|k: int| 0 <= k < nc ==> (#[trigger] b_row[k]).sv() == esum(b_j@, b_x@, i_start as int, jj as int, k),
    forall|k: int| 0 <= k < nc ==> ((#[trigger] next[k]) != -1) == (occ(a_j@, as_, ae, k) || occ(b_j@, i_start as int, jj as int, k)),
@top 2
    let ghost pn = next@; let ghost ph = head; let ghost ps = b_row@; let ghost pl = l; let ghost k0 = b_j[jj as int].iv();
    proof { if pn[k0] == -1 { chain_push(pn, ph, pl, nc, k0); } }
@bot 2
    proof {
        if pn[k0] == -1 { l = pl.push(k0); }
        assert forall|k: int| 0 <= k < nc implies (#[trigger] b_row[k]).sv() == esum(b_j@, b_x@, i_start as int, jj + 1, k) by { let z = ps[k]; }
        assert forall|k: int| 0 <= k < nc implies ((#[trigger] next[k]) != -1) == (occ(a_j@, as_, ae, k) || occ(b_j@, i_start as int, jj + 1, k)) by { let z = pn[k]; }
    }
@post 2
    let ghost len = l.len() as int;
    proof {
        assert forall|k: int| 0 <= k < nc && (#[trigger] next[k]) == -1 implies a_row[k].sv() == C::zero() && b_row[k].sv() == C::zero() by {
            assert(!occ(a_j@, as_, ae, k) && !occ(b_j@, bs, be, k));
            esum_none(a_j@, a_x@, as_, ae, k); esum_none(b_j@, b_x@, bs, be, k);
            let z = a_row[k]; let y = b_row[k];
        }
    }
@loop 3
invariant
    next.len() == n_col, a_row.len() == n_col, b_row.len() == n_col, chain(next@, head, l, nc), l.len() == len - _jj,
    c_j.len() == old(c_j).len(), c_x.len() == old(c_x).len(),
    so <= nnz.iv() <= so + _jj,
    forall|k: int| 0 <= k < nc && (#[trigger] next[k]) != -1 ==> a_row[k].sv() == esum(a_j@, a_x@, as_, ae, k) && b_row[k].sv() == esum(b_j@, b_x@, bs, be, k) && (occ(a_j@, as_, ae, k) || occ(b_j@, bs, be, k)),
    forall|k: int| 0 <= k < nc && (#[trigger] next[k]) == -1 ==> a_row[k].sv() == C::zero() && b_row[k].sv() == C::zero(),
    forall|k: int| 0 <= k < nc ==> binpos::<T, T2, F>(op, esum(a_j@, a_x@, as_, ae, k), esum(b_j@, b_x@, bs, be, k), (occ(a_j@, as_, ae, k) || occ(b_j@, bs, be, k)) && next[k] == -1, #[trigger] vals(c_j@, c_x@, so, nnz.iv(), k)),
    forall|k: int| 0 <= k < nnz.iv() ==> (#[trigger] c_x[k]).nz(),
    forall|k: int| 0 <= k < nnz.iv() ==> 0 <= (#[trigger] c_j[k]).iv() < nc,
    forall|k: int| 0 <= k < so ==> (#[trigger] c_j[k]) == sj[k], forall|k: int| 0 <= k < so ==> (#[trigger] c_x[k]) == sx[k],
@top 3
    let ghost pn = next@; let ghost ph = head; let ghost pa = a_row@; let ghost pb = b_row@; let ghost pl = l; let ghost bj = c_j@; let ghost bx = c_x@; let ghost bn = nnz.iv();
    proof { chain_pop(pn, ph, pl, nc); }
@bot 3
    proof {
        l = pl.drop_last();
        let h = ph as int;
        assert forall|k: int| 0 <= k < nc implies binpos::<T, T2, F>(op, esum(a_j@, a_x@, as_, ae, k), esum(b_j@, b_x@, bs, be, k), (occ(a_j@, as_, ae, k) || occ(b_j@, bs, be, k)) && next[k] == -1, #[trigger] vals(c_j@, c_x@, so, nnz.iv(), k)) by {
            if nnz.iv() > bn { vals_store(bj, bx, so, bn, c_j@, c_x@, k); }
            let z = vals(bj, bx, so, bn, k); let y = pn[k]; let w = pn[h];
            if k == h {
                assert(op.ensures((pa[h], pb[h]), result0));
                assert(opv::<T, T2, F>(op, esum(a_j@, a_x@, as_, ae, k), esum(b_j@, b_x@, bs, be, k), result0));
                if result0.nz() { assert(vals(c_j@, c_x@, so, nnz.iv(), k) == seq![result0]); }
            }
        }
        assert forall|k: int| 0 <= k < nc && (#[trigger] next[k]) != -1 implies a_row[k].sv() == esum(a_j@, a_x@, as_, ae, k) && b_row[k].sv() == esum(b_j@, b_x@, bs, be, k) && (occ(a_j@, as_, ae, k) || occ(b_j@, bs, be, k)) by { let z = pn[k]; let y = pa[k]; let w = pb[k]; }
        assert forall|k: int| 0 <= k < nc && (#[trigger] next[k]) == -1 implies a_row[k].sv() == C::zero() && b_row[k].sv() == C::zero() by { let z = pn[k]; let y = pa[k]; let w = pb[k]; }
    }
@after op 0
    let ghost result0 = result;
@post 3
    proof { assert(l.len() == 0); assert forall|k: int| 0 <= k < nc implies (#[trigger] next[k]) == -1 by { if next[k] != -1 { assert(l.contains(k)); } } }
@bot 0
    proof {
        let n1 = i + 1;
        assert forall|k: int| 0 <= k < nc implies (#[trigger] a_row[k]).sv() == C::zero() by { let z = next[k]; }
        assert forall|k: int| 0 <= k < nc implies (#[trigger] b_row[k]).sv() == C::zero() by { let z = next[k]; }
        assert forall|r: int, c: int| 0 <= r < n1 && 0 <= c < nc implies
            binpos::<T, T2, F>(op, ent(a_p@, a_j@, a_x@, r, c), ent(b_p@, b_j@, b_x@, r, c), occl(a_p@, a_j@, r, c) || occl(b_p@, b_j@, r, c), #[trigger] vall(c_p@, c_j@, c_x@, r, c)) by {
            if r < i {
                assert(c_p[r] == sp[r] && c_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[i as int].iv());
                vals_ext(sj, sx, sp[r].iv(), sp[r + 1].iv(), c_j@, c_x@, 0, c);
                let z = vall(sp, sj, sx, r, c);
            } else { let z = vals(c_j@, c_x@, so, nnz.iv(), c); let y = next[c]; }
        }
    }


@fn row::csr_binop_csr_canonical
@rlimit 400
@props C09
@sub op: Binop<T, T2> ==> op: F
@sub T2: Nonzero> ==> T2: Nonzero, F: Fn(T, T) -> T2>
@sig
requires wfx(n_row as int, _n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, _n_col as int, b_p@, b_j@, b_x@),
    forall|x: T, y: T| #[trigger] op.requires((x, y)),
    _n_col <= isize::MAX, _n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    strict_lines(n_row as int, a_p@, a_j@), strict_lines(n_row as int, b_p@, b_j@),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, _n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    binop_ok::<I, T, T2, F>(op, n_row as int, _n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
    strict_lines(n_row as int, final(c_p)@, final(c_j)@),
@top
    let ghost nc = _n_col as int;
    proof { ptr_all(n_row as int, a_p@); ptr_all(n_row as int, b_p@); }
@loop 0
invariant
    c_p.len() == old(c_p).len(), c_j.len() == old(c_j).len(), c_x.len() == old(c_x).len(),
    0 <= nnz <= a_p[i as int].iv() + b_p[i as int].iv(),
    is_ptr(i as int, c_p@), c_p[i as int].iv() == nnz,
    forall|k: int| 0 <= k < nnz ==> (#[trigger] c_x[k]).nz(),
    forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] c_j[k]).iv() < nc,
    binop_ok::<I, T, T2, F>(op, i as int, nc, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@),
    forall|r: int| 0 <= r < i ==> #[trigger] strict_line(c_p@, c_j@, r),
@top 0
    let ghost so = nnz as int; let ghost sj = c_j@; let ghost sx = c_x@; let ghost sp = c_p@;
    let ghost as_ = a_p[i as int].iv(); let ghost ae = a_p[i + 1].iv(); let ghost bs = b_p[i as int].iv(); let ghost be = b_p[i + 1].iv();
    assert(strict_line(a_p@, a_j@, i as int)); assert(strict_line(b_p@, b_j@, i as int)); assert(incr(a_j@, as_, ae)); assert(incr(b_j@, bs, be));
@loop 1
invariant
    c_j.len() == old(c_j).len(), c_x.len() == old(c_x).len(), so <= nnz <= so + (a_pos - as_) + (b_pos - bs), as_ <= a_pos <= ae, bs <= b_pos <= be,
    merged::<I, T, T2, F>(op, a_j@, a_x@, as_, a_pos as int, b_j@, b_x@, bs, b_pos as int, c_j@, c_x@, so, nnz as int),
    below(a_j@, as_, a_pos as int, b_j@, b_pos as int, be), below(b_j@, bs, b_pos as int, a_j@, a_pos as int, ae),
    below(c_j@, so, nnz as int, b_j@, b_pos as int, be), below(c_j@, so, nnz as int, a_j@, a_pos as int, ae), incr(c_j@, so, nnz as int),
    forall|k: int| 0 <= k < nnz ==> (#[trigger] c_x[k]).nz(),
    forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] c_j[k]).iv() < nc,
    forall|k: int| 0 <= k < so ==> (#[trigger] c_j[k]) == sj[k], forall|k: int| 0 <= k < so ==> (#[trigger] c_x[k]) == sx[k],
decreases (ae - a_pos) + (be - b_pos)
@top 1
    let ghost gcj = c_j@; let ghost gcx = c_x@; let ghost bn = nnz as int; let ghost pp = a_pos as int; let ghost qq = b_pos as int; let ghost mut v0: Option<T2> = None;
@bot 1
    proof {
        let k0 = if a_pos > pp { a_j[pp].iv() } else { b_j[qq].iv() };
        merge_step::<I, T, T2, F>(op, a_j@, a_x@, as_, pp, a_pos as int, b_j@, b_x@, bs, qq, b_pos as int, gcj, gcx, so, bn, c_j@, c_x@, nnz as int, k0, v0.unwrap());
    }
@loop 2
invariant
    c_j.len() == old(c_j).len(), c_x.len() == old(c_x).len(), so <= nnz <= so + (a_pos - as_) + (b_pos - bs), as_ <= a_pos <= ae, bs <= b_pos <= be,
    merged::<I, T, T2, F>(op, a_j@, a_x@, as_, a_pos as int, b_j@, b_x@, bs, b_pos as int, c_j@, c_x@, so, nnz as int),
    below(a_j@, as_, a_pos as int, b_j@, b_pos as int, be), below(b_j@, bs, b_pos as int, a_j@, a_pos as int, ae),
    below(c_j@, so, nnz as int, b_j@, b_pos as int, be), below(c_j@, so, nnz as int, a_j@, a_pos as int, ae), incr(c_j@, so, nnz as int),
    forall|k: int| 0 <= k < nnz ==> (#[trigger] c_x[k]).nz(),
    forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] c_j[k]).iv() < nc,
    forall|k: int| 0 <= k < so ==> (#[trigger] c_j[k]) == sj[k], forall|k: int| 0 <= k < so ==> (#[trigger] c_x[k]) == sx[k],
    a_pos < ae ==> b_pos == be,
decreases ae - a_pos
@top 2
    let ghost gcj = c_j@; let ghost gcx = c_x@; let ghost bn = nnz as int; let ghost pp = a_pos as int; let ghost qq = b_pos as int; let ghost mut v0: Option<T2> = None;
@bot 2
    proof {
        let k0 = if a_pos > pp { a_j[pp].iv() } else { b_j[qq].iv() };
        merge_step::<I, T, T2, F>(op, a_j@, a_x@, as_, pp, a_pos as int, b_j@, b_x@, bs, qq, b_pos as int, gcj, gcx, so, bn, c_j@, c_x@, nnz as int, k0, v0.unwrap());
    }
@loop 3
invariant
    c_j.len() == old(c_j).len(), c_x.len() == old(c_x).len(), so <= nnz <= so + (a_pos - as_) + (b_pos - bs), as_ <= a_pos <= ae, bs <= b_pos <= be,
    merged::<I, T, T2, F>(op, a_j@, a_x@, as_, a_pos as int, b_j@, b_x@, bs, b_pos as int, c_j@, c_x@, so, nnz as int),
    below(a_j@, as_, a_pos as int, b_j@, b_pos as int, be), below(b_j@, bs, b_pos as int, a_j@, a_pos as int, ae),
    below(c_j@, so, nnz as int, b_j@, b_pos as int, be), below(c_j@, so, nnz as int, a_j@, a_pos as int, ae), incr(c_j@, so, nnz as int),
    forall|k: int| 0 <= k < nnz ==> (#[trigger] c_x[k]).nz(),
    forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] c_j[k]).iv() < nc,
    forall|k: int| 0 <= k < so ==> (#[trigger] c_j[k]) == sj[k], forall|k: int| 0 <= k < so ==> (#[trigger] c_x[k]) == sx[k],
    a_pos == ae,
decreases be - b_pos
@top 3
    let ghost gcj = c_j@; let ghost gcx = c_x@; let ghost bn = nnz as int; let ghost pp = a_pos as int; let ghost qq = b_pos as int; let ghost mut v0: Option<T2> = None;
@bot 3
    proof {
        let k0 = if a_pos > pp { a_j[pp].iv() } else { b_j[qq].iv() };
        merge_step::<I, T, T2, F>(op, a_j@, a_x@, as_, pp, a_pos as int, b_j@, b_x@, bs, qq, b_pos as int, gcj, gcx, so, bn, c_j@, c_x@, nnz as int, k0, v0.unwrap());
    }
@after op 0
    proof { v0 = Some(result); assert(opv::<T, T2, F>(op, a_x[a_pos as int].sv(), b_x[b_pos as int].sv(), result)); }
@after op 1
    proof { v0 = Some(result); assert(opv::<T, T2, F>(op, a_x[a_pos as int].sv(), C::zero(), result)); }
@after op 2
    proof { v0 = Some(result); assert(opv::<T, T2, F>(op, C::zero(), b_x[b_pos as int].sv(), result)); }
@after op 3
    proof { v0 = Some(result); assert(opv::<T, T2, F>(op, a_x[a_pos as int].sv(), C::zero(), result)); }
@after op 4
    proof { v0 = Some(result); assert(opv::<T, T2, F>(op, C::zero(), b_x[b_pos as int].sv(), result)); }
@bot 0
    proof {
        let n1 = i + 1;
        assert forall|r: int, c: int| 0 <= r < n1 && 0 <= c < nc implies
            binpos::<T, T2, F>(op, ent(a_p@, a_j@, a_x@, r, c), ent(b_p@, b_j@, b_x@, r, c), occl(a_p@, a_j@, r, c) || occl(b_p@, b_j@, r, c), #[trigger] vall(c_p@, c_j@, c_x@, r, c)) by {
            if r < i {
                assert(c_p[r] == sp[r] && c_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[i as int].iv());
                vals_ext(sj, sx, sp[r].iv(), sp[r + 1].iv(), c_j@, c_x@, 0, c);
                let z = vall(sp, sj, sx, r, c);
            } else { let z = vals(c_j@, c_x@, so, nnz as int, c); }
        }
        assert forall|r: int| 0 <= r < n1 implies #[trigger] strict_line(c_p@, c_j@, r) by {
            if r < i {
                assert(c_p[r] == sp[r] && c_p[r + 1] == sp[r + 1]);
                assert(sp[r + 1].iv() <= sp[i as int].iv());
                assert(strict_line(sp, sj, r));
            }
        }
    }
