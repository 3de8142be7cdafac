// ---- element-wise binary operations -------------------------------------------------------------------------
pub open spec fn opv<T: Scalar, T2, F: Fn(T, T) -> T2>(op: F, a: C, b: C, v: T2) -> bool {
    exists|x: T, y: T| x.sv() == a && y.sv() == b && #[trigger] op.ensures((x, y), v)
}
/// what may be stored (`w`) at a position whose values are a and b: the operator's result once if the
/// position is stored in an operand and the result is not zero, nothing otherwise
pub open spec fn binpos<T: Scalar, T2: Nonzero, F: Fn(T, T) -> T2>(op: F, a: C, b: C, uni: bool, w: Seq<T2>) -> bool {
    if uni { exists|v: T2| #[trigger] opv::<T, T2, F>(op, a, b, v) && w == (if v.nz() { seq![v] } else { Seq::empty() }) } else { w == Seq::<T2>::empty() }
}
pub open spec fn occl<I: Integer>(p: Seq<I>, j: Seq<I>, r: int, c: int) -> bool { occ(j, p[r].iv(), p[r + 1].iv(), c) }
pub open spec fn vall<I: Integer, T>(p: Seq<I>, j: Seq<I>, x: Seq<T>, r: int, c: int) -> Seq<T> { vals(j, x, p[r].iv(), p[r + 1].iv(), c) }
pub open spec fn binop_ok<I: Integer, T: Scalar, T2: Nonzero, F: Fn(T, T) -> T2>(op: F, n: int, nc: int,
    ap: Seq<I>, aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, cp: Seq<I>, cj: Seq<I>, cx: Seq<T2>) -> bool {
    forall|r: int, c: int| 0 <= r < n && 0 <= c < nc ==>
        binpos::<T, T2, F>(op, ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c), occl(ap, aj, r, c) || occl(bp, bj, r, c), #[trigger] vall(cp, cj, cx, r, c))
}
/// positions stored at most once
pub proof fn vals_distinct<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int)
    requires forall|c: int| (#[trigger] vals(j, x, s, e, c)).len() <= 1
    ensures distinct_seg(j, s, e)
{
    assert forall|k: int, l: int| #![trigger j[k], j[l]] s <= k < l < e implies j[k].iv() != j[l].iv() by {
        let c = j[k].iv();
        if c == j[l].iv() {
            vals_grow(j, x, s, l, e, c);
            vals_has(j, x, s, l, c); occ_ex(j, s, l, c);
            let z = vals(j, x, s, l + 1, c); vals_grow(j, x, s, l + 1, e, c);
            let y = vals(j, x, s, e, c);
        }
    }
}
pub proof fn vals_grow<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, m: int, e: int, c: int)
    requires m <= e
    ensures vals(j, x, s, m, c).len() <= vals(j, x, s, e, c).len()
    decreases e - m
{
    if m < e { vals_grow(j, x, s, m, e - 1, c); }
}
/// storing one more entry behind the segment
pub proof fn vals_store<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, j2: Seq<I>, x2: Seq<T>, c: int)
    requires s <= e, forall|k: int| s <= k < e ==> (#[trigger] j[k]) == j2[k], forall|k: int| s <= k < e ==> (#[trigger] x[k]) == x2[k]
    ensures vals(j2, x2, s, e + 1, c) == if j2[e].iv() == c { vals(j, x, s, e, c).push(x2[e]) } else { vals(j, x, s, e, c) }
{
    vals_ext(j, x, s, e, j2, x2, 0, c);
}
// ---- merging two strictly increasing lines ---------------------------------------------------------------
pub open spec fn below<I: Integer>(j: Seq<I>, s: int, e: int, k: Seq<I>, u: int, v: int) -> bool {
    forall|a: int, b: int| #![trigger j[a], k[b]] s <= a < e && u <= b < v ==> j[a].iv() < k[b].iv()
}
pub open spec fn incr<I: Integer>(j: Seq<I>, s: int, e: int) -> bool {
    forall|a: int, b: int| #![trigger j[a], j[b]] s <= a < b < e ==> j[a].iv() < j[b].iv()
}
pub open spec fn merged<I: Integer, T: Scalar, T2: Nonzero, F: Fn(T, T) -> T2>(op: F, aj: Seq<I>, ax: Seq<T>, s: int, p: int, bj: Seq<I>, bx: Seq<T>, t: int, q: int,
    cj: Seq<I>, cx: Seq<T2>, so: int, n: int) -> bool {
    forall|k: int| binpos::<T, T2, F>(op, esum(aj, ax, s, p, k), esum(bj, bx, t, q, k), occ(aj, s, p, k) || occ(bj, t, q, k), #[trigger] vals(cj, cx, so, n, k))
}
/// one merge step: index k0 of the next entry of a (when p2 > p) and/or of b (when q2 > q)
pub proof fn merge_step<I: Integer, T: Scalar, T2: Nonzero, F: Fn(T, T) -> T2>(op: F, aj: Seq<I>, ax: Seq<T>, s: int, p: int, p2: int, bj: Seq<I>, bx: Seq<T>, t: int, q: int, q2: int,
    cj: Seq<I>, cx: Seq<T2>, so: int, n: int, cj2: Seq<I>, cx2: Seq<T2>, n2: int, k0: int, v: T2)
    requires merged::<I, T, T2, F>(op, aj, ax, s, p, bj, bx, t, q, cj, cx, so, n),
        s <= p <= p2 <= p + 1, t <= q <= q2 <= q + 1, so <= n, p2 > p || q2 > q,
        p2 > p ==> aj[p].iv() == k0, q2 > q ==> bj[q].iv() == k0,
        forall|a: int| s <= a < p ==> (#[trigger] aj[a]).iv() != k0, forall|a: int| t <= a < q ==> (#[trigger] bj[a]).iv() != k0,
        opv::<T, T2, F>(op, if p2 > p { ax[p].sv() } else { C::zero() }, if q2 > q { bx[q].sv() } else { C::zero() }, v),
        forall|k: int| so <= k < n ==> (#[trigger] cj2[k]) == cj[k], forall|k: int| so <= k < n ==> (#[trigger] cx2[k]) == cx[k],
        n2 == if v.nz() { n + 1 } else { n },
        v.nz() ==> cj2[n].iv() == k0 && cx2[n] == v,
    ensures merged::<I, T, T2, F>(op, aj, ax, s, p2, bj, bx, t, q2, cj2, cx2, so, n2)
{
    assert forall|k: int| binpos::<T, T2, F>(op, esum(aj, ax, s, p2, k), esum(bj, bx, t, q2, k), occ(aj, s, p2, k) || occ(bj, t, q2, k), #[trigger] vals(cj2, cx2, so, n2, k)) by {
        let w = vals(cj, cx, so, n, k);
        assert(binpos::<T, T2, F>(op, esum(aj, ax, s, p, k), esum(bj, bx, t, q, k), occ(aj, s, p, k) || occ(bj, t, q, k), w));
        vals_ext(cj, cx, so, n, cj2, cx2, 0, k);
        if n2 > n { vals_store(cj, cx, so, n, cj2, cx2, k); }
        if k == k0 {
            occ_ex(aj, s, p, k); occ_ex(bj, t, q, k);
            esum_none(aj, ax, s, p, k); esum_none(bj, bx, t, q, k);
            assert(opv::<T, T2, F>(op, esum(aj, ax, s, p2, k), esum(bj, bx, t, q2, k), v));
            assert(vals(cj2, cx2, so, n2, k) == (if v.nz() { seq![v] } else { Seq::empty() }));
        } else {
            assert(esum(aj, ax, s, p2, k) == esum(aj, ax, s, p, k));
            assert(esum(bj, bx, t, q2, k) == esum(bj, bx, t, q, k));
        }
    }
}
// ---- what an element-wise operation stores, by a relation between operand values and result -----------------
pub open spec fn relpos<T2: Nonzero>(rel: spec_fn(C, C, T2) -> bool, a: C, b: C, uni: bool, w: Seq<T2>) -> bool {
    if uni { exists|v: T2| #[trigger] rel(a, b, v) && w == (if v.nz() { seq![v] } else { Seq::empty() }) } else { w == Seq::<T2>::empty() }
}
pub open spec fn rel_ok<I: Integer, T: Scalar, T2: Nonzero>(rel: spec_fn(C, C, T2) -> bool, n: int, nc: int,
    ap: Seq<I>, aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, cp: Seq<I>, cj: Seq<I>, cx: Seq<T2>) -> bool {
    forall|r: int, c: int| 0 <= r < n && 0 <= c < nc ==>
        relpos::<T2>(rel, ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c), occl(ap, aj, r, c) || occl(bp, bj, r, c), #[trigger] vall(cp, cj, cx, r, c))
}
pub open spec fn op_rel<T: Scalar, T2, F: Fn(T, T) -> T2>(op: F, rel: spec_fn(C, C, T2) -> bool) -> bool {
    forall|x: T, y: T, v: T2| #[trigger] op.ensures((x, y), v) ==> rel(x.sv(), y.sv(), v)
}
pub proof fn binop_rel<I: Integer, T: Scalar, T2: Nonzero, F: Fn(T, T) -> T2>(op: F, rel: spec_fn(C, C, T2) -> bool, n: int, nc: int,
    ap: Seq<I>, aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, cp: Seq<I>, cj: Seq<I>, cx: Seq<T2>)
    requires binop_ok::<I, T, T2, F>(op, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx), op_rel::<T, T2, F>(op, rel)
    ensures rel_ok::<I, T, T2>(rel, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx)
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < nc implies
        relpos::<T2>(rel, ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c), occl(ap, aj, r, c) || occl(bp, bj, r, c), #[trigger] vall(cp, cj, cx, r, c)) by {
        let w = vall(cp, cj, cx, r, c);
        assert(binpos::<T, T2, F>(op, ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c), occl(ap, aj, r, c) || occl(bp, bj, r, c), w));
    }
}
/// numeric results: value f(a, b) where an operand stores an entry, zero elsewhere; each position once
pub open spec fn num_ok<I: Integer, T: Scalar>(f: spec_fn(C, C) -> C, n: int, nc: int,
    ap: Seq<I>, aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, cp: Seq<I>, cj: Seq<I>, cx: Seq<T>) -> bool {
    forall|r: int, c: int| 0 <= r < n && 0 <= c < nc ==> #[trigger] ent(cp, cj, cx, r, c) ==
        if occl(ap, aj, r, c) || occl(bp, bj, r, c) { f(ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c)) } else { C::zero() }
}
pub open spec fn bool_ok<I: Integer, T: Scalar>(f: spec_fn(C, C) -> bool, n: int, nc: int,
    ap: Seq<I>, aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, cp: Seq<I>, cj: Seq<I>, cx: Seq<bool>) -> bool {
    forall|r: int, c: int| 0 <= r < n && 0 <= c < nc ==> #[trigger] vall(cp, cj, cx, r, c) ==
        if (occl(ap, aj, r, c) || occl(bp, bj, r, c)) && f(ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c)) { seq![true] } else { Seq::<bool>::empty() }
}
pub open spec fn num_rel<T: Scalar>(f: spec_fn(C, C) -> C) -> spec_fn(C, C, T) -> bool { |a: C, b: C, v: T| v.sv() == f(a, b) }
pub open spec fn bool_rel(f: spec_fn(C, C) -> bool) -> spec_fn(C, C, bool) -> bool { |a: C, b: C, v: bool| v == f(a, b) }
pub proof fn rel_num<I: Integer, T: Scalar>(f: spec_fn(C, C) -> C, n: int, nc: int,
    ap: Seq<I>, aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, cp: Seq<I>, cj: Seq<I>, cx: Seq<T>)
    requires rel_ok::<I, T, T>(num_rel::<T>(f), n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx)
    ensures num_ok::<I, T>(f, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx)
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < nc implies #[trigger] ent(cp, cj, cx, r, c) ==
        if occl(ap, aj, r, c) || occl(bp, bj, r, c) { f(ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c)) } else { C::zero() } by {
        let w = vall(cp, cj, cx, r, c);
        vals_sum(cj, cx, cp[r].iv(), cp[r + 1].iv(), c);
        ssum_small(w);
    }
}
pub proof fn ssum_small<T: Scalar>(w: Seq<T>)
    ensures w.len() == 0 ==> ssum(w) == C::zero(), w.len() == 1 ==> ssum(w) == w[0].sv()
{
    if w.len() == 1 { let z = ssum(w.drop_last()); assert(w.drop_last().len() == 0); assert(ssum(w.drop_last()) == C::zero()); }
}
pub proof fn rel_bool<I: Integer, T: Scalar>(f: spec_fn(C, C) -> bool, n: int, nc: int,
    ap: Seq<I>, aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, cp: Seq<I>, cj: Seq<I>, cx: Seq<bool>)
    requires rel_ok::<I, T, bool>(bool_rel(f), n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx)
    ensures bool_ok::<I, T>(f, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx)
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < nc implies #[trigger] vall(cp, cj, cx, r, c) ==
        if (occl(ap, aj, r, c) || occl(bp, bj, r, c)) && f(ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c)) { seq![true] } else { Seq::<bool>::empty() } by {
        let w = vall(cp, cj, cx, r, c);
    }
}
/// an element-wise result stores every position at most once
pub proof fn rel_distinct<I: Integer, T: Scalar, T2: Nonzero>(rel: spec_fn(C, C, T2) -> bool, n: int, nc: int,
    ap: Seq<I>, aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, cp: Seq<I>, cj: Seq<I>, cx: Seq<T2>)
    requires rel_ok::<I, T, T2>(rel, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx), wf(n, nc, cp, cj)
    ensures distinct_lines(n, cp, cj)
{
    ptr_all(n, cp);
    assert forall|r: int| 0 <= r < n implies #[trigger] distinct_line(cp, cj, r) by {
        let s = cp[r].iv(); let e = cp[r + 1].iv();
        assert(e <= cp[n].iv());
        assert forall|c: int| (#[trigger] vals(cj, cx, s, e, c)).len() <= 1 by {
            if 0 <= c < nc { let w = vall(cp, cj, cx, r, c); }
            else { vals_has(cj, cx, s, e, c); occ_ex(cj, s, e, c); if occ(cj, s, e, c) { let k = choose|k: int| s <= k < e && (#[trigger] cj[k]).iv() == c; } }
        }
        vals_distinct(cj, cx, s, e);
    }
}
