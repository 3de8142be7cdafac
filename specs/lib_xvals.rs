// ---- regrouping keeps every entry's value and the order at each position ---------------------------------------
proof fn grouped_vals_n<I: Integer, T>(j: Seq<I>, x: Seq<T>, nnz: int, m: int, ap: Seq<I>, nr: int, bi: Seq<I>, bx: Seq<T>, r: int, c: int, n: int)
    requires grouped_r(j, nnz, m, ap, nr, bi), grouped_v(j, nnz, m, x, bx), is_ptr(nr, ap), nnz == ap[nr].iv(),
        0 <= c < m, 0 <= r < nr, 0 <= n <= nnz
    ensures vals(bi, bx, off(j, nnz, c), off(j, nnz, c) + pick(j, n, c).len(), r) ==
        vals(j, x, ap[r].iv(), if n < ap[r].iv() { ap[r].iv() } else if n > ap[r + 1].iv() { ap[r + 1].iv() } else { n }, c)
    decreases n
{
    if n > 0 {
        grouped_vals_n(j, x, nnz, m, ap, nr, bi, bx, r, c, n - 1);
        if j[n - 1].iv() == c {
            pick_next(j, n - 1, nnz, c);
            let t = pick(j, n - 1, c).len() as int;
            let z = pick(j, nnz, c)[t];
            assert(z == n - 1);
            let q = bi[off(j, nnz, c) + t].iv();
            assert(0 <= q < nr && inline(ap, q, n - 1));
            if inline(ap, r, n - 1) { inline_order(nr, ap, r, n - 1, q, n - 1); }
        }
    }
}
pub proof fn grouped_vals<I: Integer, T>(j: Seq<I>, x: Seq<T>, nnz: int, m: int, ap: Seq<I>, nr: int, bp: Seq<I>, bi: Seq<I>, bx: Seq<T>)
    requires grouped_p(j, nnz, m, bp), grouped_r(j, nnz, m, ap, nr, bi), grouped_v(j, nnz, m, x, bx), is_ptr(nr, ap), nnz == ap[nr].iv(),
    ensures forall|r: int, c: int| 0 <= c < m && 0 <= r < nr ==> #[trigger] vall(bp, bi, bx, c, r) == vall(ap, j, x, r, c)
{
    assert forall|r: int, c: int| 0 <= c < m && 0 <= r < nr implies #[trigger] vall(bp, bi, bx, c, r) == vall(ap, j, x, r, c) by {
        assert(bp[c + 1].iv() == off(j, nnz, c + 1));
        assert(bp[c].iv() == off(j, nnz, c));
        assert(0 <= ap[r].iv() <= ap[r + 1].iv() <= nnz);
        grouped_vals_n(j, x, nnz, m, ap, nr, bi, bx, r, c, nnz);
    }
}
// ---- lines written out as triplets -----------------------------------------------------------------------------
/// ri names the line of every storage position
pub open spec fn expanded<I: Integer>(n: int, p: Seq<I>, ri: Seq<I>) -> bool {
    ri.len() >= p[n].iv() && forall|i: int, k: int| 0 <= i < n && #[trigger] inline(p, i, k) ==> ri[k].iv() == i
}
proof fn expanded_csum_n<I: Integer, T: Scalar>(n: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, ri: Seq<I>, ci: Seq<I>, v: Seq<T>, r: int, c: int, k: int)
    requires is_ptr(n, p), expanded(n, p, ri), 0 <= r < n, 0 <= k <= p[n].iv(),
        forall|l: int| 0 <= l < p[n].iv() ==> (#[trigger] ci[l]) == j[l], forall|l: int| 0 <= l < p[n].iv() ==> (#[trigger] v[l]) == x[l],
    ensures csum(ri, ci, v, k, r, c) == esum(j, x, p[r].iv(), if k < p[r].iv() { p[r].iv() } else if k > p[r + 1].iv() { p[r + 1].iv() } else { k }, c),
        csum(ci, ri, v, k, c, r) == csum(ri, ci, v, k, r, c)
    decreases k
{
    if k > 0 {
        expanded_csum_n(n, p, j, x, ri, ci, v, r, c, k - 1);
        let q = line_of(n, p, k - 1);
        assert(inline(p, q, k - 1));
        let z = ci[k - 1]; let y = v[k - 1];
        if inline(p, r, k - 1) { inline_order(n, p, r, k - 1, q, k - 1); }
    }
}
pub proof fn expanded_csum<I: Integer, T: Scalar>(n: int, m: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, ri: Seq<I>, ci: Seq<I>, v: Seq<T>)
    requires wfx(n, m, p, j, x), expanded(n, p, ri), ci.len() == p[n].iv(), v.len() == p[n].iv(),
        forall|l: int| 0 <= l < p[n].iv() ==> (#[trigger] ci[l]) == j[l], forall|l: int| 0 <= l < p[n].iv() ==> (#[trigger] v[l]) == x[l],
    ensures forall|r: int, c: int| 0 <= r < n ==> #[trigger] csum(ri, ci, v, p[n].iv(), r, c) == ent(p, j, x, r, c),
        forall|r: int, c: int| 0 <= r < n ==> #[trigger] csum(ci, ri, v, p[n].iv(), c, r) == ent(p, j, x, r, c),
        forall|k: int| 0 <= k < p[n].iv() ==> 0 <= (#[trigger] ri[k]).iv() < n,
        forall|k: int| 0 <= k < p[n].iv() ==> 0 <= (#[trigger] ci[k]).iv() < m,
{
    ptr_all(n, p);
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] csum(ri, ci, v, p[n].iv(), r, c) == ent(p, j, x, r, c) by {
        expanded_csum_n(n, p, j, x, ri, ci, v, r, c, p[n].iv()); assert(p[r + 1].iv() <= p[n].iv()); }
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] csum(ci, ri, v, p[n].iv(), c, r) == ent(p, j, x, r, c) by {
        expanded_csum_n(n, p, j, x, ri, ci, v, r, c, p[n].iv()); assert(p[r + 1].iv() <= p[n].iv()); }
    assert forall|k: int| 0 <= k < p[n].iv() implies 0 <= (#[trigger] ri[k]).iv() < n by { let q = line_of(n, p, k); }
    assert forall|k: int| 0 <= k < p[n].iv() implies 0 <= (#[trigger] ci[k]).iv() < m by { let z = j[k]; }
}
// ---- sums and differences ------------------------------------------------------------------------------------
pub proof fn ent_none<I: Integer, T: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<T>, r: int, c: int)
    requires !occl(p, j, r, c)
    ensures ent(p, j, x, r, c) == C::zero()
{
    esum_none(j, x, p[r].iv(), p[r + 1].iv(), c);
}
pub proof fn num_all<I: Integer, T: Scalar>(f: spec_fn(C, C) -> C, n: int, nc: int,
    ap: Seq<I>, aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, cp: Seq<I>, cj: Seq<I>, cx: Seq<T>)
    requires num_ok::<I, T>(f, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx), f(C::zero(), C::zero()) == C::zero()
    ensures forall|r: int, c: int| 0 <= r < n && 0 <= c < nc ==> #[trigger] ent(cp, cj, cx, r, c) == f(ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c))
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < nc implies #[trigger] ent(cp, cj, cx, r, c) == f(ent(ap, aj, ax, r, c), ent(bp, bj, bx, r, c)) by {
        if !(occl(ap, aj, r, c) || occl(bp, bj, r, c)) { ent_none(ap, aj, ax, r, c); ent_none(bp, bj, bx, r, c); }
    }
}
// ---- looking an entry up ---------------------------------------------------------------------------------------
pub proof fn vals_first<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, k: int, e: int, c: int)
    requires s <= k < e, !occ(j, s, k, c), j[k].iv() == c
    ensures occ(j, s, e, c), vals(j, x, s, e, c).len() > 0, vals(j, x, s, e, c)[0] == x[k]
    decreases e - s
{
    if e - 1 > k { vals_first(j, x, s, k, e - 1, c); }
    else { vals_has(j, x, s, k, c); assert(vals(j, x, s, k, c).len() == 0); }
}
pub proof fn esum_dist<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int, k: int)
    requires s <= k < e, distinct_seg(j, s, e), j[k].iv() == c
    ensures esum(j, x, s, e, c) == x[k].sv()
    decreases e - s
{
    if e - 1 > k { let z = j[e - 1]; esum_dist(j, x, s, e - 1, c, k); }
    else { occ_ex(j, s, k, c); if occ(j, s, k, c) { let l = choose|l: int| s <= l < k && (#[trigger] j[l]).iv() == c; } esum_none(j, x, s, k, c); }
}
/// all indices 0, 1, ..., n - 1
pub open spec fn iota<I: Integer>(n: int) -> Seq<I> { Seq::new(n as nat, |t: int| choose|v: I| v.iv() == t) }
pub proof fn iota_is<I: Integer>(n: int, l: Seq<I>)
    requires l.len() == n, forall|t: int| 0 <= t < n ==> (#[trigger] l[t]).iv() == t
    ensures l == iota::<I>(n)
{
    assert forall|t: int| 0 <= t < n implies l[t] == iota::<I>(n)[t] by {
        let z = l[t]; let v = choose|v: I| v.iv() == t; assert(v.iv() == t); z.law_inj(v); }
    assert(l =~= iota::<I>(n));
}
