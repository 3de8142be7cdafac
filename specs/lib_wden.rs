// ---- building lines from given values (from_dense): g(r, c) is the value at line r, minor index c --------------
pub open spec fn gcnt(g: spec_fn(int, int) -> C, r: int, m: int) -> int decreases m {
    if m <= 0 { 0 } else { gcnt(g, r, m - 1) + if g(r, m - 1) != C::zero() { 1int } else { 0 } }
}
pub open spec fn gtot(g: spec_fn(int, int) -> C, n: int, m: int) -> int decreases n {
    if n <= 0 { 0 } else { gtot(g, n - 1, m) + gcnt(g, n - 1, m) }
}
pub proof fn gcnt_mono(g: spec_fn(int, int) -> C, r: int, a: int, b: int)
    requires a <= b
    ensures 0 <= gcnt(g, r, a) <= gcnt(g, r, b) <= if b < 0 { 0 } else { b }, gcnt(g, r, b) - gcnt(g, r, a) <= b - (if a < 0 { 0 } else { a }) || b < 0
    decreases b
{
    if b > 0 { if a < b { gcnt_mono(g, r, a, b - 1); } else { gcnt_mono(g, r, a - 1, b - 1); } }
}
pub proof fn gtot_mono(g: spec_fn(int, int) -> C, a: int, b: int, m: int)
    requires a <= b
    ensures 0 <= gtot(g, a, m) <= gtot(g, b, m)
    decreases b
{
    if b > 0 { gcnt_mono(g, b - 1, m, m); if a < b { gtot_mono(g, a, b - 1, m); } else { gtot_mono(g, a - 1, b - 1, m); } }
}
/// [s, e) holds, in increasing order, the nonzero ones of the first m values of line r
pub open spec fn gline<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, r: int, j: Seq<I>, x: Seq<T>, s: int, e: int, m: int) -> bool {
    &&& e - s == gcnt(g, r, m) && 0 <= s && e <= j.len() && e <= x.len()
    &&& forall|k: int| s <= k < e ==> 0 <= (#[trigger] j[k]).iv() < m
    &&& forall|k: int| s <= k < e ==> (#[trigger] x[k]).sv() != C::zero()
    &&& strict_seg(j, s, e)
    &&& forall|c: int| 0 <= c < m ==> #[trigger] esum(j, x, s, e, c) == g(r, c)
}
pub proof fn gline_ext<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, r: int, j: Seq<I>, x: Seq<T>, s: int, e: int, m: int, j2: Seq<I>, x2: Seq<T>)
    requires gline(g, r, j, x, s, e, m), same_seg(j, x, s, e, j2, x2, 0), j2.len() >= e, x2.len() >= e
    ensures gline(g, r, j2, x2, s, e, m)
{
    assert forall|k: int| s <= k < e implies (#[trigger] j2[k]) == j[k] by {}
    assert forall|k: int| s <= k < e implies (#[trigger] x2[k]) == x[k] by { let z = j[k]; }
    assert forall|c: int| 0 <= c < m implies #[trigger] esum(j2, x2, s, e, c) == g(r, c) by { esum_ext(j, x, s, e, j2, x2, 0, c); }
}
pub proof fn gline_zero<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, r: int, j: Seq<I>, x: Seq<T>, s: int)
    requires 0 <= s <= j.len(), s <= x.len()
    ensures gline(g, r, j, x, s, s, 0)
{
}
pub proof fn gline_skip<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, r: int, j: Seq<I>, x: Seq<T>, s: int, e: int, m: int)
    requires gline(g, r, j, x, s, e, m), m >= 0, g(r, m) == C::zero()
    ensures gline(g, r, j, x, s, e, m + 1)
{
    assert forall|c: int| 0 <= c < m + 1 implies #[trigger] esum(j, x, s, e, c) == g(r, c) by {
        if c == m { occ_ex(j, s, e, c); esum_none(j, x, s, e, c); } }
}
pub proof fn gline_push<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, r: int, j: Seq<I>, x: Seq<T>, s: int, e: int, m: int, j2: Seq<I>, x2: Seq<T>)
    requires gline(g, r, j, x, s, e, m), m >= 0, same_seg(j, x, s, e, j2, x2, 0), j2.len() > e, x2.len() > e, j2[e].iv() == m, x2[e].sv() == g(r, m), g(r, m) != C::zero()
    ensures gline(g, r, j2, x2, s, e + 1, m + 1)
{
    gline_ext(g, r, j, x, s, e, m, j2, x2);
    gcnt_mono(g, r, m, m);
    assert forall|c: int| 0 <= c < m + 1 implies #[trigger] esum(j2, x2, s, e + 1, c) == g(r, c) by {
        if c == m { occ_ex(j2, s, e, c); esum_none(j2, x2, s, e, c); } else { let z = esum(j2, x2, s, e, c); } }
}
pub open spec fn glines<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, n: int, m: int, j: Seq<I>, x: Seq<T>) -> bool {
    forall|r: int| 0 <= r < n ==> #[trigger] glined(g, r, m, j, x)
}
pub open spec fn glined<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, r: int, m: int, j: Seq<I>, x: Seq<T>) -> bool { gline(g, r, j, x, gtot(g, r, m), gtot(g, r + 1, m), m) }
pub proof fn glines_ext<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, n: int, m: int, j: Seq<I>, x: Seq<T>, j2: Seq<I>, x2: Seq<T>)
    requires glines(g, n, m, j, x), j2.len() >= gtot(g, n, m), x2.len() >= gtot(g, n, m), same_seg(j, x, 0, gtot(g, n, m), j2, x2, 0)
    ensures glines(g, n, m, j2, x2)
{
    assert forall|r: int| 0 <= r < n implies #[trigger] glined(g, r, m, j2, x2) by {
        assert(glined(g, r, m, j, x)); gtot_mono(g, r + 1, n, m); gtot_mono(g, 0, r, m); 
        assert(same_seg(j, x, gtot(g, r, m), gtot(g, r + 1, m), j2, x2, 0));
        gline_ext(g, r, j, x, gtot(g, r, m), gtot(g, r + 1, m), m, j2, x2); }
}
pub proof fn glines_ok<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, n: int, m: int, p: Seq<I>, j: Seq<I>, x: Seq<T>)
    requires glines(g, n, m, j, x), n >= 0, p.len() >= n + 1, forall|r: int| 0 <= r <= n ==> (#[trigger] p[r]).iv() == gtot(g, r, m), gtot(g, n, m) <= isize::MAX,
        j.len() >= gtot(g, n, m), x.len() >= gtot(g, n, m)
    ensures wfx(n, m, p, j, x), strict_lines(n, p, j), forall|k: int| 0 <= k < p[n].iv() ==> (#[trigger] x[k]).sv() != C::zero(),
        forall|r: int, c: int| 0 <= r < n && 0 <= c < m ==> #[trigger] ent(p, j, x, r, c) == g(r, c),
{
    assert(p[0].iv() == gtot(g, 0, m));
    assert forall|i: int, k: int| #![trigger p[i], p[k]] 0 <= i <= k <= n implies p[i].iv() <= p[k].iv() by { gtot_mono(g, i, k, m); }
    assert forall|k: int| 0 <= k < p[n].iv() implies 0 <= (#[trigger] j[k]).iv() < m by { let r = line_of(n, p, k); assert(glined(g, r, m, j, x)); }
    assert forall|k: int| 0 <= k < p[n].iv() implies (#[trigger] x[k]).sv() != C::zero() by { let r = line_of(n, p, k); assert(glined(g, r, m, j, x)); }
    assert forall|r: int| 0 <= r < n implies #[trigger] strict_line(p, j, r) by { assert(glined(g, r, m, j, x)); assert(p[r + 1].iv() == gtot(g, r + 1, m)); }
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < m implies #[trigger] ent(p, j, x, r, c) == g(r, c) by { assert(glined(g, r, m, j, x)); assert(p[r + 1].iv() == gtot(g, r + 1, m)); }
}
/// the values of a dense matrix given as rows, and of its transpose
pub open spec fn dgr<T: Scalar>(a: Seq<Vec<T>>) -> spec_fn(int, int) -> C { |r: int, c: int| a[r][c].sv() }
pub open spec fn dgc<T: Scalar>(a: Seq<Vec<T>>) -> spec_fn(int, int) -> C { |c: int, r: int| a[r][c].sv() }
// ---- a diagonal -------------------------------------------------------------------------------------------------
pub proof fn diag_lines<I: Integer, T: Scalar>(n: int, p: Seq<I>, j: Seq<I>, x: Seq<T>)
    requires n >= 0, n <= isize::MAX, p.len() >= n + 1, j.len() >= n, x.len() >= n, forall|i: int| 0 <= i <= n ==> (#[trigger] p[i]).iv() == i, forall|i: int| 0 <= i < n ==> (#[trigger] j[i]).iv() == i
    ensures wfx(n, n, p, j, x), strict_lines(n, p, j), forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] ent(p, j, x, r, c) == if r == c { x[r].sv() } else { C::zero() }
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] ent(p, j, x, r, c) == if r == c { x[r].sv() } else { C::zero() } by {
        assert(p[r].iv() == r && p[r + 1].iv() == r + 1);
        assert(esum(j, x, r, r, c) == C::zero());
        assert(j[r + 1 - 1].iv() == r);
        assert(esum(j, x, r, r + 1, c) == esum(j, x, r, r + 1 - 1, c).add(if j[r + 1 - 1].iv() == c { x[r + 1 - 1].sv() } else { C::zero() }));
    }
}
