// ---- whole matrices ----------------------------------------------------------------------------------------
/// the two structures store the same entries at the same places
pub open spec fn same_store<I: Integer, T>(n: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, j2: Seq<I>, x2: Seq<T>) -> bool {
    &&& j2.len() >= p[n].iv() && x2.len() >= p[n].iv()
    &&& forall|k: int| 0 <= k < p[n].iv() ==> (#[trigger] j2[k]) == j[k]
    &&& forall|k: int| 0 <= k < p[n].iv() ==> (#[trigger] x2[k]) == x[k]
}
pub proof fn same_store_ok<I: Integer, T: Scalar>(n: int, m: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, j2: Seq<I>, x2: Seq<T>)
    requires wfx(n, m, p, j, x), same_store(n, p, j, x, j2, x2)
    ensures wfx(n, m, p, j2, x2),
        forall|r: int, c: int| 0 <= r < n ==> #[trigger] ent(p, j2, x2, r, c) == ent(p, j, x, r, c),
        forall|r: int, c: int| 0 <= r < n ==> #[trigger] vall(p, j2, x2, r, c) == vall(p, j, x, r, c),
        forall|r: int, c: int| 0 <= r < n ==> #[trigger] occl(p, j2, r, c) == occl(p, j, r, c),
        strict_lines(n, p, j2) == strict_lines(n, p, j), sorted_lines(n, p, j2) == sorted_lines(n, p, j), distinct_lines(n, p, j2) == distinct_lines(n, p, j),
{
    ptr_all(n, p);
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] ent(p, j2, x2, r, c) == ent(p, j, x, r, c) by {
        assert(p[r + 1].iv() <= p[n].iv()); esum_ext(j2, x2, p[r].iv(), p[r + 1].iv(), j, x, 0, c); }
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] vall(p, j2, x2, r, c) == vall(p, j, x, r, c) by {
        assert(p[r + 1].iv() <= p[n].iv()); vals_ext(j2, x2, p[r].iv(), p[r + 1].iv(), j, x, 0, c); }
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] occl(p, j2, r, c) == occl(p, j, r, c) by {
        assert(p[r + 1].iv() <= p[n].iv()); occ_ext(j2, p[r].iv(), p[r + 1].iv(), j, 0, c); }
    same_lines(n, p, j, j2);
    same_lines(n, p, j2, j);
}
pub proof fn same_lines<I: Integer>(n: int, p: Seq<I>, j: Seq<I>, j2: Seq<I>)
    requires is_ptr(n, p), forall|k: int| 0 <= k < p[n].iv() ==> (#[trigger] j2[k]) == j[k]
    ensures strict_lines(n, p, j) ==> strict_lines(n, p, j2), sorted_lines(n, p, j) ==> sorted_lines(n, p, j2), distinct_lines(n, p, j) ==> distinct_lines(n, p, j2)
{
    ptr_all(n, p);
    assert forall|r: int| 0 <= r < n && strict_lines(n, p, j) implies #[trigger] strict_line(p, j2, r) by { assert(strict_line(p, j, r)); assert(p[r + 1].iv() <= p[n].iv()); }
    assert forall|r: int| 0 <= r < n && sorted_lines(n, p, j) implies #[trigger] sorted_line(p, j2, r) by { assert(sorted_line(p, j, r)); assert(p[r + 1].iv() <= p[n].iv()); }
    assert forall|r: int| 0 <= r < n && distinct_lines(n, p, j) implies #[trigger] distinct_line(p, j2, r) by { assert(distinct_line(p, j, r)); assert(p[r + 1].iv() <= p[n].iv()); }
}
/// strictly increasing lines are sorted and free of duplicates
pub proof fn strict_more<I: Integer>(n: int, p: Seq<I>, j: Seq<I>)
    requires strict_lines(n, p, j)
    ensures sorted_lines(n, p, j), distinct_lines(n, p, j)
{
    assert forall|r: int| 0 <= r < n implies #[trigger] sorted_line(p, j, r) by { assert(strict_line(p, j, r));
        assert forall|k: int, l: int| #![trigger j[k], j[l]] p[r].iv() <= k <= l < p[r + 1].iv() implies j[k].iv() <= j[l].iv() by { } }
    assert forall|r: int| 0 <= r < n implies #[trigger] distinct_line(p, j, r) by { assert(strict_line(p, j, r)); }
}
