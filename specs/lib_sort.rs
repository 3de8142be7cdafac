// ---- stable sorting of (index, value) pairs -------------------------------------------------------------
pub open spec fn ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn pvals<I: Integer, T>(v: Seq<(I, T)>, n: int, c: int) -> Seq<T> decreases n {
    if n <= 0 { Seq::empty() } else if v[n - 1].0.iv() == c { pvals(v, n - 1, c).push(v[n - 1].1) } else { pvals(v, n - 1, c) }
}
pub proof fn vals_pv<I: Integer, T>(v: Seq<(I, T)>, j: Seq<I>, x: Seq<T>, s: int, n: int, c: int)
    requires forall|t: int| 0 <= t < n ==> (#[trigger] v[t]).0 == j[s + t] && v[t].1 == x[s + t]
    ensures vals(j, x, s, s + n, c) == pvals(v, n, c)
    decreases n
{
    if n > 0 { vals_pv(v, j, x, s, n - 1, c); let z = v[n - 1]; }
}
/// `[T]::sort_by` (std: a stable sort) for a comparator that compares the pairs' indices
#[verifier::external_body]
pub fn vp_sort_pairs<I: Integer, T, F: Fn(&(I, T), &(I, T)) -> Ordering>(v: &mut std::vec::Vec<(I, T)>, f: F)
    requires
        forall|a: (I, T), b: (I, T)| #[trigger] f.requires((&a, &b)),
        forall|a: (I, T), b: (I, T), o: Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == ord(a.0.iv(), b.0.iv()),
    ensures final(v).len() == old(v).len(),
        forall|t: int, u: int| #![trigger final(v)[t], final(v)[u]] 0 <= t <= u < final(v).len() ==> final(v)[t].0.iv() <= final(v)[u].0.iv(),
        forall|c: int| #[trigger] pvals(final(v)@, final(v).len() as int, c) == pvals(old(v)@, old(v).len() as int, c),
{ v.sort_by(f) }
