// ---- segments of stored entries ----------------------------------------------------------------------
pub open spec fn same_seg<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, j2: Seq<I>, x2: Seq<T>, d: int) -> bool {
    forall|k: int| s <= k < e ==> (#[trigger] j[k]) == j2[k + d] && x[k] == x2[k + d]
}
pub proof fn esum_ext<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, j2: Seq<I>, x2: Seq<T>, d: int, c: int)
    requires same_seg(j, x, s, e, j2, x2, d)
    ensures esum(j, x, s, e, c) == esum(j2, x2, s + d, e + d, c)
    decreases e - s
{
    if s < e { esum_ext(j, x, s, e - 1, j2, x2, d, c); let z = j[e - 1]; }
}
pub proof fn esum_split<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, m: int, e: int, c: int)
    requires s <= m <= e
    ensures esum(j, x, s, e, c) == esum(j, x, s, m, c).add(esum(j, x, m, e, c))
    decreases e - m
{
    if m < e { esum_split(j, x, s, m, e - 1, c); }
}
/// c occurs as minor index in [s, e)
pub open spec fn occ<I: Integer>(j: Seq<I>, s: int, e: int, c: int) -> bool decreases e - s {
    if e <= s { false } else { occ(j, s, e - 1, c) || j[e - 1].iv() == c }
}
pub proof fn occ_ext<I: Integer>(j: Seq<I>, s: int, e: int, j2: Seq<I>, d: int, c: int)
    requires forall|k: int| s <= k < e ==> (#[trigger] j[k]) == j2[k + d]
    ensures occ(j, s, e, c) == occ(j2, s + d, e + d, c)
    decreases e - s
{
    if s < e { occ_ext(j, s, e - 1, j2, d, c); let z = j[e - 1]; }
}
pub proof fn occ_ex<I: Integer>(j: Seq<I>, s: int, e: int, c: int)
    ensures occ(j, s, e, c) == (exists|k: int| s <= k < e && (#[trigger] j[k]).iv() == c)
    decreases e - s
{
    if s < e { occ_ex(j, s, e - 1, c); let z = j[e - 1]; }
}
/// an index that does not occur has value zero
pub proof fn esum_none<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int)
    requires !occ(j, s, e, c)
    ensures esum(j, x, s, e, c) == C::zero()
    decreases e - s
{
    if s < e { esum_none(j, x, s, e - 1, c); }
}
/// in a line without duplicates the value at j[k] is the entry at k
pub proof fn esum_one<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, k: int)
    requires s <= k < e, forall|l: int| s <= l < e && l != k ==> (#[trigger] j[l]).iv() != j[k].iv()
    ensures esum(j, x, s, e, j[k].iv()) == x[k].sv()
    decreases e - s
{
    let c = j[k].iv();
    if k < e - 1 { esum_one(j, x, s, e - 1, k); let z = j[e - 1]; }
    else { occ_ex(j, s, e - 1, c); esum_none(j, x, s, e - 1, c); }
}
/// all lines r < n of (p, j, x) keep their value when the arrays agree below p[n]
pub proof fn ents_ext<I: Integer, T: Scalar>(n: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, j2: Seq<I>, x2: Seq<T>)
    requires is_ptr(n, p), same_seg(j, x, 0, p[n].iv(), j2, x2, 0)
    ensures forall|r: int, c: int| 0 <= r < n ==> #[trigger] ent(p, j, x, r, c) == ent(p, j2, x2, r, c)
{
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] ent(p, j, x, r, c) == ent(p, j2, x2, r, c) by {
        assert(p[r].iv() <= p[r + 1].iv() <= p[n].iv());
        esum_ext(j, x, p[r].iv(), p[r + 1].iv(), j2, x2, 0, c);
    }
}
// ---- the values stored at one minor index, in storage order --------------------------------------------
pub open spec fn vals<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int) -> Seq<T> decreases e - s {
    if e <= s { Seq::empty() } else if j[e - 1].iv() == c { vals(j, x, s, e - 1, c).push(x[e - 1]) } else { vals(j, x, s, e - 1, c) }
}
pub open spec fn ssum<T: Scalar>(v: Seq<T>) -> C decreases v.len() {
    if v.len() == 0 { C::zero() } else { ssum(v.drop_last()).add(v.last().sv()) }
}
pub proof fn vals_sum<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int)
    ensures esum(j, x, s, e, c) == ssum(vals(j, x, s, e, c))
    decreases e - s
{
    if s < e {
        vals_sum(j, x, s, e - 1, c);
        if j[e - 1].iv() == c { assert(vals(j, x, s, e, c).drop_last() == vals(j, x, s, e - 1, c)); }
    }
}
pub proof fn vals_ext<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, j2: Seq<I>, x2: Seq<T>, d: int, c: int)
    requires same_seg(j, x, s, e, j2, x2, d)
    ensures vals(j, x, s, e, c) == vals(j2, x2, s + d, e + d, c)
    decreases e - s
{
    if s < e { vals_ext(j, x, s, e - 1, j2, x2, d, c); let z = j[e - 1]; }
}
pub proof fn vals_has<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int)
    ensures occ(j, s, e, c) == (vals(j, x, s, e, c).len() > 0)
    decreases e - s
{
    if s < e { vals_has(j, x, s, e - 1, c); }
}
// ---- the nonzero entries among the first n, by position -----------------------------------------------
pub open spec fn nzp<T: Scalar>(x: Seq<T>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if x[n - 1].sv() != C::zero() { nzp(x, n - 1).push(n - 1) } else { nzp(x, n - 1) }
}
pub proof fn nzp_mono<T: Scalar>(x: Seq<T>, n: int, m: int)
    requires n <= m
    ensures nzp(x, n).len() <= nzp(x, m).len(), forall|t: int| 0 <= t < nzp(x, n).len() ==> nzp(x, n)[t] == #[trigger] nzp(x, m)[t], nzp(x, n).len() <= if n < 0 { 0 } else { n }
    decreases m
{
    if n < m && m > 0 { nzp_mono(x, n, m - 1); } else { nzp_len(x, n); }
}
proof fn nzp_len<T: Scalar>(x: Seq<T>, n: int) ensures nzp(x, n).len() <= if n < 0 { 0 } else { n } decreases n { if n > 0 { nzp_len(x, n - 1); } }
pub proof fn nzp_in<T: Scalar>(x: Seq<T>, n: int)
    ensures forall|t: int| 0 <= t < nzp(x, n).len() ==> 0 <= #[trigger] nzp(x, n)[t] < n && x[nzp(x, n)[t]].sv() != C::zero(),
        forall|t: int, u: int| #![trigger nzp(x, n)[t], nzp(x, n)[u]] 0 <= t < u < nzp(x, n).len() ==> nzp(x, n)[t] < nzp(x, n)[u],
    decreases n
{
    if n > 0 {
        nzp_in(x, n - 1);
        assert forall|t: int| 0 <= t < nzp(x, n).len() implies 0 <= #[trigger] nzp(x, n)[t] < n && x[nzp(x, n)[t]].sv() != C::zero() by { if t < nzp(x, n - 1).len() { let z = nzp(x, n - 1)[t]; } }
        assert forall|t: int, u: int| #![trigger nzp(x, n)[t], nzp(x, n)[u]] 0 <= t < u < nzp(x, n).len() implies nzp(x, n)[t] < nzp(x, n)[u] by {
            let z = nzp(x, n - 1)[t]; let y = nzp(x, n - 1)[u]; }
    }
}
/// positions kept from [lo, n) lie in [lo, n)
pub proof fn nzp_seg<T: Scalar>(x: Seq<T>, lo: int, n: int)
    requires 0 <= lo <= n
    ensures forall|t: int| nzp(x, lo).len() <= t < nzp(x, n).len() ==> lo <= #[trigger] nzp(x, n)[t] < n
    decreases n
{
    if lo < n {
        nzp_seg(x, lo, n - 1); nzp_mono(x, lo, n - 1);
        assert forall|t: int| nzp(x, lo).len() <= t < nzp(x, n).len() implies lo <= #[trigger] nzp(x, n)[t] < n by { if t < nzp(x, n - 1).len() { let z = nzp(x, n - 1)[t]; } }
    }
}
/// the structure keeps exactly the nonzero entries, in order
pub open spec fn compacted<I: Integer, T: Scalar>(n: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, p2: Seq<I>, j2: Seq<I>, x2: Seq<T>) -> bool {
    &&& p2.len() == p.len()
    &&& forall|r: int| 0 <= r <= n ==> (#[trigger] p2[r]).iv() == nzp(x, p[r].iv()).len()
    &&& forall|t: int| 0 <= t < nzp(x, p[n].iv()).len() ==> #[trigger] j2[t] == j[nzp(x, p[n].iv())[t]]
    &&& forall|t: int| 0 <= t < nzp(x, p[n].iv()).len() ==> #[trigger] x2[t] == x[nzp(x, p[n].iv())[t]]
}
proof fn compacted_esum<I: Integer, T: Scalar>(lo: int, m: int, hi: int, j: Seq<I>, x: Seq<T>, j2: Seq<I>, x2: Seq<T>, c: int)
    requires 0 <= lo <= m <= hi,
        forall|t: int| 0 <= t < nzp(x, hi).len() ==> #[trigger] j2[t] == j[nzp(x, hi)[t]],
        forall|t: int| 0 <= t < nzp(x, hi).len() ==> #[trigger] x2[t] == x[nzp(x, hi)[t]],
    ensures esum(j2, x2, nzp(x, lo).len() as int, nzp(x, m).len() as int, c) == esum(j, x, lo, m, c)
    decreases m - lo
{
    if lo < m {
        compacted_esum(lo, m - 1, hi, j, x, j2, x2, c);
        nzp_mono(x, lo, m - 1); nzp_mono(x, m, hi);
        if x[m - 1].sv() != C::zero() {
            let t = nzp(x, m - 1).len() as int;
            assert(nzp(x, m)[t] == m - 1);
            assert(nzp(x, hi)[t] == m - 1);
            let z = j2[t]; let y = x2[t];
        }
    }
}
pub proof fn compacted_ok<I: Integer, T: Scalar>(n: int, m: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, p2: Seq<I>, j2: Seq<I>, x2: Seq<T>)
    requires wfx(n, m, p, j, x), compacted(n, p, j, x, p2, j2, x2), j2.len() >= p2[n].iv(), x2.len() >= p2[n].iv()
    ensures wfx(n, m, p2, j2, x2),
        forall|r: int, c: int| 0 <= r < n ==> #[trigger] ent(p2, j2, x2, r, c) == ent(p, j, x, r, c),
        forall|r: int| 0 <= r < n && sorted_line(p, j, r) ==> #[trigger] sorted_line(p2, j2, r),
        forall|r: int| 0 <= r < n && strict_line(p, j, r) ==> #[trigger] strict_line(p2, j2, r),
        forall|k: int| 0 <= k < p2[n].iv() ==> (#[trigger] x2[k]).sv() != C::zero(),
        p2[n].iv() <= p[n].iv(),
{
    ptr_all(n, p);
    nzp_in(x, p[n].iv());
    nzp_mono(x, p[n].iv(), p[n].iv());
    assert(p2[0].iv() == 0) by { assert(p2[0].iv() == nzp(x, p[0].iv()).len()); }
    assert forall|i: int, k: int| #![trigger p2[i], p2[k]] 0 <= i <= k <= n implies p2[i].iv() <= p2[k].iv() by { nzp_mono(x, p[i].iv(), p[k].iv()); }
    assert forall|k: int| 0 <= k < p2[n].iv() implies 0 <= (#[trigger] j2[k]).iv() < m by { let z = nzp(x, p[n].iv())[k]; let y = j[z]; }
    assert forall|k: int| 0 <= k < p2[n].iv() implies (#[trigger] x2[k]).sv() != C::zero() by { let z = nzp(x, p[n].iv())[k]; }
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] ent(p2, j2, x2, r, c) == ent(p, j, x, r, c) by {
        let z = p2[r]; let y = p2[r + 1];
        assert(p[r].iv() <= p[r + 1].iv());
        compacted_esum(p[r].iv(), p[r + 1].iv(), p[n].iv(), j, x, j2, x2, c);
    }
    assert forall|r: int| 0 <= r < n && sorted_line(p, j, r) implies #[trigger] sorted_line(p2, j2, r) by {
        assert(p2[r + 1].iv() == nzp(x, p[r + 1].iv()).len());
        assert(p[r].iv() <= p[r + 1].iv());
        nzp_seg(x, p[r].iv(), p[r + 1].iv()); nzp_mono(x, p[r + 1].iv(), p[n].iv());
        assert forall|k: int, l: int| #![trigger j2[k], j2[l]] p2[r].iv() <= k <= l < p2[r + 1].iv() implies j2[k].iv() <= j2[l].iv() by {
            let z = nzp(x, p[n].iv())[k]; let y = nzp(x, p[n].iv())[l];
            assert(j[z].iv() <= j[y].iv());
        }
    }
    assert forall|r: int| 0 <= r < n && strict_line(p, j, r) implies #[trigger] strict_line(p2, j2, r) by {
        assert(p2[r + 1].iv() == nzp(x, p[r + 1].iv()).len());
        assert(p[r].iv() <= p[r + 1].iv());
        nzp_seg(x, p[r].iv(), p[r + 1].iv()); nzp_mono(x, p[r + 1].iv(), p[n].iv());
        assert forall|k: int, l: int| #![trigger j2[k], j2[l]] p2[r].iv() <= k < l < p2[r + 1].iv() implies j2[k].iv() < j2[l].iv() by {
            let z = nzp(x, p[n].iv())[k]; let y = nzp(x, p[n].iv())[l];
            assert(j[z].iv() < j[y].iv());
        }
    }
}
