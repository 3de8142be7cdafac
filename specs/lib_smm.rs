// ---- the linked list of touched columns threaded through `next` (csr_matmat, csr_binop_csr_general) -----
pub open spec fn chain(next: Seq<isize>, head: isize, l: Seq<int>, n: int) -> bool {
    &&& next.len() == n && 0 <= n <= isize::MAX
    &&& forall|t: int| 0 <= t < l.len() ==> 0 <= #[trigger] l[t] < n
    &&& forall|t: int, u: int| #![trigger l[t], l[u]] 0 <= t < u < l.len() ==> l[t] != l[u]
    &&& forall|t: int| 0 <= t < l.len() ==> (#[trigger] next[l[t]]) == if t == 0 { -2int } else { l[t - 1] }
    &&& head == if l.len() == 0 { -2int } else { l[l.len() - 1] }
    &&& forall|k: int| 0 <= k < n && (#[trigger] next[k]) != -1 ==> l.contains(k)
    &&& l.len() == touched(next, n).len() && l.len() <= n
}
pub open spec fn touched(next: Seq<isize>, n: int) -> Set<int> { vstd::set_lib::set_int_range(0, n).filter(|k: int| next[k] != -1) }
proof fn touched_len(next: Seq<isize>, n: int)
    requires n >= 0
    ensures touched(next, n).len() <= n
{
    vstd::set_lib::lemma_int_range(0, n);
    vstd::set_lib::lemma_len_subset(touched(next, n), vstd::set_lib::set_int_range(0, n));
}
pub proof fn chain_empty(next: Seq<isize>, n: int)
    requires next.len() == n, 0 <= n <= isize::MAX, forall|k: int| 0 <= k < n ==> (#[trigger] next[k]) == -1
    ensures chain(next, -2isize, Seq::empty(), n)
{
    assert(touched(next, n) =~= Set::empty());
}
pub proof fn chain_push(next: Seq<isize>, head: isize, l: Seq<int>, n: int, k: int)
    requires chain(next, head, l, n), 0 <= k < n, next[k] == -1
    ensures chain(next.update(k, head), k as isize, l.push(k), n), l.len() + 1 <= n,
        touched(next.update(k, head), n) == touched(next, n).insert(k),
{
    let n2 = next.update(k, head); let l2 = l.push(k);
    assert forall|t: int| 0 <= t < l.len() implies #[trigger] l[t] != k by { assert(next[l[t]] != -1); }
    assert(touched(n2, n) =~= touched(next, n).insert(k));
    touched_len(n2, n);
    assert forall|t: int| 0 <= t < l2.len() implies (#[trigger] n2[l2[t]]) == if t == 0 { -2int } else { l2[t - 1] } by {
        if t < l.len() { let z = next[l[t]]; } }
    assert forall|q: int| 0 <= q < n && (#[trigger] n2[q]) != -1 implies l2.contains(q) by {
        if q == k { assert(l2[l.len() as int] == k); } else { assert(next[q] != -1); let t = choose|t: int| 0 <= t < l.len() && l[t] == q; assert(l2[t] == q); }
    }
}
pub proof fn chain_pop(next: Seq<isize>, head: isize, l: Seq<int>, n: int)
    requires chain(next, head, l, n), l.len() > 0
    ensures 0 <= head < n, next[head as int] != -1, chain(next.update(head as int, -1isize), next[head as int], l.drop_last(), n)
{
    let h = head as int; let n2 = next.update(h, -1isize); let l2 = l.drop_last();
    let zz = next[l[l.len() - 1]];
    assert(l[l.len() - 1] == h);
    assert forall|t: int| 0 <= t < l2.len() implies #[trigger] l[t] != h by { let z = l[l.len() - 1]; }
    assert(touched(n2, n) =~= touched(next, n).remove(h));
    assert(touched(next, n).contains(h));
    if l2.len() > 0 { let z = l[l2.len() - 1]; }
    assert forall|t: int| 0 <= t < l2.len() implies (#[trigger] n2[l2[t]]) == if t == 0 { -2int } else { l2[t - 1] } by { let z = next[l[t]]; }
    assert forall|q: int| 0 <= q < n && (#[trigger] n2[q]) != -1 implies l2.contains(q) by {
        assert(next[q] != -1); let t = choose|t: int| 0 <= t < l.len() && l[t] == q; assert(l2[t] == q);
    }
}
// ---- no position twice -----------------------------------------------------------------------------------
pub open spec fn distinct_seg<I: Integer>(j: Seq<I>, s: int, e: int) -> bool { forall|k: int, l: int| #![trigger j[k], j[l]] s <= k < l < e ==> j[k].iv() != j[l].iv() }
pub open spec fn distinct_line<I: Integer>(p: Seq<I>, j: Seq<I>, r: int) -> bool { distinct_seg(j, p[r].iv(), p[r + 1].iv()) }
pub open spec fn distinct_lines<I: Integer>(n: int, p: Seq<I>, j: Seq<I>) -> bool { forall|r: int| 0 <= r < n ==> #[trigger] distinct_line(p, j, r) }
// ---- product of two compressed matrices --------------------------------------------------------------------
/// sum over the left line's entries [s, e) of entry times the right matrix's value at (its index, k)
pub open spec fn mm<I: Integer, T: Scalar>(aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, s: int, e: int, k: int) -> C decreases e - s {
    if e <= s { C::zero() } else { mm(aj, ax, bp, bj, bx, s, e - 1, k).add(ax[e - 1].sv().mul(ent(bp, bj, bx, aj[e - 1].iv(), k))) }
}
/// sum over the middle index q in 0..m of left value times right value
pub open spec fn prod<I: Integer, T: Scalar>(aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, s: int, e: int, m: int, k: int) -> C decreases m {
    if m <= 0 { C::zero() } else { prod(aj, ax, bp, bj, bx, s, e, m - 1, k).add(esum(aj, ax, s, e, m - 1).mul(ent(bp, bj, bx, m - 1, k))) }
}
proof fn prod_step<I: Integer, T: Scalar>(aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, s: int, e: int, m: int, k: int)
    requires s < e
    ensures prod(aj, ax, bp, bj, bx, s, e, m, k) == prod(aj, ax, bp, bj, bx, s, e - 1, m, k).add(
        if 0 <= aj[e - 1].iv() < m { ax[e - 1].sv().mul(ent(bp, bj, bx, aj[e - 1].iv(), k)) } else { C::zero() })
    decreases m
{
    if m > 0 {
        prod_step(aj, ax, bp, bj, bx, s, e, m - 1, k);
        let f = ent(bp, bj, bx, m - 1, k);
        mul_distr(f, esum(aj, ax, s, e - 1, m - 1), if aj[e - 1].iv() == m - 1 { ax[e - 1].sv() } else { C::zero() });
        mul_zero(f);
    }
}
proof fn prod_empty<I: Integer, T: Scalar>(aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, s: int, e: int, m: int, k: int)
    requires e <= s
    ensures prod(aj, ax, bp, bj, bx, s, e, m, k) == C::zero()
    decreases m
{
    if m > 0 { prod_empty(aj, ax, bp, bj, bx, s, e, m - 1, k); mul_zero(ent(bp, bj, bx, m - 1, k)); }
}
pub proof fn mm_prod<I: Integer, T: Scalar>(aj: Seq<I>, ax: Seq<T>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, s: int, e: int, m: int, k: int)
    requires forall|q: int| s <= q < e ==> 0 <= (#[trigger] aj[q]).iv() < m
    ensures mm(aj, ax, bp, bj, bx, s, e, k) == prod(aj, ax, bp, bj, bx, s, e, m, k)
    decreases e - s
{
    if e <= s { prod_empty(aj, ax, bp, bj, bx, s, e, m, k); } else { mm_prod(aj, ax, bp, bj, bx, s, e - 1, m, k); prod_step(aj, ax, bp, bj, bx, s, e, m, k); let z = aj[e - 1]; }
}
/// column k is reached from the left entries [s, e)
pub open spec fn reach<I: Integer>(aj: Seq<I>, bp: Seq<I>, bj: Seq<I>, s: int, e: int, k: int) -> bool decreases e - s {
    if e <= s { false } else { reach(aj, bp, bj, s, e - 1, k) || occ(bj, bp[aj[e - 1].iv()].iv(), bp[aj[e - 1].iv() + 1].iv(), k) }
}
pub open spec fn rowset<I: Integer>(aj: Seq<I>, bp: Seq<I>, bj: Seq<I>, s: int, e: int, n: int) -> Set<int> {
    vstd::set_lib::set_int_range(0, n).filter(|k: int| reach(aj, bp, bj, s, e, k))
}
/// number of positions reached in the first r rows
pub open spec fn matcnt<I: Integer>(ap: Seq<I>, aj: Seq<I>, bp: Seq<I>, bj: Seq<I>, n: int, r: int) -> int decreases r {
    if r <= 0 { 0 } else { matcnt(ap, aj, bp, bj, n, r - 1) + rowset(aj, bp, bj, ap[r - 1].iv(), ap[r].iv(), n).len() }
}
pub proof fn matcnt_mono<I: Integer>(ap: Seq<I>, aj: Seq<I>, bp: Seq<I>, bj: Seq<I>, n: int, r: int, q: int)
    requires r <= q
    ensures 0 <= matcnt(ap, aj, bp, bj, n, r) <= matcnt(ap, aj, bp, bj, n, q)
    decreases q
{
    if q > 0 { if r < q { matcnt_mono(ap, aj, bp, bj, n, r, q - 1); } else { matcnt_mono(ap, aj, bp, bj, n, r - 1, q - 1); } }
}
pub open spec fn marked(mask: Seq<isize>, n: int, i: int) -> Set<int> { vstd::set_lib::set_int_range(0, n).filter(|k: int| mask[k] == i) }
pub proof fn marked_step(mask: Seq<isize>, n: int, i: isize, k: int)
    requires 0 <= k < n, mask.len() == n
    ensures marked(mask.update(k, i), n, i as int) == marked(mask, n, i as int).insert(k),
        marked(mask, n, i as int).contains(k) == (mask[k] == i), marked(mask.update(k, i), n, i as int).len() <= n,
{
    assert(marked(mask.update(k, i), n, i as int) =~= marked(mask, n, i as int).insert(k));
    vstd::set_lib::lemma_int_range(0, n);
    vstd::set_lib::lemma_len_subset(marked(mask.update(k, i), n, i as int), vstd::set_lib::set_int_range(0, n));
}
