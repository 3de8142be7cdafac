// ---- dictionaries of keys ----------------------------------------------------------------------------------------------
/// a pair of indices is hashed and compared as a key (assumed of the index types' Hash and Eq)
#[verifier::external_body]
pub broadcast proof fn hash_keys<I: Integer + core::hash::Hash>() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<(I, I)>() { unimplemented!() }
pub open spec fn dok_has<I: Integer, T>(m: Map<(I, I), T>, r: int, c: int) -> bool { exists|k: (I, I)| #[trigger] m.contains_key(k) && k.0.iv() == r && k.1.iv() == c }
/// the value at (r, c): what is stored under that key, zero if nothing is
pub open spec fn dok_at<I: Integer, T: Scalar>(m: Map<(I, I), T>, r: int, c: int) -> C {
    if dok_has(m, r, c) { m[choose|k: (I, I)| #[trigger] m.contains_key(k) && k.0.iv() == r && k.1.iv() == c].sv() } else { C::zero() }
}
/// keys inside the dimensions, no zeros stored
pub open spec fn dok_ok<I: Integer, T: Scalar>(nr: int, nc: int, m: Map<(I, I), T>) -> bool {
    &&& forall|k: (I, I)| #[trigger] m.contains_key(k) ==> 0 <= k.0.iv() < nr && 0 <= k.1.iv() < nc
    &&& forall|k: (I, I)| #[trigger] m.contains_key(k) ==> m[k].sv() != C::zero()
}
pub proof fn dok_key<I: Integer, T: Scalar>(m: Map<(I, I), T>, i: I, j: I)
    ensures dok_has(m, i.iv(), j.iv()) == m.contains_key((i, j)), dok_at(m, i.iv(), j.iv()) == if m.contains_key((i, j)) { m[(i, j)].sv() } else { C::zero() }
{
    if m.contains_key((i, j)) { assert(dok_has(m, i.iv(), j.iv())); }
    if dok_has(m, i.iv(), j.iv()) {
        let k = choose|k: (I, I)| #[trigger] m.contains_key(k) && k.0.iv() == i.iv() && k.1.iv() == j.iv();
        k.0.law_inj(i); k.1.law_inj(j);
        assert(k == (i, j));
    }
}
/// writing v at (i, j), zero meaning nothing
pub open spec fn dok_set<I: Integer, T: Scalar>(m: Map<(I, I), T>, i: I, j: I, v: T) -> Map<(I, I), T> { if v.sv() == C::zero() { m.remove((i, j)) } else { m.insert((i, j), v) } }
pub proof fn dok_set_at<I: Integer, T: Scalar>(nr: int, nc: int, m: Map<(I, I), T>, i: I, j: I, v: T)
    requires dok_ok(nr, nc, m), 0 <= i.iv() < nr, 0 <= j.iv() < nc
    ensures dok_ok(nr, nc, dok_set(m, i, j, v)),
        forall|r: int, c: int| #[trigger] dok_at(dok_set(m, i, j, v), r, c) == if r == i.iv() && c == j.iv() { v.sv() } else { dok_at(m, r, c) }
{
    let m2 = dok_set(m, i, j, v);
    assert forall|k: (I, I)| #[trigger] m2.contains_key(k) implies 0 <= k.0.iv() < nr && 0 <= k.1.iv() < nc && m2[k].sv() != C::zero() by { if k != (i, j) { assert(m.contains_key(k)); } }
    assert forall|r: int, c: int| #[trigger] dok_at(m2, r, c) == if r == i.iv() && c == j.iv() { v.sv() } else { dok_at(m, r, c) } by {
        if r == i.iv() && c == j.iv() { dok_key(m2, i, j); }
        else {
            if dok_has(m, r, c) {
                let k = choose|k: (I, I)| #[trigger] m.contains_key(k) && k.0.iv() == r && k.1.iv() == c;
                assert(m2.contains_key(k) && m2[k] == m[k]);
                dok_key(m, k.0, k.1); dok_key(m2, k.0, k.1);
            }
            if dok_has(m2, r, c) {
                let k = choose|k: (I, I)| #[trigger] m2.contains_key(k) && k.0.iv() == r && k.1.iv() == c;
                assert(m.contains_key(k) && m2[k] == m[k]);
            }
        }
    }
}
/// a walk over the map that lists n entries, all of them the map's, no entry twice
pub open spec fn entries<I: Integer, T>(m: Map<(I, I), T>, es: Seq<((I, I), T)>) -> bool {
    &&& forall|t: int| 0 <= t < es.len() ==> m.contains_key((#[trigger] es[t]).0) && m[es[t].0] == es[t].1
    &&& forall|t: int, u: int| #![trigger es[t], es[u]] 0 <= t < u < es.len() ==> es[t].0 != es[u].0
    &&& forall|k: (I, I)| #[trigger] m.contains_key(k) ==> ekey(es, k)
}
pub open spec fn ekey<I: Integer, T>(es: Seq<((I, I), T)>, k: (I, I)) -> bool { exists|t: int| 0 <= t < es.len() && (#[trigger] es[t]).0 == k }
pub proof fn entries_all<I: Integer, T>(m: Map<(I, I), T>, es: Seq<((I, I), T)>)
    requires es.len() == m.len(), es.no_duplicates(), forall|t: int| 0 <= t < es.len() ==> m.contains_key((#[trigger] es[t]).0) && m[es[t].0] == es[t].1
    ensures entries(m, es)
{
    let ks = es.map_values(|e: ((I, I), T)| e.0);
    assert forall|t: int, u: int| #![trigger es[t], es[u]] 0 <= t < u < es.len() implies es[t].0 != es[u].0 by { if es[t].0 == es[u].0 { assert(es[t] == es[u]); } }
    assert(ks.no_duplicates()) by { assert forall|t: int, u: int| 0 <= t < ks.len() && 0 <= u < ks.len() && t != u implies ks[t] != ks[u] by { if t < u { assert(es[t].0 != es[u].0); } else { assert(es[u].0 != es[t].0); } } }
    ks.unique_seq_to_set();
    assert(ks.to_set().subset_of(m.dom())) by { assert forall|k: (I, I)| ks.to_set().contains(k) implies m.dom().contains(k) by { let t = choose|t: int| 0 <= t < ks.len() && ks[t] == k; assert(es[t].0 == k); } }
    vstd::set_lib::lemma_subset_equality(ks.to_set(), m.dom());
    assert forall|k: (I, I)| #[trigger] m.contains_key(k) implies ekey(es, k) by {
        assert(ks.to_set().contains(k)); let t = choose|t: int| 0 <= t < ks.len() && ks[t] == k; assert(es[t].0 == k); }
}
/// what the first n entries put at (r, c)
pub open spec fn eat<I: Integer, T: Scalar>(es: Seq<((I, I), T)>, n: int, r: int, c: int) -> C decreases n {
    if n <= 0 { C::zero() } else if es[n - 1].0.0.iv() == r && es[n - 1].0.1.iv() == c { es[n - 1].1.sv() } else { eat(es, n - 1, r, c) }
}
proof fn eat_none<I: Integer, T: Scalar>(es: Seq<((I, I), T)>, n: int, r: int, c: int)
    requires 0 <= n <= es.len(), forall|t: int| 0 <= t < n ==> !((#[trigger] es[t]).0.0.iv() == r && es[t].0.1.iv() == c)
    ensures eat(es, n, r, c) == C::zero()
    decreases n
{
    if n > 0 { let z = es[n - 1]; eat_none(es, n - 1, r, c); }
}
proof fn eat_one<I: Integer, T: Scalar>(es: Seq<((I, I), T)>, n: int, r: int, c: int, k: int)
    requires 0 <= k < n <= es.len(), es[k].0.0.iv() == r, es[k].0.1.iv() == c, forall|t: int, u: int| #![trigger es[t], es[u]] 0 <= t < u < es.len() ==> es[t].0 != es[u].0
    ensures eat(es, n, r, c) == es[k].1.sv()
    decreases n
{
    if k < n - 1 { same_pos(es, k, n - 1, r, c); eat_one(es, n - 1, r, c, k); }
}
proof fn same_pos<I: Integer, T: Scalar>(es: Seq<((I, I), T)>, k: int, l: int, r: int, c: int)
    requires 0 <= k < l < es.len(), es[k].0.0.iv() == r, es[k].0.1.iv() == c, forall|t: int, u: int| #![trigger es[t], es[u]] 0 <= t < u < es.len() ==> es[t].0 != es[u].0
    ensures !(es[l].0.0.iv() == r && es[l].0.1.iv() == c)
{
    if es[l].0.0.iv() == r && es[l].0.1.iv() == c { es[k].0.0.law_inj(es[l].0.0); es[k].0.1.law_inj(es[l].0.1); assert(es[k].0 == es[l].0); }
}
pub proof fn eat_ext<I: Integer, T: Scalar>(a: Seq<((I, I), T)>, b: Seq<((I, I), T)>, n: int, r: int, c: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|t: int| 0 <= t < n ==> #[trigger] a[t] == b[t]
    ensures eat(a, n, r, c) == eat(b, n, r, c)
    decreases n
{
    if n > 0 { eat_ext(a, b, n - 1, r, c); let z = a[n - 1]; }
}
/// after all of them, the map's value
pub proof fn eat_all<I: Integer, T: Scalar>(m: Map<(I, I), T>, es: Seq<((I, I), T)>, r: int, c: int)
    requires entries(m, es)
    ensures eat(es, es.len() as int, r, c) == dok_at(m, r, c)
{
    if dok_has(m, r, c) {
        let k = choose|k: (I, I)| #[trigger] m.contains_key(k) && k.0.iv() == r && k.1.iv() == c;
        assert(ekey(es, k));
        let t = choose|t: int| 0 <= t < es.len() && (#[trigger] es[t]).0 == k;
        assert(m[es[t].0] == es[t].1);
        eat_one(es, es.len() as int, r, c, t);
        dok_key(m, k.0, k.1);
    } else {
        assert forall|t: int| 0 <= t < es.len() implies !((#[trigger] es[t]).0.0.iv() == r && es[t].0.1.iv() == c) by { assert(m.contains_key(es[t].0)); }
        eat_none(es, es.len() as int, r, c);
    }
}
/// triplets holding the entries sum to the same
pub proof fn eat_csum<I: Integer, T: Scalar>(m: Map<(I, I), T>, es: Seq<((I, I), T)>, ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int, r: int, c: int)
    requires entries(m, es), 0 <= n <= es.len(), ri.len() >= n, ci.len() >= n, x.len() >= n,
        forall|k: int| 0 <= k < n ==> #[trigger] es[k] == ((ri[k], ci[k]), x[k])
    ensures csum(ri, ci, x, n, r, c) == eat(es, n, r, c)
    decreases n
{
    if n > 0 {
        eat_csum(m, es, ri, ci, x, n - 1, r, c);
        let z = es[n - 1];
        if ri[n - 1].iv() == r && ci[n - 1].iv() == c {
            assert forall|t: int| 0 <= t < n - 1 implies !((#[trigger] es[t]).0.0.iv() == r && es[t].0.1.iv() == c) by { if es[t].0.0.iv() == r && es[t].0.1.iv() == c { same_pos(es, t, n - 1, r, c); } }
            eat_none(es, n - 1, r, c);
        }
    }
}
/// the entries of an array taken row by row up to (i, j)
pub open spec fn dok_part<I: Integer, T: Scalar>(m: Map<(I, I), T>, g: spec_fn(int, int) -> C, nc: int, i: int, j: int) -> bool {
    forall|r: int, c: int| #[trigger] dok_at(m, r, c) == if 0 <= c < nc && 0 <= r && (r < i || r == i && c < j) { g(r, c) } else { C::zero() }
}
pub open spec fn dgs<T: Scalar>(a: Seq<&[T]>) -> spec_fn(int, int) -> C { |r: int, c: int| a[r][c].sv() }
