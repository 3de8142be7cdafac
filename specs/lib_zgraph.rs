// ---- reachability over an edge relation on the nodes 0..n --------------------------------------------------------
/// consecutive nodes of s are joined by an edge
pub open spec fn link(e: spec_fn(int, int) -> bool, n: int, s: Seq<int>, i: int) -> bool { 0 <= s[i - 1] < n && 0 <= s[i] < n && e(s[i - 1], s[i]) }
pub open spec fn path(e: spec_fn(int, int) -> bool, n: int, s: Seq<int>) -> bool { s.len() >= 1 && forall|i: int| 0 < i < s.len() ==> #[trigger] link(e, n, s, i) }
/// v is reached from u along edges
pub open spec fn conn(e: spec_fn(int, int) -> bool, n: int, u: int, v: int) -> bool { exists|s: Seq<int>| #[trigger] path(e, n, s) && s[0] == u && s[s.len() - 1] == v }
pub proof fn conn_refl(e: spec_fn(int, int) -> bool, n: int, u: int) ensures conn(e, n, u, u) { let s = seq![u]; assert(path(e, n, s) && s[0] == u && s[s.len() - 1] == u); }
pub proof fn conn_step(e: spec_fn(int, int) -> bool, n: int, u: int, w: int, v: int)
    requires conn(e, n, u, w), 0 <= w < n, 0 <= v < n, e(w, v)
    ensures conn(e, n, u, v)
{
    let s = choose|s: Seq<int>| #[trigger] path(e, n, s) && s[0] == u && s[s.len() - 1] == w;
    let t = s.push(v);
    assert forall|i: int| 0 < i < t.len() implies #[trigger] link(e, n, t, i) by { if i < s.len() { assert(link(e, n, s, i)); } }
    assert(path(e, n, t) && t[0] == u && t[t.len() - 1] == v);
}
proof fn path_closed(e: spec_fn(int, int) -> bool, n: int, s: spec_fn(int) -> bool, t: Seq<int>, i: int)
    requires path(e, n, t), s(t[0]), forall|w: int, x: int| 0 <= w < n && 0 <= x < n && s(w) && #[trigger] e(w, x) ==> s(x), 0 <= i < t.len()
    ensures s(t[i])
    decreases i
{
    if i > 0 { path_closed(e, n, s, t, i - 1); assert(link(e, n, t, i)); }
}
/// a set closed under the edges that holds u holds everything reached from u
pub proof fn conn_closed(e: spec_fn(int, int) -> bool, n: int, s: spec_fn(int) -> bool, u: int, v: int)
    requires s(u), forall|w: int, x: int| 0 <= w < n && 0 <= x < n && s(w) && #[trigger] e(w, x) ==> s(x), conn(e, n, u, v)
    ensures s(v)
{
    let t = choose|t: Seq<int>| #[trigger] path(e, n, t) && t[0] == u && t[t.len() - 1] == v;
    path_closed(e, n, s, t, t.len() - 1);
}
pub proof fn conn_trans(e: spec_fn(int, int) -> bool, n: int, u: int, w: int, v: int)
    requires conn(e, n, u, w), conn(e, n, w, v)
    ensures conn(e, n, u, v)
{
    let s = |x: int| conn(e, n, u, x);
    assert forall|y: int, x: int| 0 <= y < n && 0 <= x < n && s(y) && #[trigger] e(y, x) implies s(x) by { conn_step(e, n, u, y, x); }
    conn_closed(e, n, s, w, v);
}
pub open spec fn symm(e: spec_fn(int, int) -> bool, n: int) -> bool { forall|u: int, v: int| 0 <= u < n && 0 <= v < n ==> #[trigger] e(u, v) == e(v, u) }
pub proof fn conn_sym(e: spec_fn(int, int) -> bool, n: int, u: int, v: int)
    requires conn(e, n, u, v), symm(e, n)
    ensures conn(e, n, v, u)
{
    let s = |x: int| conn(e, n, x, u);
    conn_refl(e, n, u);
    assert forall|y: int, x: int| 0 <= y < n && 0 <= x < n && s(y) && #[trigger] e(y, x) implies s(x) by {
        assert(e(x, y)); conn_refl(e, n, x); conn_step(e, n, x, x, y); conn_trans(e, n, x, y, u); }
    conn_closed(e, n, s, u, v);
}
pub open spec fn same_rel(e: spec_fn(int, int) -> bool, f: spec_fn(int, int) -> bool, n: int) -> bool { forall|u: int, v: int| 0 <= u < n && 0 <= v < n ==> #[trigger] e(u, v) == f(u, v) }
proof fn conn_sub(e: spec_fn(int, int) -> bool, f: spec_fn(int, int) -> bool, n: int, u: int, v: int)
    requires same_rel(e, f, n), conn(e, n, u, v)
    ensures conn(f, n, u, v)
{
    let s = |x: int| conn(f, n, u, x);
    conn_refl(f, n, u);
    assert forall|y: int, x: int| 0 <= y < n && 0 <= x < n && s(y) && #[trigger] e(y, x) implies s(x) by { conn_step(f, n, u, y, x); }
    conn_closed(e, n, s, u, v);
}
pub proof fn conn_same(e: spec_fn(int, int) -> bool, f: spec_fn(int, int) -> bool, n: int)
    requires same_rel(e, f, n)
    ensures forall|u: int, v: int| #[trigger] conn(e, n, u, v) == conn(f, n, u, v)
{
    assert forall|u: int, v: int| #[trigger] conn(e, n, u, v) == conn(f, n, u, v) by {
        assert(same_rel(f, e, n)) by { assert forall|u: int, v: int| 0 <= u < n && 0 <= v < n implies #[trigger] f(u, v) == e(u, v) by { assert(e(u, v) == f(u, v)); } }
        if conn(e, n, u, v) { conn_sub(e, f, n, u, v); }
        if conn(f, n, u, v) { conn_sub(f, e, n, u, v); }
    }
}
// ---- edges of a sparse graph ---------------------------------------------------------------------------------------
/// u -> v is stored
pub open spec fn dirg<I: Integer>(p: Seq<I>, j: Seq<I>) -> spec_fn(int, int) -> bool { |u: int, v: int| occl(p, j, u, v) }
/// stored in one of the two structures
pub open spec fn twog<I: Integer>(p: Seq<I>, j: Seq<I>, p2: Seq<I>, j2: Seq<I>) -> spec_fn(int, int) -> bool { |u: int, v: int| occl(p, j, u, v) || occl(p2, j2, u, v) }
/// u -> v or v -> u is stored
pub open spec fn undg<I: Integer>(p: Seq<I>, j: Seq<I>) -> spec_fn(int, int) -> bool { |u: int, v: int| occl(p, j, u, v) || occl(p, j, v, u) }
/// the second structure stores the edges of the first reversed
pub open spec fn reversed<I: Integer>(n: int, p: Seq<I>, j: Seq<I>, p2: Seq<I>, j2: Seq<I>) -> bool {
    forall|u: int, v: int| 0 <= u < n && 0 <= v < n ==> #[trigger] occl(p2, j2, u, v) == occl(p, j, v, u)
}
pub proof fn vals_occ<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int)
    ensures (vals(j, x, s, e, c).len() > 0) == occ(j, s, e, c)
    decreases e - s
{
    if s < e { vals_occ(j, x, s, e - 1, c); }
}
/// labels 0..k, all of them used, and two nodes share one exactly when `same` holds
pub open spec fn partition(n: int, k: int, l: Seq<usize>, same: spec_fn(int, int) -> bool) -> bool {
    &&& l.len() == n
    &&& forall|u: int| 0 <= u < n ==> 0 <= #[trigger] l[u] < k
    &&& forall|c: int| 0 <= c < k ==> #[trigger] has_label(l, c)
    &&& forall|u: int, v: int| #![trigger l[u], l[v]] 0 <= u < n && 0 <= v < n ==> (l[u] == l[v]) == same(u, v)
}
pub open spec fn has_label(l: Seq<usize>, c: int) -> bool { exists|u: int| 0 <= u < l.len() && #[trigger] l[u] == c }
pub open spec fn weakly<I: Integer>(n: int, p: Seq<I>, j: Seq<I>) -> spec_fn(int, int) -> bool { |u: int, v: int| conn(undg(p, j), n, u, v) }
pub open spec fn joined<I: Integer>(n: int, p: Seq<I>, j: Seq<I>, p2: Seq<I>, j2: Seq<I>) -> spec_fn(int, int) -> bool { |u: int, v: int| conn(twog(p, j, p2, j2), n, u, v) }
pub open spec fn strongly<I: Integer>(n: int, p: Seq<I>, j: Seq<I>) -> spec_fn(int, int) -> bool { |u: int, v: int| conn(dirg(p, j), n, u, v) && conn(dirg(p, j), n, v, u) }
// ---- components found one after another ------------------------------------------------------------------------------
/// number of nodes below m not yet assigned
pub open spec fn nneg(st: Seq<int>, m: int) -> int decreases m { if m <= 0 { 0 } else { nneg(st, m - 1) + if st[m - 1] < 0 { 1int } else { 0 } } }
pub proof fn nneg_set(st: Seq<int>, m: int, v: int, l: int)
    requires 0 <= v < m <= st.len(), st[v] < 0
    ensures nneg(st.update(v, l), m) == nneg(st, m) - if l >= 0 { 1int } else { 0 }, 0 <= nneg(st, m) <= m, nneg(st, m) >= 1
    decreases m
{
    if v < m - 1 { nneg_set(st, m - 1, v, l); } else { nneg_same(st, st.update(v, l), m - 1); }
}
pub proof fn nneg_same(st: Seq<int>, s2: Seq<int>, m: int)
    requires forall|u: int| 0 <= u < m ==> st[u] == #[trigger] s2[u]
    ensures nneg(st, m) == nneg(s2, m), 0 <= nneg(st, m), m >= 0 ==> nneg(st, m) <= m
    decreases m
{
    if m > 0 { nneg_same(st, s2, m - 1); }
}
/// every node assigned to component l (below k) has its neighbours there, and the root of l reaches it
pub open spec fn closed_comps(e: spec_fn(int, int) -> bool, n: int, st: Seq<int>, k: int, roots: Seq<int>) -> bool {
    &&& st.len() == n && roots.len() == k
    &&& forall|l: int| 0 <= l < k ==> 0 <= #[trigger] roots[l] < n && st[roots[l]] == l
    &&& forall|u: int| 0 <= u < n && 0 <= #[trigger] st[u] ==> st[u] < k && conn(e, n, roots[st[u]], u)
    &&& forall|u: int, v: int| 0 <= u < n && 0 <= v < n && 0 <= st[u] && #[trigger] e(u, v) ==> st[v] == st[u]
}
pub proof fn comps_partition(e: spec_fn(int, int) -> bool, n: int, st: Seq<int>, k: int, roots: Seq<int>, u: int, v: int)
    requires closed_comps(e, n, st, k, roots), symm(e, n), 0 <= u < n, 0 <= v < n, st[u] >= 0, st[v] >= 0
    ensures (st[u] == st[v]) == conn(e, n, u, v)
{
    if st[u] == st[v] { conn_sym(e, n, roots[st[u]], u); conn_trans(e, n, u, roots[st[u]], v); }
    if conn(e, n, u, v) {
        let s = |x: int| 0 <= x < n && st[x] == st[u];
        conn_closed(e, n, s, u, v);
    }
}
/// the k-th stored entry of line v is an edge
pub proof fn seen_edge<I: Integer>(p: Seq<I>, j: Seq<I>, v: int, k: int)
    requires inline(p, v, k)
    ensures occl(p, j, v, j[k].iv())
{
    occ_ex(j, p[v].iv(), p[v + 1].iv(), j[k].iv());
}
/// flags below zero for the nodes whose line stores nothing, 0..k on the rest: equal exactly for joined nodes
pub open spec fn flags_ok<I: Integer, F: Integer>(n: int, k: int, fl: Seq<F>, p: Seq<I>, j: Seq<I>) -> bool {
    &&& fl.len() == n
    &&& forall|u: int| 0 <= u < n ==> -2 <= (#[trigger] fl[u]).iv() < k && ((fl[u].iv() < 0) == (p[u].iv() == p[u + 1].iv()))
    &&& forall|c: int| 0 <= c < k ==> #[trigger] has_flag(fl, c)
    &&& forall|u: int, v: int| #![trigger fl[u], fl[v]] 0 <= u < n && 0 <= v < n && fl[u].iv() >= 0 && fl[v].iv() >= 0 ==> (fl[u].iv() == fl[v].iv()) == conn(dirg(p, j), n, u, v)
}
pub open spec fn has_flag<F: Integer>(fl: Seq<F>, c: int) -> bool { exists|u: int| 0 <= u < fl.len() && (#[trigger] fl[u]).iv() == c }
