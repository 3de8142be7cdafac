// ---- strong components found depth first ---------------------------------------------------------------------------------
/// st: -1 unseen, -4 unseen and on the DFS stack, -2 being visited (on the DFS stack too), -3 finished but without a component,
/// otherwise the component.  d: the DFS stack.  g: the nodes being visited, in order.  s: the finished ones, in order.
/// ord: both, in the order they were reached; pos: where.  sb[i]: how many had finished when g[i] was reached.
/// lev: on the DFS stack, which g one is or is a successor of.  low: the labels.  roots: of the components.
pub ghost struct Tj { pub st: Seq<int>, pub pos: Seq<int>, pub low: Seq<int>, pub lev: Seq<int>, pub d: Seq<int>, pub s: Seq<int>, pub ord: Seq<int>, pub g: Seq<int>, pub sb: Seq<int>, pub roots: Seq<int> }
pub open spec fn wht(x: int) -> bool { x == -1 || x == -4 }
pub open spec fn live(x: int) -> bool { x == -2 || x == -3 }
pub open spec fn onst(x: int) -> bool { x == -4 || x == -2 }
#[verifier::opaque]
pub open spec fn tj_sets(n: int, x: Tj) -> bool {
    &&& n >= 0 && x.st.len() == n && x.pos.len() == n && x.low.len() == n && x.lev.len() == n
    &&& forall|u: int| 0 <= u < n ==> -4 <= #[trigger] x.st[u] < x.roots.len()
    &&& forall|t: int| 0 <= t < x.d.len() ==> 0 <= #[trigger] x.d[t] < n && onst(x.st[x.d[t]])
    &&& forall|t: int, u: int| #![trigger x.d[t], x.d[u]] 0 <= t < u < x.d.len() ==> x.d[t] != x.d[u]
    &&& forall|u: int| 0 <= u < n && onst(#[trigger] x.st[u]) ==> x.d.contains(u)
    &&& forall|t: int| 0 <= t < x.s.len() ==> 0 <= #[trigger] x.s[t] < n && x.st[x.s[t]] == -3
    &&& forall|t: int, u: int| #![trigger x.s[t], x.s[u]] 0 <= t < u < x.s.len() ==> x.s[t] != x.s[u]
    &&& forall|u: int| 0 <= u < n && #[trigger] x.st[u] == -3 ==> x.s.contains(u)
}
#[verifier::opaque]
pub open spec fn tj_ord(n: int, x: Tj) -> bool {
    &&& x.ord.len() == x.g.len() + x.s.len()
    &&& forall|i: int| 0 <= i < x.ord.len() ==> 0 <= #[trigger] x.ord[i] < n && live(x.st[x.ord[i]]) && x.pos[x.ord[i]] == i
    &&& forall|u: int| 0 <= u < n && live(#[trigger] x.st[u]) ==> 0 <= x.pos[u] < x.ord.len() && x.ord[x.pos[u]] == u
}
pub open spec fn tedge(e: spec_fn(int, int) -> bool, g: Seq<int>, i: int) -> bool { e(g[i - 1], g[i]) }
#[verifier::opaque]
pub open spec fn tj_gray(e: spec_fn(int, int) -> bool, n: int, x: Tj) -> bool {
    &&& x.sb.len() == x.g.len()
    &&& forall|i: int| 0 <= i < x.g.len() ==> 0 <= #[trigger] x.g[i] < n && x.st[x.g[i]] == -2 && x.pos[x.g[i]] == i + x.sb[i] && x.low[x.g[i]] == x.pos[x.g[i]] && x.lev[x.g[i]] == i
    &&& forall|i: int| 0 <= i < x.sb.len() ==> 0 <= #[trigger] x.sb[i] <= x.s.len()
    &&& forall|i: int, j: int| #![trigger x.sb[i], x.sb[j]] 0 <= i <= j < x.sb.len() ==> x.sb[i] <= x.sb[j]
    &&& forall|u: int| 0 <= u < n && #[trigger] x.st[u] == -2 ==> 0 <= x.lev[u] < x.g.len() && x.g[x.lev[u]] == u
    &&& x.g.len() == 0 ==> x.s.len() == 0
    &&& x.g.len() > 0 ==> x.sb[0] == 0
    &&& forall|i: int| 0 < i < x.g.len() ==> #[trigger] tedge(e, x.g, i)
}
#[verifier::opaque]
pub open spec fn tj_dfs(e: spec_fn(int, int) -> bool, n: int, x: Tj) -> bool {
    &&& forall|t: int, u: int| #![trigger x.d[t], x.d[u]] 0 <= t < u < x.d.len() ==> x.lev[x.d[t]] <= x.lev[x.d[u]] && (x.st[x.d[u]] == -2 ==> x.lev[x.d[t]] < x.lev[x.d[u]])
    &&& forall|u: int| 0 <= u < n && #[trigger] x.st[u] == -4 ==> -1 <= x.lev[u] < x.g.len() && (x.lev[u] >= 0 ==> e(x.g[x.lev[u]], u)) && (x.lev[u] == -1 ==> x.g.len() == 0)
    &&& x.g.len() == 0 ==> x.d.len() <= 1
}
/// the unseen successors of the nodes being visited wait above them on the stack
#[verifier::opaque]
pub open spec fn tj_out(e: spec_fn(int, int) -> bool, n: int, x: Tj, pv: int) -> bool {
    forall|u: int, y: int| 0 <= u < n && 0 <= y < n && x.st[u] == -2 && u != pv && #[trigger] e(u, y) && wht(x.st[y]) ==> x.st[y] == -4 && x.lev[y] >= x.lev[u]
}
#[verifier::opaque]
pub open spec fn tj_done(e: spec_fn(int, int) -> bool, n: int, x: Tj) -> bool {
    &&& forall|u: int| 0 <= u < n && #[trigger] x.st[u] == -3 ==> 0 <= x.low[u] < x.pos[u] && conn(e, n, u, x.ord[x.low[u]])
    &&& forall|u: int, y: int| 0 <= u < n && 0 <= y < n && x.st[u] == -3 && #[trigger] e(u, y) ==> !wht(x.st[y]) && (live(x.st[y]) ==> x.low[u] <= x.pos[y])
}
/// the t-th finished node was reached from g[i] but from no later one
pub open spec fn inz(sb: Seq<int>, sl: int, i: int, t: int) -> bool { 0 <= i < sb.len() && sb[i] <= t < sl && (i + 1 < sb.len() ==> t < sb[i + 1]) }
pub open spec fn lowwit(e: spec_fn(int, int) -> bool, x: Tj, i: int, t: int) -> bool {
    exists|q: int| #[trigger] inz(x.sb, x.s.len() as int, i, q) && e(x.g[i], x.s[q]) && x.low[x.s[q]] <= x.low[x.s[t]]
}
#[verifier::opaque]
pub open spec fn tj_zord(n: int, x: Tj) -> bool {
    forall|i: int, t: int| #![trigger x.g[i], x.s[t]] 0 <= i < x.g.len() && 0 <= t < x.s.len() ==> if t < x.sb[i] { x.pos[x.s[t]] < x.pos[x.g[i]] } else { x.pos[x.s[t]] > x.pos[x.g[i]] }
}
#[verifier::opaque]
pub open spec fn tj_zone(e: spec_fn(int, int) -> bool, n: int, x: Tj) -> bool {
    forall|i: int, t: int| #[trigger] inz(x.sb, x.s.len() as int, i, t) ==> conn(e, n, x.g[i], x.s[t]) && lowwit(e, x, i, t)
}
#[verifier::opaque]
pub open spec fn tj_comps(e: spec_fn(int, int) -> bool, n: int, x: Tj) -> bool {
    &&& forall|c: int| 0 <= c < x.roots.len() ==> 0 <= #[trigger] x.roots[c] < n && x.st[x.roots[c]] == c
    &&& forall|u: int| 0 <= u < n && #[trigger] x.st[u] >= 0 ==> conn(e, n, x.roots[x.st[u]], u) && conn(e, n, u, x.roots[x.st[u]])
    &&& forall|u: int, y: int| 0 <= u < n && 0 <= y < n && x.st[u] >= 0 && #[trigger] e(u, y) ==> 0 <= x.st[y] <= x.st[u]
}
#[verifier::opaque]
pub open spec fn tj(e: spec_fn(int, int) -> bool, n: int, x: Tj, pv: int) -> bool {
    tj_sets(n, x) && tj_ord(n, x) && tj_gray(e, n, x) && tj_dfs(e, n, x) && tj_out(e, n, x, pv) && tj_done(e, n, x) && tj_zord(n, x) && tj_zone(e, n, x) && tj_comps(e, n, x)
}
/// different nodes below n are at most n
pub proof fn few(s: Seq<int>, n: int)
    requires n >= 0, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n, forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] != s[j]
    ensures s.len() <= n
{
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { let z = (s[i], s[j]); } else { let z = (s[j], s[i]); } } }
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    let r = vstd::set_lib::set_int_range(0, n);
    assert(s.to_set().subset_of(r)) by { assert forall|u: int| s.to_set().contains(u) implies r.contains(u) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == u; let z = s[i]; } }
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
}
pub open spec fn tj0(n: int) -> Tj {
    let m = Seq::new(n as nat, |u: int| -1int); let z = Seq::<int>::empty();
    Tj { st: m, pos: m, low: m, lev: m, d: z, s: z, ord: z, g: z, sb: z, roots: z }
}
pub proof fn tj_init(e: spec_fn(int, int) -> bool, n: int) requires n >= 0 ensures tj(e, n, tj0(n), -1) { reveal(tj); reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs); reveal(tj_out); reveal(tj_done); reveal(tj_zord); reveal(tj_zone); reveal(tj_comps); }
/// with an empty DFS stack everything reached has its component
pub proof fn tj_idle(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj(e, n, x, -1), x.d.len() == 0
    ensures x.g.len() == 0, x.s.len() == 0, x.ord.len() == 0, x.st.len() == n, forall|u: int| 0 <= u < n ==> #[trigger] x.st[u] == -1 || 0 <= x.st[u] < x.roots.len()
{
    reveal(tj); reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs); reveal(tj_out); reveal(tj_done); reveal(tj_zord); reveal(tj_zone); reveal(tj_comps);
    if x.g.len() > 0 { let z = x.g[0]; assert(x.d.contains(z)); }
    assert forall|u: int| 0 <= u < n implies #[trigger] x.st[u] == -1 || 0 <= x.st[u] by { if onst(x.st[u]) { assert(x.d.contains(u)); } if x.st[u] == -3 { assert(x.s.contains(u)); } }
}
pub open spec fn tj1(x: Tj, v: int) -> Tj { Tj { st: x.st.update(v, -4), lev: x.lev.update(v, -1), d: x.d.push(v), ..x } }
pub proof fn tj_start(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int)
    requires tj(e, n, x, -1), x.d.len() == 0, 0 <= v < n, x.st[v] == -1
    ensures tj(e, n, tj1(x, v), -1)
{
    tj_idle(e, n, x);
    reveal(tj); reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs); reveal(tj_out); reveal(tj_done); reveal(tj_zord); reveal(tj_zone); reveal(tj_comps);
    let y = tj1(x, v);
    assert(tj_sets(n, y)) by { assert(y.d[0] == v); }
    assert(tj_comps(e, n, y)) by { assert forall|c: int| 0 <= c < y.roots.len() implies 0 <= #[trigger] y.roots[c] < n && y.st[y.roots[c]] == c by { let z = x.roots[c]; } }
}
pub open spec fn tj2(x: Tj) -> Tj {
    let v = x.d[x.d.len() - 1]; let i = x.ord.len() as int;
    Tj { st: x.st.update(v, -2), pos: x.pos.update(v, i), low: x.low.update(v, i), lev: x.lev.update(v, x.g.len() as int), ord: x.ord.push(v), g: x.g.push(v), sb: x.sb.push(x.s.len() as int), ..x }
}
/// the node on top hangs off the last one being visited
pub proof fn tj_top(e: spec_fn(int, int) -> bool, n: int, x: Tj, pv: int)
    requires tj(e, n, x, pv), x.d.len() > 0
    ensures ({ let v = x.d[x.d.len() - 1]; 0 <= v < n && onst(x.st[v]) && x.lev[v] == x.g.len() - 1 && (x.st[v] == -2 ==> x.g.len() > 0 && x.g[x.g.len() - 1] == v) })
{
    reveal(tj); reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs); reveal(tj_out); reveal(tj_done); reveal(tj_zord); reveal(tj_zone); reveal(tj_comps);
    let v = x.d[x.d.len() - 1];
    if x.g.len() > 0 {
        let w = x.g[x.g.len() - 1];
        assert(x.d.contains(w));
        let t = choose|t: int| 0 <= t < x.d.len() && x.d[t] == w;
        if t < x.d.len() - 1 { let z = (x.d[t], x.d[x.d.len() - 1]); }
    }
}
proof fn tj_visit_sets(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj_sets(n, x), x.d.len() > 0, x.lev[x.d[x.d.len() - 1]] == x.g.len() - 1, x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj_sets(n, tj2(x))
{
    reveal(tj_sets);
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_sets(n, y)) by { reveal(tj_sets); };
}
proof fn tj_visit_ord(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj_sets(n, x), tj_ord(n, x), x.d.len() > 0, x.lev[x.d[x.d.len() - 1]] == x.g.len() - 1, x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj_ord(n, tj2(x))
{
    reveal(tj_sets);
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_ord(n, y)) by { reveal(tj_sets); reveal(tj_ord); assert forall|i: int| 0 <= i < y.ord.len() implies 0 <= #[trigger] y.ord[i] < n && live(y.st[y.ord[i]]) && y.pos[y.ord[i]] == i by { if i < x.ord.len() { let z = x.ord[i]; } } }
}
proof fn tj_visit_gray(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_dfs(e, n, x), x.d.len() > 0, x.lev[x.d[x.d.len() - 1]] == x.g.len() - 1, x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj_gray(e, n, tj2(x))
{
    reveal(tj_sets);
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_gray(e, n, y)) by { reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs);
        assert forall|i: int| 0 <= i < y.g.len() implies 0 <= #[trigger] y.g[i] < n && y.st[y.g[i]] == -2 && y.pos[y.g[i]] == i + y.sb[i] && y.low[y.g[i]] == y.pos[y.g[i]] && y.lev[y.g[i]] == i by { if i < m { let z = x.g[i]; } }
        assert forall|i: int, j: int| #![trigger y.sb[i], y.sb[j]] 0 <= i <= j < y.sb.len() implies y.sb[i] <= y.sb[j] by { if i < m { let z = x.sb[i]; if j < m { let z = x.sb[j]; } } }
        assert forall|i: int| 0 < i < y.g.len() implies #[trigger] tedge(e, y.g, i) by { if i < m { assert(tedge(e, x.g, i)); } }
        assert forall|i: int| 0 <= i < y.sb.len() implies 0 <= #[trigger] y.sb[i] <= y.s.len() by { if i < m { let z = x.sb[i]; } }
    }
}
proof fn tj_visit_dfs(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_dfs(e, n, x), x.d.len() > 0, x.lev[x.d[x.d.len() - 1]] == x.g.len() - 1, x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj_dfs(e, n, tj2(x))
{
    reveal(tj_sets);
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_dfs(e, n, y)) by { reveal(tj_sets); reveal(tj_gray); reveal(tj_dfs);
        assert forall|t: int, u: int| #![trigger y.d[t], y.d[u]] 0 <= t < u < y.d.len() implies y.lev[y.d[t]] <= y.lev[y.d[u]] && (y.st[y.d[u]] == -2 ==> y.lev[y.d[t]] < y.lev[y.d[u]]) by {
            let z = (x.d[t], x.d[u]); assert(x.d[t] != v); if u == x.d.len() - 1 { assert(x.lev[x.d[t]] < m); } else { assert(x.d[u] != x.d[x.d.len() - 1]); } }
    }
}
proof fn tj_visit_out(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_out(e, n, x, -1), tj_dfs(e, n, x), x.d.len() > 0, x.lev[x.d[x.d.len() - 1]] == x.g.len() - 1, x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj_out(e, n, tj2(x), x.d[x.d.len() - 1])
{
    reveal(tj_sets);
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_out(e, n, y, v)) by { reveal(tj_sets); reveal(tj_gray); reveal(tj_out); reveal(tj_dfs); }
}
proof fn tj_visit_done(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_done(e, n, x), x.d.len() > 0, x.lev[x.d[x.d.len() - 1]] == x.g.len() - 1, x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj_done(e, n, tj2(x))
{
    reveal(tj_sets);
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_done(e, n, y)) by { reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_done);
        assert forall|u: int| 0 <= u < n && #[trigger] y.st[u] == -3 implies 0 <= y.low[u] < y.pos[u] && conn(e, n, u, y.ord[y.low[u]]) by { assert(x.st[u] == -3); } }
}
proof fn tj_visit_zord(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_zord(n, x), x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj_zord(n, tj2(x))
{
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let m = x.g.len() as int;
    reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_zord);
    assert forall|i: int, t: int| #![trigger y.g[i], y.s[t]] 0 <= i < y.g.len() && 0 <= t < y.s.len() implies if t < y.sb[i] { y.pos[y.s[t]] < y.pos[y.g[i]] } else { y.pos[y.s[t]] > y.pos[y.g[i]] } by {
        let z = x.s[t]; if i < m { let z = x.g[i]; } }
}
proof fn tj_visit_zone(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_zone(e, n, x), x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj_zone(e, n, tj2(x))
{
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let m = x.g.len() as int;
    reveal(tj_zone);
    assert(y.s == x.s && y.sb.len() == m + 1 && y.g.len() == m + 1 && x.sb.len() == m && 0 <= v < n && x.low.len() == n) by { reveal(tj_sets); reveal(tj_gray); let z = x.d[x.d.len() - 1]; }
    assert forall|t: int| 0 <= t < x.s.len() implies 0 <= #[trigger] x.s[t] < n && x.s[t] != v by { reveal(tj_sets); }
    assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] x.sb[i] by { reveal(tj_gray); }
    assert forall|i: int, t: int| inz(y.sb, y.s.len() as int, i, t) == (i < m && #[trigger] inz(x.sb, x.s.len() as int, i, t)) by { }
    assert forall|i: int, t: int| #[trigger] inz(y.sb, y.s.len() as int, i, t) implies conn(e, n, y.g[i], y.s[t]) && lowwit(e, y, i, t) by {
        assert(inz(x.sb, x.s.len() as int, i, t));
        let q = choose|q: int| #[trigger] inz(x.sb, x.s.len() as int, i, q) && e(x.g[i], x.s[q]) && x.low[x.s[q]] <= x.low[x.s[t]];
        assert(inz(y.sb, y.s.len() as int, i, q)); assert(i < m && y.g[i] == x.g[i]); let z = (x.s[q], x.s[t]); assert(x.s[q] != v && x.s[t] != v);
        assert(y.low[y.s[q]] == x.low[x.s[q]]); assert(e(y.g[i], y.s[q])); assert(lowwit(e, y, i, t));
    }
}
proof fn tj_visit_comps(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj_sets(n, x), tj_comps(e, n, x), x.d.len() > 0, x.lev[x.d[x.d.len() - 1]] == x.g.len() - 1, x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj_comps(e, n, tj2(x))
{
    reveal(tj_sets);
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_comps(e, n, y)) by { reveal(tj_sets); reveal(tj_comps); assert forall|c: int| 0 <= c < y.roots.len() implies 0 <= #[trigger] y.roots[c] < n && y.st[y.roots[c]] == c by { let z = x.roots[c]; } }
}
pub proof fn tj_visit(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj(e, n, x, -1), x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4
    ensures tj(e, n, tj2(x), x.d[x.d.len() - 1])
{
    reveal(tj);
    tj_top(e, n, x, -1);
    tj_visit_sets(e,n,x);
    tj_visit_ord(e,n,x);
    tj_visit_gray(e,n,x);
    tj_visit_dfs(e,n,x);
    tj_visit_out(e,n,x);
    tj_visit_done(e,n,x);
    tj_visit_zord(e, n, x);
    tj_visit_zone(e,n,x);
    tj_visit_comps(e,n,x);
}
pub open spec fn tj3(x: Tj, w: int) -> Tj { Tj { st: x.st.update(w, -4), lev: x.lev.update(w, x.g.len() - 1), d: x.d.push(w), ..x } }
proof fn tj_push_sets(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj_sets(n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1, e(v, w)
    ensures tj_sets(n, tj3(x, w))
{
    reveal(tj_sets);
    let y = tj3(x, w); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_sets(n, y)) by { reveal(tj_sets);
        assert forall|u: int| 0 <= u < n && onst(#[trigger] y.st[u]) implies y.d.contains(u) by { if u == w { assert(y.d[x.d.len() as int] == w); } else { assert(x.d.contains(u)); let t = choose|t: int| 0 <= t < x.d.len() && x.d[t] == u; assert(y.d[t] == u); } }
        assert forall|t: int| 0 <= t < y.d.len() implies 0 <= #[trigger] y.d[t] < n && onst(y.st[y.d[t]]) by { if t < x.d.len() { let z = x.d[t]; } }
        assert forall|t: int, u: int| #![trigger y.d[t], y.d[u]] 0 <= t < u < y.d.len() implies y.d[t] != y.d[u] by { let z = x.d[t]; if u < x.d.len() { let z = x.d[u]; } }
    }
}
proof fn tj_push_dfs(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_dfs(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1, e(v, w)
    ensures tj_dfs(e, n, tj3(x, w))
{
    reveal(tj_sets);
    let y = tj3(x, w); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_dfs(e, n, y)) by { reveal(tj_sets); reveal(tj_gray); reveal(tj_dfs);
        assert forall|t: int, u: int| #![trigger y.d[t], y.d[u]] 0 <= t < u < y.d.len() implies y.lev[y.d[t]] <= y.lev[y.d[u]] && (y.st[y.d[u]] == -2 ==> y.lev[y.d[t]] < y.lev[y.d[u]]) by {
            let z = x.d[t]; if u < x.d.len() { let z = x.d[u]; } }
    }
}
proof fn tj_push_gray(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_dfs(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1, e(v, w)
    ensures tj_gray(e, n, tj3(x, w))
{
    reveal(tj_sets);
    let y = tj3(x, w); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_gray(e, n, y)) by { reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs); assert forall|i: int| 0 <= i < y.g.len() implies 0 <= #[trigger] y.g[i] < n && y.st[y.g[i]] == -2 && y.pos[y.g[i]] == i + y.sb[i] && y.low[y.g[i]] == y.pos[y.g[i]] && y.lev[y.g[i]] == i by { let z = x.g[i]; } }
}
proof fn tj_push_out(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_out(e, n, x, v), tj_dfs(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1, e(v, w)
    ensures tj_out(e, n, tj3(x, w), v)
{
    reveal(tj_sets);
    let y = tj3(x, w); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_out(e, n, y, v)) by { reveal(tj_sets); reveal(tj_gray); reveal(tj_out); reveal(tj_dfs); }
}
proof fn tj_push_zone(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_zone(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1, e(v, w)
    ensures tj_zone(e, n, tj3(x, w))
{
    reveal(tj_sets);
    let y = tj3(x, w); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_zone(e, n, y)) by { reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_zone);
        assert forall|i: int, t: int| #[trigger] inz(y.sb, y.s.len() as int, i, t) implies conn(e, n, y.g[i], y.s[t]) && lowwit(e, y, i, t) by { assert(lowwit(e, x, i, t)); }
    }
}
proof fn tj_push_comps(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj_sets(n, x), tj_comps(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1, e(v, w)
    ensures tj_comps(e, n, tj3(x, w))
{
    reveal(tj_sets);
    let y = tj3(x, w); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_comps(e, n, y)) by { reveal(tj_sets); reveal(tj_comps); assert forall|c: int| 0 <= c < y.roots.len() implies 0 <= #[trigger] y.roots[c] < n && y.st[y.roots[c]] == c by { let z = x.roots[c]; } }
}
proof fn tj_push_ord(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj_sets(n, x), tj_ord(n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1, e(v, w)
    ensures tj_ord(n, tj3(x, w))
{
    reveal(tj_sets);
    let y = tj3(x, w); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_ord(n, y)) by { reveal(tj_sets); reveal(tj_ord); }
}
proof fn tj_push_done(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_done(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1, e(v, w)
    ensures tj_done(e, n, tj3(x, w))
{
    reveal(tj_sets);
    let y = tj3(x, w); let m = x.g.len() as int;
    reveal(tj_sets);
    assert(tj_done(e, n, y)) by { reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_done); }
}
pub proof fn tj_push(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj(e, n, x, v), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1, e(v, w)
    ensures tj(e, n, tj3(x, w), v)
{
    reveal(tj);
    tj_push_sets(e,n,x,v,w);
    tj_push_dfs(e,n,x,v,w);
    tj_push_gray(e,n,x,v,w);
    tj_push_out(e,n,x,v,w);
    assert(tj_zord(n, tj3(x, w))) by { reveal(tj_zord); }
    tj_push_zone(e,n,x,v,w);
    tj_push_comps(e,n,x,v,w);
    tj_push_ord(e,n,x,v,w);
    tj_push_done(e,n,x,v,w);
}
pub open spec fn tj4(x: Tj, t: int) -> Tj { Tj { lev: x.lev.update(x.d[t], x.g.len() - 1), d: x.d.remove(t).push(x.d[t]), ..x } }
proof fn tj_move_sets(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj_sets(n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4, e(v, x.d[t])
    ensures tj_sets(n, tj4(x, t))
{
    reveal(tj_sets);
    let y = tj4(x, t); let m = x.g.len() as int; let w = x.d[t];
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] y.d[q] == x.d[if q < t { q } else if q == y.d.len() - 1 { t } else { q + 1 }] by {}
    reveal(tj_sets);
    assert(tj_sets(n, y)) by { reveal(tj_sets);
        assert forall|u: int| 0 <= u < n && onst(#[trigger] y.st[u]) implies y.d.contains(u) by { assert(x.d.contains(u)); let q = choose|q: int| 0 <= q < x.d.len() && x.d[q] == u;
            if q < t { assert(y.d[q] == u); } else if q == t { assert(y.d[y.d.len() - 1] == u); } else { assert(y.d[q - 1] == u); } }
        assert forall|t: int, u: int| #![trigger y.d[t], y.d[u]] 0 <= t < u < y.d.len() implies y.d[t] != y.d[u] by { }
    }
}
proof fn tj_move_dfs(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_dfs(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4, e(v, x.d[t])
    ensures tj_dfs(e, n, tj4(x, t))
{
    reveal(tj_sets);
    let y = tj4(x, t); let m = x.g.len() as int; let w = x.d[t];
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] y.d[q] == x.d[if q < t { q } else if q == y.d.len() - 1 { t } else { q + 1 }] by {}
    reveal(tj_sets);
    assert(tj_dfs(e, n, y)) by { reveal(tj_sets); reveal(tj_gray); reveal(tj_dfs);
        assert forall|q: int, u: int| #![trigger y.d[q], y.d[u]] 0 <= q < u < y.d.len() implies y.lev[y.d[q]] <= y.lev[y.d[u]] && (y.st[y.d[u]] == -2 ==> y.lev[y.d[q]] < y.lev[y.d[u]]) by {
            assert(y.d[q] != w); let z = y.d[q]; assert(x.lev[z] < m); }
    }
}
proof fn tj_move_gray(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_dfs(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4, e(v, x.d[t])
    ensures tj_gray(e, n, tj4(x, t))
{
    reveal(tj_sets);
    let y = tj4(x, t); let m = x.g.len() as int; let w = x.d[t];
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] y.d[q] == x.d[if q < t { q } else if q == y.d.len() - 1 { t } else { q + 1 }] by {}
    reveal(tj_sets);
    assert(tj_gray(e, n, y)) by { reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs); assert forall|i: int| 0 <= i < y.g.len() implies 0 <= #[trigger] y.g[i] < n && y.st[y.g[i]] == -2 && y.pos[y.g[i]] == i + y.sb[i] && y.low[y.g[i]] == y.pos[y.g[i]] && y.lev[y.g[i]] == i by { let z = x.g[i]; } }
}
proof fn tj_move_out(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_out(e, n, x, v), tj_dfs(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4, e(v, x.d[t])
    ensures tj_out(e, n, tj4(x, t), v)
{
    reveal(tj_sets);
    let y = tj4(x, t); let m = x.g.len() as int; let w = x.d[t];
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] y.d[q] == x.d[if q < t { q } else if q == y.d.len() - 1 { t } else { q + 1 }] by {}
    reveal(tj_sets);
    assert(tj_out(e, n, y, v)) by { reveal(tj_sets); reveal(tj_gray); reveal(tj_out); reveal(tj_dfs); assert forall|u: int, z: int| 0 <= u < n && 0 <= z < n && y.st[u] == -2 && u != v && #[trigger] e(u, z) && wht(y.st[z]) implies y.st[z] == -4 && y.lev[z] >= y.lev[u] by { assert(x.lev[u] < m); } }
}
proof fn tj_move_zone(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_zone(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4, e(v, x.d[t])
    ensures tj_zone(e, n, tj4(x, t))
{
    reveal(tj_sets);
    let y = tj4(x, t); let m = x.g.len() as int; let w = x.d[t];
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] y.d[q] == x.d[if q < t { q } else if q == y.d.len() - 1 { t } else { q + 1 }] by {}
    reveal(tj_sets);
    assert(tj_zone(e, n, y)) by { reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_zone);
        assert forall|i: int, t: int| #[trigger] inz(y.sb, y.s.len() as int, i, t) implies conn(e, n, y.g[i], y.s[t]) && lowwit(e, y, i, t) by { assert(lowwit(e, x, i, t)); }
    }
}
proof fn tj_move_ord(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj_sets(n, x), tj_ord(n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4, e(v, x.d[t])
    ensures tj_ord(n, tj4(x, t))
{
    reveal(tj_sets);
    let y = tj4(x, t); let m = x.g.len() as int; let w = x.d[t];
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] y.d[q] == x.d[if q < t { q } else if q == y.d.len() - 1 { t } else { q + 1 }] by {}
    reveal(tj_sets);
    assert(tj_ord(n, y)) by { reveal(tj_sets); reveal(tj_ord); }
}
proof fn tj_move_done(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_done(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4, e(v, x.d[t])
    ensures tj_done(e, n, tj4(x, t))
{
    reveal(tj_sets);
    let y = tj4(x, t); let m = x.g.len() as int; let w = x.d[t];
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] y.d[q] == x.d[if q < t { q } else if q == y.d.len() - 1 { t } else { q + 1 }] by {}
    reveal(tj_sets);
    assert(tj_done(e, n, y)) by { reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_done); }
}
proof fn tj_move_comps(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj_sets(n, x), tj_comps(e, n, x), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4, e(v, x.d[t])
    ensures tj_comps(e, n, tj4(x, t))
{
    reveal(tj_sets);
    let y = tj4(x, t); let m = x.g.len() as int; let w = x.d[t];
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] y.d[q] == x.d[if q < t { q } else if q == y.d.len() - 1 { t } else { q + 1 }] by {}
    reveal(tj_sets);
    assert(tj_comps(e, n, y)) by { reveal(tj_sets); reveal(tj_comps); }
}
pub proof fn tj_move(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj(e, n, x, v), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4, e(v, x.d[t])
    ensures tj(e, n, tj4(x, t), v)
{
    reveal(tj);
    tj_move_sets(e,n,x,v,t);
    tj_move_dfs(e,n,x,v,t);
    tj_move_gray(e,n,x,v,t);
    tj_move_out(e,n,x,v,t);
    assert(tj_zord(n, tj4(x, t))) by { reveal(tj_zord); }
    tj_move_zone(e,n,x,v,t);
    tj_move_ord(e,n,x,v,t);
    tj_move_done(e,n,x,v,t);
    tj_move_comps(e,n,x,v,t);
}
pub proof fn tj_seen(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int)
    requires tj(e, n, x, v), forall|y: int| 0 <= y < n && #[trigger] e(v, y) && wht(x.st[y]) ==> x.st[y] == -4 && x.lev[y] >= x.lev[v]
    ensures tj(e, n, x, -1)
{
    reveal(tj); reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs); reveal(tj_out); reveal(tj_done); reveal(tj_zord); reveal(tj_zone); reveal(tj_comps);
}
/// what a node about to be finished knows
pub proof fn tj_ready(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj(e, n, x, -1), x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -2
    ensures ({ let v = x.d[x.d.len() - 1]; 0 <= v < n && x.g.len() > 0 && x.g[x.g.len() - 1] == v && 0 <= x.pos[v] < x.ord.len() && x.low[v] == x.pos[v] }),
        forall|y: int| 0 <= y < n && #[trigger] e(x.d[x.d.len() - 1], y) ==> !wht(x.st[y]),
        forall|u: int| 0 <= u < n && live(#[trigger] x.st[u]) ==> 0 <= x.low[u] <= x.pos[u] < x.ord.len(),
        x.ord.len() + x.roots.len() <= n,
{
    tj_top(e, n, x, -1);
    tj_room(e, n, x, -1);
    reveal(tj); reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs); reveal(tj_out); reveal(tj_done); reveal(tj_zord); reveal(tj_zone); reveal(tj_comps);
    let v = x.d[x.d.len() - 1];
    assert forall|y: int| 0 <= y < n && #[trigger] e(v, y) implies !wht(x.st[y]) by {
        if wht(x.st[y]) {
            assert(x.d.contains(y));
            let t = choose|t: int| 0 <= t < x.d.len() && x.d[t] == y;
            let z = (x.d[t], x.d[x.d.len() - 1]);
        }
    }
    assert forall|u: int| 0 <= u < n && live(#[trigger] x.st[u]) implies 0 <= x.low[u] <= x.pos[u] < x.ord.len() by { if x.st[u] == -2 { let z = x.g[x.lev[u]]; } }
}
pub proof fn tj_room(e: spec_fn(int, int) -> bool, n: int, x: Tj, pv: int)
    requires tj(e, n, x, pv)
    ensures x.ord.len() + x.roots.len() <= n, x.d.len() > 0 && x.st[x.d[x.d.len() - 1]] == -4 ==> x.ord.len() + x.roots.len() < n
{
    reveal(tj); reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_dfs); reveal(tj_out); reveal(tj_done); reveal(tj_zord); reveal(tj_zone); reveal(tj_comps);
    let a = x.ord + x.roots;
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] < n && (if i < x.ord.len() { live(x.st[a[i]]) && x.pos[a[i]] == i } else { x.st[a[i]] == i - x.ord.len() }) by { if i < x.ord.len() { let z = x.ord[i]; } else { let z = x.roots[i - x.ord.len()]; } }
    few(a, n);
    if x.d.len() > 0 && x.st[x.d[x.d.len() - 1]] == -4 { let b = a.push(x.d[x.d.len() - 1]);
        assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] b[i] < n && (i < a.len() ==> b[i] == a[i] && x.st[b[i]] != -4) by { if i < a.len() { let z = a[i]; } }
        assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies b[i] != b[j] by { let z = a[i]; if j < a.len() { let z = a[j]; } }
        few(b, n); }
}
// finishing a node that reaches an older one
pub open spec fn lowof(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, lv: int) -> bool { forall|y: int| 0 <= y < n && #[trigger] e(v, y) ==> !wht(x.st[y]) && (live(x.st[y]) ==> lv <= x.low[y]) }
pub open spec fn lowhit(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, lv: int) -> bool { exists|y: int| 0 <= y < n && #[trigger] e(v, y) && live(x.st[y]) && x.low[y] == lv }
pub open spec fn topg(n: int, x: Tj, v: int) -> bool {
    let m = x.g.len() as int;
    x.d.len() > 0 && x.d[x.d.len() - 1] == v && 0 <= v < n && m > 0 && x.g[m - 1] == v && x.st[v] == -2 && x.lev[v] == m - 1 && x.sb.len() == m && x.pos[v] == m - 1 + x.sb[m - 1] && x.low[v] == x.pos[v] && 0 <= x.sb[m - 1] <= x.s.len() && x.ord.len() == m + x.s.len()
}
pub open spec fn tj5(x: Tj, v: int, lv: int) -> Tj { Tj { st: x.st.update(v, -3), low: x.low.update(v, lv), d: x.d.drop_last(), s: x.s.push(v), g: x.g.drop_last(), sb: x.sb.drop_last(), ..x } }
proof fn tj_fin_sets(n: int, x: Tj, v: int, lv: int)
    requires tj_sets(n, x), topg(n, x, v)
    ensures tj_sets(n, tj5(x, v, lv))
{
    reveal(tj_sets);
    let y = tj5(x, v, lv);
    assert forall|t: int| 0 <= t < y.d.len() implies 0 <= #[trigger] y.d[t] < n && onst(y.st[y.d[t]]) by { let z = (x.d[t], x.d[x.d.len() - 1]); }
    assert forall|u: int| 0 <= u < n && onst(#[trigger] y.st[u]) implies y.d.contains(u) by { assert(x.d.contains(u)); let q = choose|q: int| 0 <= q < x.d.len() && x.d[q] == u; assert(y.d[q] == u); }
    assert forall|t: int| 0 <= t < y.s.len() implies 0 <= #[trigger] y.s[t] < n && y.st[y.s[t]] == -3 by { if t < x.s.len() { let z = x.s[t]; } }
    assert forall|t: int, u: int| #![trigger y.s[t], y.s[u]] 0 <= t < u < y.s.len() implies y.s[t] != y.s[u] by { let z = x.s[t]; if u < x.s.len() { let z = x.s[u]; } }
    assert forall|u: int| 0 <= u < n && #[trigger] y.st[u] == -3 implies y.s.contains(u) by {
        if u == v { assert(y.s[x.s.len() as int] == v); } else { assert(x.s.contains(u)); let q = choose|q: int| 0 <= q < x.s.len() && x.s[q] == u; assert(y.s[q] == u); } }
}
proof fn tj_fin_ord(n: int, x: Tj, v: int, lv: int)
    requires tj_sets(n, x), tj_ord(n, x), topg(n, x, v)
    ensures tj_ord(n, tj5(x, v, lv))
{
    reveal(tj_sets); reveal(tj_ord);
    let y = tj5(x, v, lv);
    assert forall|i: int| 0 <= i < y.ord.len() implies 0 <= #[trigger] y.ord[i] < n && live(y.st[y.ord[i]]) && y.pos[y.ord[i]] == i by { let z = x.ord[i]; }
}
proof fn tj_fin_gray(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, lv: int)
    requires tj_sets(n, x), tj_gray(e, n, x), topg(n, x, v), 0 <= lv < x.pos[v]
    ensures tj_gray(e, n, tj5(x, v, lv)), x.g.len() >= 2
{
    reveal(tj_sets); reveal(tj_gray);
    let y = tj5(x, v, lv); let m = x.g.len() as int;
    assert forall|i: int| 0 <= i < y.g.len() implies 0 <= #[trigger] y.g[i] < n && y.st[y.g[i]] == -2 && y.pos[y.g[i]] == i + y.sb[i] && y.low[y.g[i]] == y.pos[y.g[i]] && y.lev[y.g[i]] == i by { let z = x.g[i]; }
    assert forall|i: int| 0 < i < y.g.len() implies #[trigger] tedge(e, y.g, i) by { assert(tedge(e, x.g, i)); }
    assert forall|i: int| 0 <= i < y.sb.len() implies 0 <= #[trigger] y.sb[i] <= y.s.len() by { let z = x.sb[i]; }
    assert forall|u: int| 0 <= u < n && #[trigger] y.st[u] == -2 implies 0 <= y.lev[u] < y.g.len() && y.g[y.lev[u]] == u by { assert(x.st[u] == -2); }
}
proof fn top_white(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int)
    requires tj_sets(n, x), tj_dfs(e, n, x), topg(n, x, v)
    ensures forall|u: int| 0 <= u < n && #[trigger] x.st[u] == -4 ==> 0 <= x.lev[u] < x.g.len() - 1
{
    reveal(tj_sets); reveal(tj_dfs);
    assert forall|u: int| 0 <= u < n && #[trigger] x.st[u] == -4 implies 0 <= x.lev[u] < x.g.len() - 1 by {
        assert(x.d.contains(u)); let q = choose|q: int| 0 <= q < x.d.len() && x.d[q] == u; let z = (x.d[q], x.d[x.d.len() - 1]); }
}
proof fn tj_fin_dfs(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, lv: int)
    requires tj_sets(n, x), tj_dfs(e, n, x), topg(n, x, v), x.g.len() >= 2
    ensures tj_dfs(e, n, tj5(x, v, lv))
{
    top_white(e, n, x, v);
    reveal(tj_sets); reveal(tj_dfs);
    let y = tj5(x, v, lv);
    assert forall|t: int, u: int| #![trigger y.d[t], y.d[u]] 0 <= t < u < y.d.len() implies y.lev[y.d[t]] <= y.lev[y.d[u]] && (y.st[y.d[u]] == -2 ==> y.lev[y.d[t]] < y.lev[y.d[u]]) by { let z = (x.d[t], x.d[u], x.d[x.d.len() - 1]); }
}
proof fn tj_fin_done(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, lv: int)
    requires tj_sets(n, x), tj_ord(n, x), tj_gray(e, n, x), tj_done(e, n, x), topg(n, x, v), 0 <= lv < x.pos[v], lowof(e, n, x, v, lv), lowhit(e, n, x, v, lv)
    ensures tj_done(e, n, tj5(x, v, lv))
{
    reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_done);
    let y = tj5(x, v, lv);
    assert(conn(e, n, v, x.ord[lv])) by {
        let a = choose|a: int| 0 <= a < n && #[trigger] e(v, a) && live(x.st[a]) && x.low[a] == lv;
        conn_refl(e, n, v); conn_step(e, n, v, v, a);
        if x.st[a] == -2 { let z = x.g[x.lev[a]]; assert(x.ord[lv] == a); } else { conn_trans(e, n, v, a, x.ord[lv]); }
    }
    assert forall|u: int| 0 <= u < n && live(#[trigger] x.st[u]) implies x.low[u] <= x.pos[u] by { if x.st[u] == -2 { let z = x.g[x.lev[u]]; } }
    assert forall|u: int| 0 <= u < n && #[trigger] y.st[u] == -3 implies 0 <= y.low[u] < y.pos[u] && conn(e, n, u, y.ord[y.low[u]]) by { if u != v { assert(x.st[u] == -3); } }
    assert forall|u: int, w: int| 0 <= u < n && 0 <= w < n && y.st[u] == -3 && #[trigger] e(u, w) implies !wht(y.st[w]) && (live(y.st[w]) ==> y.low[u] <= y.pos[w]) by { if u != v { assert(x.st[u] == -3); } let z = x.st[w]; }
}
proof fn tj_fin_zord(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, lv: int)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_zord(n, x), topg(n, x, v)
    ensures tj_zord(n, tj5(x, v, lv))
{
    reveal(tj_sets); reveal(tj_gray); reveal(tj_zord);
    let y = tj5(x, v, lv); let m = x.g.len() as int;
    assert forall|i: int, t: int| #![trigger y.g[i], y.s[t]] 0 <= i < y.g.len() && 0 <= t < y.s.len() implies if t < y.sb[i] { y.pos[y.s[t]] < y.pos[y.g[i]] } else { y.pos[y.s[t]] > y.pos[y.g[i]] } by {
        let z = x.g[i]; let zz = (x.sb[i], x.sb[m - 1]); if t < x.s.len() { let z = x.s[t]; } }
}
proof fn tj_fin_zone(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, lv: int)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_zone(e, n, x), topg(n, x, v), x.g.len() >= 2, lowof(e, n, x, v, lv)
    ensures tj_zone(e, n, tj5(x, v, lv))
{
    reveal(tj_zone);
    let y = tj5(x, v, lv); let m = x.g.len() as int; let l = x.s.len() as int;
    assert forall|t: int| 0 <= t < l implies 0 <= #[trigger] x.s[t] < n && x.s[t] != v && x.st[x.s[t]] == -3 by { reveal(tj_sets); }
    assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] x.sb[i] <= l by { reveal(tj_gray); }
    assert(x.low.len() == n) by { reveal(tj_sets); }
    assert(forall|i: int| 0 <= i < m ==> 0 <= #[trigger] x.g[i] < n) by { reveal(tj_gray); }
    assert(e(x.g[m - 2], v)) by { reveal(tj_gray); assert(tedge(e, x.g, m - 1)); }
    let h = x.g[m - 2];
    conn_refl(e, n, h); conn_step(e, n, h, h, v);
    assert(y.s[l] == v && y.low[v] == lv);
    assert forall|i: int, t: int| #[trigger] inz(y.sb, y.s.len() as int, i, t) implies conn(e, n, y.g[i], y.s[t]) && lowwit(e, y, i, t) by {
        assert(0 <= i < m - 1 && y.g[i] == x.g[i]);
        let z0 = x.sb[i];
        if t == l {
            if i + 1 < m - 1 { let z = x.sb[i + 1]; }
            assert(i == m - 2);
            assert(inz(y.sb, y.s.len() as int, i, l) && e(y.g[i], y.s[l]));
            assert(lowwit(e, y, i, t));
        } else if i == m - 2 && t >= x.sb[m - 1] {
            assert(inz(x.sb, l, m - 1, t));
            let q = choose|q: int| #[trigger] inz(x.sb, l, m - 1, q) && e(x.g[m - 1], x.s[q]) && x.low[x.s[q]] <= x.low[x.s[t]];
            let z = (x.s[q], x.s[t]);
            assert(lv <= x.low[x.s[q]]);
            conn_trans(e, n, h, v, x.s[t]);
            assert(y.low[y.s[t]] == x.low[x.s[t]]);
            assert(x.sb[m - 2] <= l);
            assert(inz(y.sb, y.s.len() as int, i, l) && e(y.g[i], y.s[l]));
            assert(lowwit(e, y, i, t));
        } else {
            assert(inz(x.sb, l, i, t));
            let q = choose|q: int| #[trigger] inz(x.sb, l, i, q) && e(x.g[i], x.s[q]) && x.low[x.s[q]] <= x.low[x.s[t]];
            let z = (x.s[q], x.s[t]);
            assert(inz(y.sb, y.s.len() as int, i, q) && e(y.g[i], y.s[q]));
            assert(y.low[y.s[q]] == x.low[x.s[q]] && y.low[y.s[t]] == x.low[x.s[t]]);
            assert(lowwit(e, y, i, t));
        }
    }
}
pub proof fn tj_topg(e: spec_fn(int, int) -> bool, n: int, x: Tj)
    requires tj(e, n, x, -1), x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -2
    ensures topg(n, x, x.d[x.d.len() - 1])
{
    tj_top(e, n, x, -1);
    reveal(tj); reveal(tj_sets); reveal(tj_gray); reveal(tj_ord);
    let z = (x.g[x.g.len() - 1], x.sb[x.g.len() - 1]);
}
pub proof fn tj_finish(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, lv: int)
    requires tj(e, n, x, -1), topg(n, x, v), 0 <= lv < x.pos[v], lowof(e, n, x, v, lv), lowhit(e, n, x, v, lv)
    ensures tj(e, n, tj5(x, v, lv), -1)
{
    reveal(tj);
    tj_fin_sets(n, x, v, lv); tj_fin_ord(n, x, v, lv); tj_fin_gray(e, n, x, v, lv); tj_fin_dfs(e, n, x, v, lv);
    tj_fin_done(e, n, x, v, lv); tj_fin_zord(e, n, x, v, lv); tj_fin_zone(e, n, x, v, lv);
    let y = tj5(x, v, lv);
    assert(tj_out(e, n, y, -1)) by { reveal(tj_sets); reveal(tj_out); assert forall|u: int, w: int| 0 <= u < n && 0 <= w < n && y.st[u] == -2 && #[trigger] e(u, w) && wht(y.st[w]) implies y.st[w] == -4 && y.lev[w] >= y.lev[u] by { assert(x.st[u] == -2); } }
    assert(tj_comps(e, n, y)) by { reveal(tj_sets); reveal(tj_comps); assert forall|c: int| 0 <= c < y.roots.len() implies 0 <= #[trigger] y.roots[c] < n && y.st[y.roots[c]] == c by { let z = x.roots[c]; } }
}
// finishing a root: it and everything reached after it become a component
pub open spec fn tj6(x: Tj, v: int, st2: Seq<int>) -> Tj {
    let b = x.sb[x.g.len() - 1];
    Tj { st: st2, d: x.d.drop_last(), s: x.s.take(b), ord: x.ord.take(x.pos[v]), g: x.g.drop_last(), sb: x.sb.drop_last(), roots: x.roots.push(v), ..x }
}
/// labels below the top q finished nodes
pub open spec fn zset(n: int, x: Tj, v: int, st2: Seq<int>, q: int) -> bool {
    let k = x.roots.len() as int;
    &&& st2.len() == n && st2[v] == k && 0 <= q <= x.s.len()
    &&& forall|t: int| 0 <= t < x.s.len() ==> st2[#[trigger] x.s[t]] == if t < q { -3 } else { k }
    &&& forall|u: int| 0 <= u < n && x.st[u] != -3 && u != v ==> #[trigger] st2[u] == x.st[u]
}
pub open spec fn zpt(n: int, x: Tj, v: int, st2: Seq<int>) -> bool {
    st2.len() == n && forall|u: int| 0 <= u < n ==> #[trigger] st2[u] == if live(x.st[u]) && x.pos[u] >= x.pos[v] { x.roots.len() as int } else { x.st[u] }
}
proof fn young(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_zord(n, x), topg(n, x, v)
    ensures forall|u: int| 0 <= u < n && live(#[trigger] x.st[u]) && x.pos[u] >= x.pos[v] && u != v ==> x.st[u] == -3,
        forall|t: int| 0 <= t < x.s.len() ==> (x.pos[#[trigger] x.s[t]] >= x.pos[v]) == (t >= x.sb[x.g.len() - 1]),
        forall|i: int| 0 <= i < x.g.len() - 1 ==> x.pos[#[trigger] x.g[i]] < x.pos[v],
{
    reveal(tj_sets); reveal(tj_gray); reveal(tj_zord);
    let m = x.g.len() as int;
    assert forall|i: int| 0 <= i < m - 1 implies x.pos[#[trigger] x.g[i]] < x.pos[v] by { let z = (x.sb[i], x.sb[m - 1]); }
    assert forall|u: int| 0 <= u < n && live(#[trigger] x.st[u]) && x.pos[u] >= x.pos[v] && u != v implies x.st[u] == -3 by { if x.st[u] == -2 { let z = x.g[x.lev[u]]; } }
    assert forall|t: int| 0 <= t < x.s.len() implies (x.pos[#[trigger] x.s[t]] >= x.pos[v]) == (t >= x.sb[x.g.len() - 1]) by { let z = x.g[m - 1]; }
}
proof fn zset_pt(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, st2: Seq<int>)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_zord(n, x), topg(n, x, v), zset(n, x, v, st2, x.sb[x.g.len() - 1])
    ensures zpt(n, x, v, st2)
{
    young(e, n, x, v);
    reveal(tj_sets);
    assert forall|u: int| 0 <= u < n implies #[trigger] st2[u] == if live(x.st[u]) && x.pos[u] >= x.pos[v] { x.roots.len() as int } else { x.st[u] } by {
        if x.st[u] == -3 { assert(x.s.contains(u)); let t = choose|t: int| 0 <= t < x.s.len() && x.s[t] == u; let z = x.s[t]; }
    }
}
proof fn tj_root_sets(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, st2: Seq<int>)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_zord(n, x), topg(n, x, v), zpt(n, x, v, st2)
    ensures tj_sets(n, tj6(x, v, st2))
{
    young(e, n, x, v);
    reveal(tj_sets);
    let y = tj6(x, v, st2);
    assert forall|u: int| 0 <= u < n implies -4 <= #[trigger] y.st[u] < y.roots.len() by { let z = x.st[u]; }
    assert forall|t: int| 0 <= t < y.d.len() implies 0 <= #[trigger] y.d[t] < n && onst(y.st[y.d[t]]) by { let z = (x.d[t], x.d[x.d.len() - 1]); let zz = x.st[x.d[t]]; }
    assert forall|u: int| 0 <= u < n && onst(#[trigger] y.st[u]) implies y.d.contains(u) by { assert(onst(x.st[u]) && u != v); assert(x.d.contains(u)); let q = choose|q: int| 0 <= q < x.d.len() && x.d[q] == u; assert(y.d[q] == u); }
    assert forall|t: int| 0 <= t < y.s.len() implies 0 <= #[trigger] y.s[t] < n && y.st[y.s[t]] == -3 by { let z = x.s[t]; }
    assert forall|u: int| 0 <= u < n && #[trigger] y.st[u] == -3 implies y.s.contains(u) by {
        assert(x.st[u] == -3); assert(x.s.contains(u)); let q = choose|q: int| 0 <= q < x.s.len() && x.s[q] == u; let z = x.s[q]; assert(y.s[q] == u); }
}
proof fn tj_root_ord(n: int, x: Tj, v: int, st2: Seq<int>)
    requires tj_sets(n, x), tj_ord(n, x), topg(n, x, v), zpt(n, x, v, st2)
    ensures tj_ord(n, tj6(x, v, st2))
{
    reveal(tj_sets); reveal(tj_ord);
    let y = tj6(x, v, st2);
    assert forall|i: int| 0 <= i < y.ord.len() implies 0 <= #[trigger] y.ord[i] < n && live(y.st[y.ord[i]]) && y.pos[y.ord[i]] == i by { let z = x.ord[i]; }
    assert forall|u: int| 0 <= u < n && live(#[trigger] y.st[u]) implies 0 <= y.pos[u] < y.ord.len() && y.ord[y.pos[u]] == u by { let z = x.st[u]; }
}
proof fn tj_root_gray(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, st2: Seq<int>)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_zord(n, x), topg(n, x, v), zpt(n, x, v, st2)
    ensures tj_gray(e, n, tj6(x, v, st2))
{
    young(e, n, x, v);
    reveal(tj_sets); reveal(tj_gray);
    let y = tj6(x, v, st2); let m = x.g.len() as int;
    assert forall|i: int| 0 <= i < y.g.len() implies 0 <= #[trigger] y.g[i] < n && y.st[y.g[i]] == -2 && y.pos[y.g[i]] == i + y.sb[i] && y.low[y.g[i]] == y.pos[y.g[i]] && y.lev[y.g[i]] == i by { let z = x.g[i]; let zz = x.st[z]; }
    assert forall|i: int| 0 < i < y.g.len() implies #[trigger] tedge(e, y.g, i) by { assert(tedge(e, x.g, i)); }
    assert forall|i: int| 0 <= i < y.sb.len() implies 0 <= #[trigger] y.sb[i] <= y.s.len() by { let z = (x.sb[i], x.sb[m - 1]); }
    assert forall|u: int| 0 <= u < n && #[trigger] y.st[u] == -2 implies 0 <= y.lev[u] < y.g.len() && y.g[y.lev[u]] == u by { assert(x.st[u] == -2); }
}
proof fn tj_root_dfs(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, st2: Seq<int>)
    requires tj_sets(n, x), tj_gray(e, n, x), tj_dfs(e, n, x), topg(n, x, v), zpt(n, x, v, st2)
    ensures tj_dfs(e, n, tj6(x, v, st2))
{
    top_white(e, n, x, v);
    reveal(tj_sets); reveal(tj_dfs);
    let y = tj6(x, v, st2);
    assert forall|t: int, u: int| #![trigger y.d[t], y.d[u]] 0 <= t < u < y.d.len() implies y.lev[y.d[t]] <= y.lev[y.d[u]] && (y.st[y.d[u]] == -2 ==> y.lev[y.d[t]] < y.lev[y.d[u]]) by { let z = (x.d[t], x.d[u], x.d[x.d.len() - 1]); let zz = y.st[y.d[u]]; }
    assert forall|u: int| 0 <= u < n && #[trigger] y.st[u] == -4 implies -1 <= y.lev[u] < y.g.len() && (y.lev[u] >= 0 ==> e(y.g[y.lev[u]], u)) && (y.lev[u] == -1 ==> y.g.len() == 0) by { assert(x.st[u] == -4); }
    if y.g.len() == 0 && y.d.len() > 1 {
        let w = x.d[0]; let z = x.d[x.d.len() - 1];
        assert(x.lev[w] < x.lev[v]);
        reveal(tj_gray);
        if x.st[w] == -2 { let q = x.g[x.lev[w]]; }
    }
}
proof fn tj_root_zone(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, st2: Seq<int>)
    requires tj_gray(e, n, x), tj_zone(e, n, x), topg(n, x, v)
    ensures tj_zone(e, n, tj6(x, v, st2))
{
    reveal(tj_zone);
    let y = tj6(x, v, st2); let m = x.g.len() as int; let l = x.s.len() as int;
    assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] x.sb[i] <= x.sb[m - 1] by { reveal(tj_gray); let z = (x.sb[i], x.sb[m - 1]); }
    assert(x.sb[m - 1] <= l);
    assert forall|i: int, t: int| #[trigger] inz(y.sb, y.s.len() as int, i, t) implies conn(e, n, y.g[i], y.s[t]) && lowwit(e, y, i, t) by {
        assert(0 <= i < m - 1 && y.g[i] == x.g[i]); let z = x.sb[i];
        assert(inz(x.sb, l, i, t));
        let q = choose|q: int| #[trigger] inz(x.sb, l, i, q) && e(x.g[i], x.s[q]) && x.low[x.s[q]] <= x.low[x.s[t]];
        let z1 = x.sb[i + 1];
        assert(inz(y.sb, y.s.len() as int, i, q) && y.s[q] == x.s[q] && y.s[t] == x.s[t] && e(y.g[i], y.s[q]));
        assert(lowwit(e, y, i, t));
    }
}
/// the finished nodes reached after a root have labels no smaller than its own
pub proof fn tj_low(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int)
    requires tj(e, n, x, -1), topg(n, x, v), lowof(e, n, x, v, x.pos[v])
    ensures forall|t: int| 0 <= t < x.s.len() ==> (x.low[#[trigger] x.s[t]] >= x.pos[v]) == (t >= x.sb[x.g.len() - 1])
{
    reveal(tj); young(e, n, x, v);
    let m = x.g.len() as int; let l = x.s.len() as int;
    assert forall|t: int| 0 <= t < x.s.len() implies (x.low[#[trigger] x.s[t]] >= x.pos[v]) == (t >= x.sb[m - 1]) by {
        if t >= x.sb[m - 1] {
            assert(inz(x.sb, l, m - 1, t));
            assert(lowwit(e, x, m - 1, t)) by { reveal(tj_zone); }
            let q = choose|q: int| #[trigger] inz(x.sb, l, m - 1, q) && e(x.g[m - 1], x.s[q]) && x.low[x.s[q]] <= x.low[x.s[t]];
            assert(x.st[x.s[q]] == -3 && 0 <= x.s[q] < n) by { reveal(tj_sets); let z = x.s[q]; }
        } else { reveal(tj_sets); reveal(tj_done); let z = x.st[x.s[t]]; }
    }
}
proof fn tj_back(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, u: int)
    requires tj(e, n, x, -1), topg(n, x, v), lowof(e, n, x, v, x.pos[v]), 0 <= u < n, live(x.st[u]), x.pos[u] >= x.pos[v]
    ensures conn(e, n, u, v)
    decreases x.pos[u]
{
    if u == v { conn_refl(e, n, v); } else {
        tj_low(e, n, x, v);
        assert(x.low[u] >= x.pos[v] && x.low[u] < x.pos[u] && x.low[u] >= 0 && conn(e, n, u, x.ord[x.low[u]])) by {
            reveal(tj); young(e, n, x, v); reveal(tj_sets); reveal(tj_done); assert(x.st[u] == -3); assert(x.s.contains(u)); let t = choose|t: int| 0 <= t < x.s.len() && x.s[t] == u; let z = x.s[t]; }
        let w = x.ord[x.low[u]];
        assert(0 <= w < n && live(x.st[w]) && x.pos[w] == x.low[u]) by { reveal(tj); reveal(tj_ord); let z = x.st[u]; let zz = x.ord[x.low[u]]; }
        assert(x.pos[v] >= 0);
        tj_back(e, n, x, v, w);
        conn_trans(e, n, u, w, v);
    }
}
proof fn tj_root_comps(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, st2: Seq<int>)
    requires tj(e, n, x, -1), topg(n, x, v), zpt(n, x, v, st2), lowof(e, n, x, v, x.pos[v])
    ensures tj_comps(e, n, tj6(x, v, st2))
{
    tj_low(e, n, x, v);
    let y = tj6(x, v, st2); let k = x.roots.len() as int; let m = x.g.len() as int;
    assert(tj_sets(n, x) && tj_done(e, n, x) && tj_comps(e, n, x) && tj_gray(e, n, x) && tj_zord(n, x)) by { reveal(tj); }
    young(e, n, x, v);
    assert forall|u: int| 0 <= u < n && live(#[trigger] x.st[u]) && x.pos[u] >= x.pos[v] implies conn(e, n, v, u) && conn(e, n, u, v) && (u != v ==> x.st[u] == -3 && x.low[u] >= x.pos[v]) by {
        tj_back(e, n, x, v, u);
        if u == v { conn_refl(e, n, v); } else {
            assert(x.s.contains(u)) by { reveal(tj_sets); } let t = choose|t: int| 0 <= t < x.s.len() && x.s[t] == u; let z = x.s[t];
            assert(inz(x.sb, x.s.len() as int, m - 1, t)); reveal(tj); reveal(tj_zone);
        }
    }
    reveal(tj_comps);
    assert(forall|u: int| 0 <= u < n ==> -4 <= #[trigger] x.st[u] < k) by { reveal(tj_sets); }
    assert forall|c: int| 0 <= c < y.roots.len() implies 0 <= #[trigger] y.roots[c] < n && y.st[y.roots[c]] == c by { if c < k { let z = x.roots[c]; let zz = x.st[z]; } }
    assert forall|u: int| 0 <= u < n && #[trigger] y.st[u] >= 0 implies conn(e, n, y.roots[y.st[u]], u) && conn(e, n, u, y.roots[y.st[u]]) by { let z = x.st[u]; if y.st[u] < k { assert(y.roots[y.st[u]] == x.roots[x.st[u]]); } }
    assert forall|u: int, w: int| 0 <= u < n && 0 <= w < n && y.st[u] >= 0 && #[trigger] e(u, w) implies 0 <= y.st[w] <= y.st[u] by {
        let z = (x.st[u], x.st[w]);
        if x.st[u] < 0 {
            if u == v { assert(!wht(x.st[w])); if live(x.st[w]) { low_le_pos(e, n, x, w); } }
            else { assert(x.st[u] == -3); assert(!wht(x.st[w]) && (live(x.st[w]) ==> x.low[u] <= x.pos[w])) by { reveal(tj_done); } }
        }
    }
}
proof fn low_le_pos(e: spec_fn(int, int) -> bool, n: int, x: Tj, w: int)
    requires tj_gray(e, n, x), tj_done(e, n, x), 0 <= w < n, live(x.st[w])
    ensures x.low[w] <= x.pos[w]
{
    reveal(tj_gray); reveal(tj_done);
    if x.st[w] == -2 { let z = x.g[x.lev[w]]; }
}
pub proof fn tj_root(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, st2: Seq<int>)
    requires tj(e, n, x, -1), topg(n, x, v), lowof(e, n, x, v, x.pos[v]), zset(n, x, v, st2, x.sb[x.g.len() - 1])
    ensures tj(e, n, tj6(x, v, st2), -1)
{
    assert(zpt(n, x, v, st2)) by { reveal(tj); zset_pt(e, n, x, v, st2); }
    tj_root_comps(e, n, x, v, st2);
    reveal(tj);
    tj_root_sets(e, n, x, v, st2); tj_root_ord(n, x, v, st2); tj_root_gray(e, n, x, v, st2); tj_root_dfs(e, n, x, v, st2); tj_root_zone(e, n, x, v, st2);
    let y = tj6(x, v, st2);
    assert(tj_out(e, n, y, -1)) by { reveal(tj_out); assert forall|u: int, w: int| 0 <= u < n && 0 <= w < n && y.st[u] == -2 && #[trigger] e(u, w) && wht(y.st[w]) implies y.st[w] == -4 && y.lev[w] >= y.lev[u] by { assert(x.st[u] == -2); let z = x.st[w]; } }
    assert(tj_done(e, n, y)) by { reveal(tj_done); reveal(tj_ord); reveal(tj_sets);
        assert forall|u: int| 0 <= u < n && #[trigger] y.st[u] == -3 implies 0 <= y.low[u] < y.pos[u] && conn(e, n, u, y.ord[y.low[u]]) by { assert(x.st[u] == -3); }
        assert forall|u: int, w: int| 0 <= u < n && 0 <= w < n && y.st[u] == -3 && #[trigger] e(u, w) implies !wht(y.st[w]) && (live(y.st[w]) ==> y.low[u] <= y.pos[w]) by { assert(x.st[u] == -3); let z = x.st[w]; } }
    assert(tj_zord(n, y)) by { reveal(tj_zord); assert forall|i: int, t: int| #![trigger y.g[i], y.s[t]] 0 <= i < y.g.len() && 0 <= t < y.s.len() implies if t < y.sb[i] { y.pos[y.s[t]] < y.pos[y.g[i]] } else { y.pos[y.s[t]] > y.pos[y.g[i]] } by { let z = (x.g[i], x.s[t]); } }
}
/// components found: the partition
pub proof fn tj_end(e: spec_fn(int, int) -> bool, n: int, x: Tj, l: Seq<usize>, same: spec_fn(int, int) -> bool)
    requires tj(e, n, x, -1), l.len() == n, forall|u: int| 0 <= u < n ==> #[trigger] l[u] == x.st[u] && x.st[u] >= 0,
        forall|u: int, v: int| #[trigger] same(u, v) == (conn(e, n, u, v) && conn(e, n, v, u))
    ensures partition(n, x.roots.len() as int, l, same)
{
    reveal(tj); reveal(tj_sets); reveal(tj_comps);
    let k = x.roots.len() as int;
    assert forall|u: int| 0 <= u < n implies 0 <= #[trigger] l[u] < k by { let z = x.st[u]; }
    assert forall|c: int| 0 <= c < k implies #[trigger] has_label(l, c) by { assert(l[x.roots[c]] == c); }
    assert forall|u: int, v: int| #![trigger l[u], l[v]] 0 <= u < n && 0 <= v < n implies (l[u] == l[v]) == same(u, v) by {
        if l[u] == l[v] { let r = x.roots[x.st[u]]; conn_trans(e, n, u, r, v); conn_trans(e, n, v, r, u); }
        if same(u, v) { tj_mono(e, n, x, u, v); tj_mono(e, n, x, v, u); }
    }
}
proof fn tj_mono(e: spec_fn(int, int) -> bool, n: int, x: Tj, u: int, v: int)
    requires tj_comps(e, n, x), 0 <= u < n, 0 <= v < n, x.st[u] >= 0, conn(e, n, u, v)
    ensures 0 <= x.st[v] <= x.st[u]
{
    reveal(tj_comps);
    let s = |w: int| 0 <= w < n && 0 <= x.st[w] <= x.st[u];
    conn_closed(e, n, s, u, v);
}
/// unseen nodes below m
pub open spec fn nwh(st: Seq<int>, m: int) -> int decreases m { if m <= 0 { 0 } else { nwh(st, m - 1) + if wht(st[m - 1]) { 1int } else { 0 } } }
pub proof fn nwh_same(st: Seq<int>, s2: Seq<int>, m: int)
    requires forall|u: int| 0 <= u < m ==> wht(st[u]) == wht(#[trigger] s2[u])
    ensures nwh(st, m) == nwh(s2, m), 0 <= nwh(st, m)
    decreases m
{
    if m > 0 { nwh_same(st, s2, m - 1); let z = s2[m - 1]; }
}
pub proof fn nwh_see(st: Seq<int>, m: int, v: int, l: int)
    requires 0 <= v < m <= st.len(), wht(st[v]), !wht(l)
    ensures nwh(st.update(v, l), m) == nwh(st, m) - 1, nwh(st, m) >= 1
    decreases m
{
    if v < m - 1 { nwh_see(st, m - 1, v, l); } else { nwh_same(st, st.update(v, l), m - 1); }
}
pub open spec fn seen(x: Tj, v: int, y: int) -> bool { wht(x.st[y]) ==> x.st[y] == -4 && x.lev[y] >= x.lev[v] }
/// y: x with v taken off the DFS stack as a root and the finished nodes above q given its component
pub open spec fn tj7(x: Tj, v: int, st2: Seq<int>, q: int) -> Tj { Tj { st: st2, d: x.d.drop_last(), s: x.s.take(q), roots: x.roots.push(v), ..x } }
pub open spec fn lowk(x: Tj, y: int, lv: int) -> bool { !wht(x.st[y]) && (live(x.st[y]) ==> lv <= x.low[y]) }
pub proof fn zset_init(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int)
    requires tj(e, n, x, -1), topg(n, x, v)
    ensures zset(n, x, v, x.st.update(v, x.roots.len() as int), x.s.len() as int), forall|t: int| 0 <= t < x.s.len() ==> 0 <= #[trigger] x.s[t] < n && x.s[t] != v && x.st[x.s[t]] == -3
{
    reveal(tj); reveal(tj_sets);
    let s2 = x.st.update(v, x.roots.len() as int);
    assert forall|t: int| 0 <= t < x.s.len() implies s2[#[trigger] x.s[t]] == -3 by { let z = x.st[x.s[t]]; }
}
pub proof fn zset_step(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, st2: Seq<int>, q: int)
    requires tj(e, n, x, -1), topg(n, x, v), zset(n, x, v, st2, q), q > 0
    ensures zset(n, x, v, st2.update(x.s[q - 1], x.roots.len() as int), q - 1)
{
    reveal(tj); reveal(tj_sets);
    let w = x.s[q - 1]; let s3 = st2.update(w, x.roots.len() as int);
    assert forall|t: int| 0 <= t < x.s.len() implies s3[#[trigger] x.s[t]] == if t < q - 1 { -3 } else { x.roots.len() as int } by { let z = (x.s[t], x.s[q - 1]); let zz = st2[x.s[t]]; }
    assert forall|u: int| 0 <= u < n && x.st[u] != -3 && u != v implies #[trigger] s3[u] == x.st[u] by { let z = st2[u]; }
}
pub proof fn zset_wht(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, st2: Seq<int>, q: int)
    requires tj(e, n, x, -1), topg(n, x, v), zset(n, x, v, st2, q)
    ensures nwh(st2, n) == nwh(x.st, n), forall|u: int| 0 <= u < n && x.st[u] != -1 ==> #[trigger] st2[u] != -1
{
    assert forall|u: int| 0 <= u < n implies wht(x.st[u]) == wht(#[trigger] st2[u]) && (x.st[u] != -1 ==> st2[u] != -1) by {
        reveal(tj); reveal(tj_sets);
        if x.st[u] == -3 { assert(x.s.contains(u)); let t = choose|t: int| 0 <= t < x.s.len() && x.s[t] == u; let z = st2[x.s[t]]; }
    }
    nwh_same(x.st, st2, n);
}
