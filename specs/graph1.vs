@fn graph::validate_graph
@props C17 C19 C20 C21
@sig
ensures res.is_ok() == (csgraph.rows == csgraph.cols),

@fn graph::Node::unwrap
@props C19 C20
@items graph::Node
@sig
requires self is Label,
ensures res == self->Label_0,

@fn graph::connected_components_undirected
@props C19
@items graph::Node
@map 0 Node ; usize
requires vpm is Label ensures vpo == vpm->Label_0
@sub ss![labels] ==> labels
@extra
/// the t-th stack entry points to the one below it
pub open spec fn below(labels: Seq<Node>, stk: Seq<int>, t: int) -> bool { labels[stk[t]] == if t == 0 { Node::End } else { Node::Label(stk[t - 1] as usize) } }
/// what `labels` stores for each node: st = -1 unseen, -2 on the stack, otherwise its component
pub open spec fn stack_ok(n: int, labels: Seq<Node>, st: Seq<int>, stk: Seq<int>, head: Node) -> bool {
    &&& labels.len() == n && st.len() == n && n <= usize::MAX
    &&& forall|u: int| 0 <= u < n ==> -2 <= #[trigger] st[u] <= usize::MAX
    &&& forall|u: int| 0 <= u < n ==> (#[trigger] st[u] == -1) == (labels[u] == Node::Void)
    &&& forall|u: int| 0 <= u < n && #[trigger] st[u] >= 0 ==> labels[u] == Node::Label(st[u] as usize)
    &&& forall|u: int| 0 <= u < n && #[trigger] st[u] == -2 ==> stk.contains(u)
    &&& forall|t: int| 0 <= t < stk.len() ==> 0 <= #[trigger] stk[t] < n && st[stk[t]] == -2
    &&& forall|t: int| 0 <= t < stk.len() ==> #[trigger] below(labels, stk, t)
    &&& forall|t: int, u: int| #![trigger stk[t], stk[u]] 0 <= t < u < stk.len() ==> stk[t] != stk[u]
    &&& head == if stk.len() == 0 { Node::End } else { Node::Label(stk[stk.len() - 1] as usize) }
}
pub proof fn und_push(n: int, labels: Seq<Node>, st: Seq<int>, stk: Seq<int>, head: Node, w: int)
    requires stack_ok(n, labels, st, stk, head), 0 <= w < n, st[w] == -1
    ensures stack_ok(n, labels.update(w, head), st.update(w, -2), stk.push(w), Node::Label(w as usize))
{
    let (l2, s2, k2) = (labels.update(w, head), st.update(w, -2), stk.push(w));
    assert forall|u: int| 0 <= u < n && #[trigger] s2[u] == -2 implies k2.contains(u) by {
        if u == w { assert(k2[stk.len() as int] == w); } else { assert(st[u] == -2); let t = choose|t: int| 0 <= t < stk.len() && stk[t] == u; assert(k2[t] == u); } }
    assert forall|t: int| 0 <= t < k2.len() implies #[trigger] below(l2, k2, t) by {
        if t < stk.len() { assert(below(labels, stk, t)); let z = stk[t]; } }
    assert forall|t: int| 0 <= t < k2.len() implies 0 <= #[trigger] k2[t] < n && s2[k2[t]] == -2 by { if t < stk.len() { let z = stk[t]; } }
    assert forall|t: int, u: int| #![trigger k2[t], k2[u]] 0 <= t < u < k2.len() implies k2[t] != k2[u] by { let z = stk[t]; if u < stk.len() { let y = stk[u]; } }
}
pub proof fn und_pop(n: int, labels: Seq<Node>, st: Seq<int>, stk: Seq<int>, head: Node, l: int)
    requires stack_ok(n, labels, st, stk, head), stk.len() > 0, 0 <= l <= usize::MAX
    ensures ({ let v = stk[stk.len() - 1]; 0 <= v < n && st[v] == -2 && head == Node::Label(v as usize) &&
        stack_ok(n, labels.update(v, Node::Label(l as usize)), st.update(v, l), stk.drop_last(), labels[v]) })
{
    let v = stk[stk.len() - 1];
    let (l2, s2, k2) = (labels.update(v, Node::Label(l as usize)), st.update(v, l), stk.drop_last());
    assert(below(labels, stk, stk.len() - 1));
    if k2.len() > 0 { let z = stk[stk.len() - 2]; }
    assert forall|u: int| 0 <= u < n && #[trigger] s2[u] == -2 implies k2.contains(u) by {
        assert(st[u] == -2); let t = choose|t: int| 0 <= t < stk.len() && stk[t] == u; assert(k2[t] == u); }
    assert forall|t: int| 0 <= t < k2.len() implies #[trigger] below(l2, k2, t) by { assert(below(labels, stk, t)); let z = stk[t]; }
    assert forall|t: int| 0 <= t < k2.len() implies 0 <= #[trigger] k2[t] < n && s2[k2[t]] == -2 by { let z = stk[t]; }
}
/// the components so far; the current one, l, also holds the stacked nodes, and node pv is being worked on
pub open spec fn comp_ok(e: spec_fn(int, int) -> bool, n: int, st: Seq<int>, l: int, roots: Seq<int>, pv: int) -> bool {
    &&& st.len() == n && roots.len() == l + 1
    &&& forall|k: int| 0 <= k <= l ==> 0 <= #[trigger] roots[k] < n && (st[roots[k]] == k || k == l && st[roots[k]] == -2)
    &&& forall|u: int| 0 <= u < n && 0 <= #[trigger] st[u] ==> st[u] <= l && conn(e, n, roots[st[u]], u)
    &&& forall|u: int| 0 <= u < n && #[trigger] st[u] == -2 ==> conn(e, n, roots[l], u)
    &&& forall|u: int, v: int| 0 <= u < n && 0 <= v < n && u != pv && 0 <= st[u] && #[trigger] e(u, v) ==> st[v] == st[u] || st[u] == l && st[v] == -2
}
pub proof fn comp_push(e: spec_fn(int, int) -> bool, n: int, st: Seq<int>, l: int, roots: Seq<int>, pv: int, w: int)
    requires comp_ok(e, n, st, l, roots, pv), 0 <= pv < n, st[pv] == l, 0 <= w < n, st[w] == -1, e(pv, w), l >= 0
    ensures comp_ok(e, n, st.update(w, -2), l, roots, pv)
{
    let s2 = st.update(w, -2);
    conn_step(e, n, roots[l], pv, w);
    assert forall|u: int| 0 <= u < n && #[trigger] s2[u] == -2 implies conn(e, n, roots[l], u) by { let z = st[u]; }
    assert forall|k: int| 0 <= k <= l implies 0 <= #[trigger] roots[k] < n && (s2[roots[k]] == k || k == l && s2[roots[k]] == -2) by { let z = st[roots[k]]; }
}
pub proof fn comp_pop(e: spec_fn(int, int) -> bool, n: int, st: Seq<int>, l: int, roots: Seq<int>, v: int)
    requires comp_ok(e, n, st, l, roots, -1), 0 <= v < n, st[v] == -2, l >= 0
    ensures comp_ok(e, n, st.update(v, l), l, roots, v)
{
    let s2 = st.update(v, l);
    assert forall|u: int, x: int| 0 <= u < n && 0 <= x < n && u != v && 0 <= s2[u] && #[trigger] e(u, x) implies s2[x] == s2[u] || s2[u] == l && s2[x] == -2 by { let z = st[u]; let y = st[x]; }
    assert forall|k: int| 0 <= k <= l implies 0 <= #[trigger] roots[k] < n && (s2[roots[k]] == k || k == l && s2[roots[k]] == -2) by { let z = st[roots[k]]; }
}
pub proof fn comp_done(e: spec_fn(int, int) -> bool, n: int, st: Seq<int>, l: int, roots: Seq<int>, pv: int)
    requires comp_ok(e, n, st, l, roots, pv), 0 <= pv < n, st[pv] == l, symm(e, n), forall|x: int| 0 <= x < n && #[trigger] e(pv, x) ==> st[x] != -1,
        forall|x: int| 0 <= x < n ==> #[trigger] st[x] >= -2
    ensures comp_ok(e, n, st, l, roots, -1)
{
    assert forall|u: int, v: int| 0 <= u < n && 0 <= v < n && 0 <= st[u] && #[trigger] e(u, v) implies st[v] == st[u] || st[u] == l && st[v] == -2 by {
        if u == pv { assert(st[v] != -1); if st[v] >= 0 && v != pv { assert(e(v, u)); } } }
}
@sig
requires n < usize::MAX, wf(n as int, n as int, indptr1@, indices1@), wf(n as int, n as int, indptr2@, indices2@), reversed(n as int, indptr1@, indices1@, indptr2@, indices2@),
ensures partition(n as int, res.0 as int, res.1@, joined(n as int, indptr1@, indices1@, indptr2@, indices2@)),
@pre 0
    let ghost e = twog(indptr1@, indices1@, indptr2@, indices2@);
    let ghost gn = n as int;
    let ghost mut st: Seq<int> = Seq::new(n as nat, |u: int| -1int);
    let ghost mut stk: Seq<int> = Seq::empty();
    let ghost mut roots: Seq<int> = Seq::empty();
    proof { assert forall|u: int, v: int| 0 <= u < n && 0 <= v < n implies #[trigger] e(u, v) == e(v, u) by {
        assert(occl(indptr2@, indices2@, u, v) == occl(indptr1@, indices1@, v, u)); assert(occl(indptr2@, indices2@, v, u) == occl(indptr1@, indices1@, u, v)); } }
@loop 0
invariant stack_ok(gn, labels@, st, stk, Node::End), stk.len() == 0, closed_comps(e, gn, st, label as int, roots), label <= v, forall|u: int| 0 <= u < v ==> #[trigger] st[u] != -1,
@top 0
    let ghost gv = v as int;
    let ghost zz = st[v as int];
    let ghost gl = labels@;
@pre 1
    proof {
        let s2 = st.update(v as int, -2);
        let r2 = roots.push(v as int);
        und_push(gn, gl, st, stk, Node::End, v as int);
        assert forall|k: int| 0 <= k <= label implies 0 <= #[trigger] r2[k] < n && (s2[r2[k]] == k || k == label && s2[r2[k]] == -2) by { if k < label { let z = roots[k]; let y = st[roots[k]]; } }
        assert forall|u: int| 0 <= u < n && 0 <= #[trigger] s2[u] implies s2[u] <= label && conn(e, gn, r2[s2[u]], u) by { let z = st[u]; }
        assert forall|u: int| 0 <= u < n && #[trigger] s2[u] == -2 implies conn(e, gn, r2[label as int], u) by { if u == gv { conn_refl(e, gn, gv); } else { assert(st[u] == -2); } }
        st = s2; stk = stk.push(v as int); roots = r2;
        assert(comp_ok(e, gn, st, label as int, roots, -1));
    }
@loop 1
invariant stack_ok(gn, labels@, st, stk, ss_head), comp_ok(e, gn, st, label as int, roots, -1), forall|u: int| 0 <= u <= gv ==> #[trigger] st[u] != -1,
decreases nneg(st, gn),
@pre 2
    let ghost gneg = nneg(st, gn);
    proof {
        und_pop(gn, gl1, st, stk, gh, label as int);
        comp_pop(e, gn, st, label as int, roots, v as int);
        nneg_set(st, gn, v as int, label as int);
        st = st.update(v as int, label as int); stk = stk.drop_last();
        ptr_all(gn, indptr1@); ptr_all(gn, indptr2@);
    }
@top 1
    let ghost gl1 = labels@;
    let ghost gh = ss_head;
    proof { und_pop(gn, labels@, st, stk, ss_head, label as int); }
@loop 2
invariant v < n, stack_ok(gn, labels@, st, stk, ss_head), comp_ok(e, gn, st, label as int, roots, v as int), st[v as int] == label, forall|u: int| 0 <= u <= gv ==> #[trigger] st[u] != -1,
    nneg(st, gn) == gneg - 1, forall|k: int| indptr1[v as int].iv() <= k < j ==> st[(#[trigger] indices1[k]).iv()] != -1,
@top 2
    proof { seen_edge(indptr1@, indices1@, v as int, j as int); }
    let ghost gl2 = labels@;
    let ghost gh2 = ss_head;
@bot 2
    proof { if st[w as int] == -1 {
        und_push(gn, gl2, st, stk, gh2, w as int); comp_push(e, gn, st, label as int, roots, v as int, w as int); nneg_set(st, gn, w as int, -2);
        st = st.update(w as int, -2); stk = stk.push(w as int); } }
@loop 3
invariant v < n, stack_ok(gn, labels@, st, stk, ss_head), comp_ok(e, gn, st, label as int, roots, v as int), st[v as int] == label, forall|u: int| 0 <= u <= gv ==> #[trigger] st[u] != -1,
    nneg(st, gn) == gneg - 1, forall|k: int| indptr1[v as int].iv() <= k < indptr1[v + 1].iv() ==> st[(#[trigger] indices1[k]).iv()] != -1,
    forall|k: int| indptr2[v as int].iv() <= k < j ==> st[(#[trigger] indices2[k]).iv()] != -1,
@top 3
    proof { seen_edge(indptr2@, indices2@, v as int, j as int); }
    let ghost gl2 = labels@;
    let ghost gh2 = ss_head;
@bot 3
    proof { if st[w as int] == -1 {
        und_push(gn, gl2, st, stk, gh2, w as int); comp_push(e, gn, st, label as int, roots, v as int, w as int); nneg_set(st, gn, w as int, -2);
        st = st.update(w as int, -2); stk = stk.push(w as int); } }
@bot 1
    proof {
        assert forall|x: int| 0 <= x < n && #[trigger] e(v as int, x) implies st[x] != -1 by {
            occ_ex(indices1@, indptr1[v as int].iv(), indptr1[v + 1].iv(), x); occ_ex(indices2@, indptr2[v as int].iv(), indptr2[v + 1].iv(), x); }
        comp_done(e, gn, st, label as int, roots, v as int);
    }
@post 1
    proof {
        assert(stk.len() == 0);
        assert forall|u: int| 0 <= u < n implies #[trigger] st[u] != -2 by { if st[u] == -2 { assert(stk.contains(u)); } }
        assert forall|l: int| 0 <= l < label + 1 implies 0 <= #[trigger] roots[l] < n && st[roots[l]] == l by { let z = st[roots[l]]; }
        assert(closed_comps(e, gn, st, label + 1, roots));
    }
@end
    proof {
        assert forall|u: int| 0 <= u < n implies #[trigger] st[u] >= 0 by { if st[u] == -2 { assert(stk.contains(u)); } }
        let same = joined(gn, indptr1@, indices1@, indptr2@, indices2@);
        assert forall|q: Seq<usize>| q.len() == n && (forall|u: int| 0 <= u < n ==> (#[trigger] q[u]) == st[u]) implies #[trigger] partition(gn, label as int, q, same) by {
            assert forall|c: int| 0 <= c < label implies #[trigger] has_label(q, c) by { assert(q[roots[c]] == c); }
            assert forall|u: int, v: int| #![trigger q[u], q[v]] 0 <= u < n && 0 <= v < n implies (q[u] == q[v]) == same(u, v) by { comps_partition(e, gn, st, label as int, roots, u, v); }
        }
        assert forall|u: int| 0 <= u < n implies (#[trigger] labels[u]) is Label by { let z = st[u]; }
    }
