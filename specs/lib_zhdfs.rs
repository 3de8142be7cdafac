// ---- depth-first orders ------------------------------------------------------------------------------------------------
/// u is one of the first m listed nodes
pub open spec fn listed(nl: Seq<usize>, m: int, u: int) -> bool { exists|i: int| 0 <= i < m && #[trigger] nl[i] == u }
/// every neighbour of the t-th listed node is among the first i
pub open spec fn spent(e: spec_fn(int, int) -> bool, n: int, nl: Seq<usize>, t: int, i: int) -> bool { forall|x: int| 0 <= x < n && #[trigger] e(nl[t] as int, x) ==> listed(nl, i, x) }
/// the i-th listed node was entered from the q-th: the walk had nothing left to enter from any node listed in between
pub open spec fn parent(e: spec_fn(int, int) -> bool, n: int, nl: Seq<usize>, pr: Seq<Option<usize>>, i: int, q: int) -> bool {
    pr[nl[i] as int] == Some(nl[q]) && e(nl[q] as int, nl[i] as int) && forall|t: int| q < t < i ==> #[trigger] spent(e, n, nl, t, i)
}
pub open spec fn child(e: spec_fn(int, int) -> bool, n: int, nl: Seq<usize>, pr: Seq<Option<usize>>, i: int) -> bool { exists|q: int| 0 <= q < i && #[trigger] parent(e, n, nl, pr, i, q) }
/// the first m nodes of nl are a depth-first preorder of exactly what s reaches, and pr its parents
pub open spec fn dfs_out(e: spec_fn(int, int) -> bool, n: int, s: int, nl: Seq<usize>, m: int, pr: Seq<Option<usize>>) -> bool {
    &&& 1 <= m <= nl.len() && nl[0] == s && pr.len() == n
    &&& forall|i: int| 0 <= i < m ==> #[trigger] nl[i] < n
    &&& forall|i: int, k: int| #![trigger nl[i], nl[k]] 0 <= i < k < m ==> nl[i] != nl[k]
    &&& forall|i: int| 1 <= i < m ==> #[trigger] child(e, n, nl, pr, i)
    &&& pr[s] is None
    &&& forall|u: int| 0 <= u < n && !listed(nl, m, u) ==> (#[trigger] pr[u]) is None
    &&& forall|u: int| 0 <= u < n ==> #[trigger] listed(nl, m, u) == conn(e, n, s, u)
}
/// the same about another edge relation and another list that agree with these
pub proof fn dfs_same(e: spec_fn(int, int) -> bool, f: spec_fn(int, int) -> bool, n: int, s: int, nl: Seq<usize>, l2: Seq<usize>, m: int, pr: Seq<Option<usize>>)
    requires dfs_out(e, n, s, nl, m, pr), same_rel(e, f, n), l2.len() >= m, forall|i: int| 0 <= i < m ==> nl[i] == #[trigger] l2[i]
    ensures dfs_out(f, n, s, l2, m, pr)
{
    conn_same(e, f, n);
    assert forall|i: int, u: int| 0 <= i <= m && listed(nl, i, u) implies #[trigger] listed(l2, i, u) by { let k = choose|k: int| 0 <= k < i && #[trigger] nl[k] == u; assert(l2[k] == u); }
    assert forall|i: int, u: int| 0 <= i <= m && #[trigger] listed(l2, i, u) implies listed(nl, i, u) by { let k = choose|k: int| 0 <= k < i && #[trigger] l2[k] == u; assert(nl[k] == u); }
    assert forall|i: int| 0 <= i < m implies #[trigger] l2[i] < n by { let z = nl[i]; }
    assert forall|i: int, k: int| #![trigger l2[i], l2[k]] 0 <= i < k < m implies l2[i] != l2[k] by { let z = (nl[i], nl[k]); }
    assert forall|i: int| 1 <= i < m implies #[trigger] child(f, n, l2, pr, i) by {
        assert(child(e, n, nl, pr, i));
        let q = choose|q: int| 0 <= q < i && #[trigger] parent(e, n, nl, pr, i, q);
        assert(l2[q] == nl[q] && l2[i] == nl[i]);
        assert forall|t: int| q < t < i implies #[trigger] spent(f, n, l2, t, i) by {
            assert(spent(e, n, nl, t, i));
            assert(l2[t] == nl[t]);
            assert forall|x: int| 0 <= x < n && #[trigger] f(l2[t] as int, x) implies listed(l2, i, x) by { assert(e(nl[t] as int, x)); assert(listed(nl, i, x)); }
        }
        assert(e(nl[q] as int, nl[i] as int));
        assert(parent(f, n, l2, pr, i, q));
    }
    assert forall|u: int| 0 <= u < n ==> #[trigger] listed(l2, m, u) == conn(f, n, s, u) by { }
}
// what the walk keeps: st gives each listed node's position (-1 for the others)
pub open spec fn spentp(e: spec_fn(int, int) -> bool, n: int, v: int, st: Seq<int>, i: int) -> bool { forall|x: int| 0 <= x < n && #[trigger] e(v, x) ==> 0 <= st[x] < i }
pub open spec fn parentp(e: spec_fn(int, int) -> bool, n: int, nl: Seq<usize>, st: Seq<int>, pr: Seq<Option<usize>>, i: int, q: int) -> bool {
    pr[nl[i] as int] == Some(nl[q]) && e(nl[q] as int, nl[i] as int) && forall|t: int| q < t < i ==> spentp(e, n, #[trigger] nl[t] as int, st, i)
}
pub open spec fn childp(e: spec_fn(int, int) -> bool, n: int, nl: Seq<usize>, st: Seq<int>, pr: Seq<Option<usize>>, i: int) -> bool { exists|q: int| 0 <= q < i && #[trigger] parentp(e, n, nl, st, pr, i, q) }
pub open spec fn walk(e: spec_fn(int, int) -> bool, n: int, s: int, nl: Seq<usize>, m: int, st: Seq<int>, pr: Seq<Option<usize>>) -> bool {
    &&& 1 <= m <= n && nl.len() == n && nl[0] == s && st.len() == n && pr.len() == n && 0 <= s < n
    &&& forall|i: int| 0 <= i < m ==> #[trigger] nl[i] < n && st[nl[i] as int] == i
    &&& forall|u: int| 0 <= u < n ==> -1 <= #[trigger] st[u] < m && (st[u] >= 0 ==> nl[st[u]] == u && conn(e, n, s, u))
    &&& forall|i: int| 1 <= i < m ==> #[trigger] childp(e, n, nl, st, pr, i)
    &&& pr[s] is None
    &&& forall|u: int| 0 <= u < n && st[u] < 0 ==> (#[trigger] pr[u]) is None
    &&& nneg(st, n) == n - m
}
/// the nodes being walked (the first top + 1 of rl), sp their positions; all other listed nodes are spent
pub open spec fn trail(e: spec_fn(int, int) -> bool, n: int, nl: Seq<usize>, m: int, st: Seq<int>, rl: Seq<usize>, sp: Seq<int>) -> bool {
    &&& sp.len() <= m && rl.len() == n
    &&& forall|k: int| 0 <= k < sp.len() ==> k <= #[trigger] sp[k] < m && rl[k] == nl[sp[k]]
    &&& forall|k: int, l: int| #![trigger sp[k], sp[l]] 0 <= k < l < sp.len() ==> sp[k] < sp[l]
    &&& forall|t: int| 0 <= t < m ==> sp.contains(t) || spentp(e, n, #[trigger] nl[t] as int, st, m)
}
pub proof fn walk_start(e: spec_fn(int, int) -> bool, n: int, s: int, nl: Seq<usize>, st: Seq<int>, pr: Seq<Option<usize>>, rl: Seq<usize>)
    requires 0 <= s < n, nl.len() == n, rl.len() == n, nl[0] == s, rl[0] == s, pr.len() == n, st.len() == n,
        forall|u: int| 0 <= u < n ==> (#[trigger] pr[u]) is None, forall|u: int| 0 <= u < n ==> #[trigger] st[u] == if u == s { 0int } else { -1 }
    ensures walk(e, n, s, nl, 1, st, pr), trail(e, n, nl, 1, st, rl, seq![0int])
{
    let s0 = Seq::new(n as nat, |u: int| -1int);
    nneg_all(s0, n);
    nneg_set(s0, n, s, 0);
    assert(s0.update(s, 0) =~= st);
    conn_refl(e, n, s);
    assert(seq![0int].contains(0)) by { assert(seq![0int][0] == 0); }
}
pub proof fn nneg_all(st: Seq<int>, n: int)
    requires forall|u: int| 0 <= u < n ==> #[trigger] st[u] < 0, n >= 0
    ensures nneg(st, n) == n
    decreases n
{
    if n > 0 { nneg_all(st, n - 1); }
}
proof fn nneg_some(st: Seq<int>, n: int, u: int)
    requires 0 <= u < n, st[u] < 0
    ensures nneg(st, n) >= 1
    decreases n
{
    nneg_same(st, st, n - 1);
    if u < n - 1 { nneg_some(st, n - 1, u); }
}
/// an unlisted node leaves room in the list
pub proof fn walk_room(e: spec_fn(int, int) -> bool, n: int, s: int, nl: Seq<usize>, m: int, st: Seq<int>, pr: Seq<Option<usize>>, c: int)
    requires walk(e, n, s, nl, m, st, pr), 0 <= c < n, st[c] < 0
    ensures m < n
{
    nneg_some(st, n, c);
}
pub proof fn walk_push(e: spec_fn(int, int) -> bool, n: int, s: int, nl: Seq<usize>, m: int, st: Seq<int>, pr: Seq<Option<usize>>, rl: Seq<usize>, sp: Seq<int>, c: int)
    requires walk(e, n, s, nl, m, st, pr), trail(e, n, nl, m, st, rl, sp), sp.len() > 0, 0 <= c < n, st[c] < 0, e(rl[sp.len() - 1] as int, c), n <= usize::MAX
    ensures m < n, walk(e, n, s, nl.update(m, c as usize), m + 1, st.update(c, m), pr.update(c, Some(rl[sp.len() - 1]))),
        trail(e, n, nl.update(m, c as usize), m + 1, st.update(c, m), rl.update(sp.len() as int, c as usize), sp.push(m))
{
    nneg_some(st, n, c);
    let top = sp.len() - 1;
    let p = rl[top];
    let (n2, s2, p2, r2, k2) = (nl.update(m, c as usize), st.update(c, m), pr.update(c, Some(p)), rl.update(sp.len() as int, c as usize), sp.push(m));
    assert(p == nl[sp[top]]);
    assert(st[p as int] == sp[top]);
    nneg_set(st, n, c, m);
    conn_step(e, n, s, p as int, c);
    assert forall|i: int| 0 <= i < m + 1 implies #[trigger] n2[i] < n && s2[n2[i] as int] == i by { if i < m { let z = nl[i]; } }
    assert forall|u: int| 0 <= u < n implies -1 <= #[trigger] s2[u] < m + 1 && (s2[u] >= 0 ==> n2[s2[u]] == u && conn(e, n, s, u)) by { let z = st[u]; }
    assert forall|v: int, i: int| 0 <= i <= m && #[trigger] spentp(e, n, v, st, i) implies spentp(e, n, v, s2, i) by {
        assert forall|x: int| 0 <= x < n && #[trigger] e(v, x) implies 0 <= s2[x] < i by { let z = st[x]; } }
    assert forall|v: int| #[trigger] spentp(e, n, v, st, m) implies spentp(e, n, v, s2, m + 1) by {
        assert forall|x: int| 0 <= x < n && #[trigger] e(v, x) implies 0 <= s2[x] < m + 1 by { let z = st[x]; } }
    assert forall|i: int| 1 <= i < m + 1 implies #[trigger] childp(e, n, n2, s2, p2, i) by {
        if i < m {
            assert(childp(e, n, nl, st, pr, i));
            let q = choose|q: int| 0 <= q < i && #[trigger] parentp(e, n, nl, st, pr, i, q);
            assert(nl[i] != c && n2[i] == nl[i] && n2[q] == nl[q]);
            assert forall|t: int| q < t < i implies spentp(e, n, #[trigger] n2[t] as int, s2, i) by { assert(n2[t] == nl[t]); assert(spentp(e, n, nl[t] as int, st, i)); }
            assert(parentp(e, n, n2, s2, p2, i, q));
        } else {
            let q = sp[top];
            assert forall|t: int| q < t < m implies spentp(e, n, #[trigger] n2[t] as int, s2, m) by {
                assert(n2[t] == nl[t]);
                if sp.contains(t) { let k = choose|k: int| 0 <= k < sp.len() && sp[k] == t; assert(sp[k] <= sp[top]); }
                assert(spentp(e, n, nl[t] as int, st, m));
            }
            assert(parentp(e, n, n2, s2, p2, m, q));
        }
    }
    assert forall|u: int| 0 <= u < n && s2[u] < 0 implies (#[trigger] p2[u]) is None by { let z = pr[u]; }
    assert(st[s] == 0) by { assert(st[nl[0] as int] == 0); }
    assert(walk(e, n, s, n2, m + 1, s2, p2));
    assert forall|k: int| 0 <= k < k2.len() implies k <= #[trigger] k2[k] < m + 1 && r2[k] == n2[k2[k]] by { if k < sp.len() { let z = sp[k]; } else { assert(sp[top] >= top); } }
    assert forall|k: int, l: int| #![trigger k2[k], k2[l]] 0 <= k < l < k2.len() implies k2[k] < k2[l] by { let z = sp[k]; if l < sp.len() { let y = sp[l]; } }
    assert forall|t: int| 0 <= t < m + 1 implies k2.contains(t) || spentp(e, n, #[trigger] n2[t] as int, s2, m + 1) by {
        if t == m { assert(k2[sp.len() as int] == m); }
        else { assert(n2[t] == nl[t]);
            if sp.contains(t) { let k = choose|k: int| 0 <= k < sp.len() && sp[k] == t; assert(k2[k] == t); }
            else { assert(spentp(e, n, nl[t] as int, st, m)); } }
    }
}
pub proof fn walk_pop(e: spec_fn(int, int) -> bool, n: int, nl: Seq<usize>, m: int, st: Seq<int>, rl: Seq<usize>, sp: Seq<int>)
    requires trail(e, n, nl, m, st, rl, sp), sp.len() > 0, spentp(e, n, rl[sp.len() - 1] as int, st, m)
    ensures trail(e, n, nl, m, st, rl, sp.drop_last())
{
    let (k2, top) = (sp.drop_last(), sp.len() - 1);
    let z = sp[top];
    assert forall|k: int| 0 <= k < k2.len() implies k <= #[trigger] k2[k] < m && rl[k] == nl[k2[k]] by { let z = sp[k]; }
    assert forall|k: int, l: int| #![trigger k2[k], k2[l]] 0 <= k < l < k2.len() implies k2[k] < k2[l] by { let z = (sp[k], sp[l]); }
    assert forall|t: int| 0 <= t < m implies k2.contains(t) || spentp(e, n, #[trigger] nl[t] as int, st, m) by {
        if sp.contains(t) && !k2.contains(t) {
            let k = choose|k: int| 0 <= k < sp.len() && sp[k] == t;
            if k < top { assert(k2[k] == t); }
        }
    }
}
pub proof fn walk_done(e: spec_fn(int, int) -> bool, n: int, s: int, nl: Seq<usize>, m: int, st: Seq<int>, pr: Seq<Option<usize>>, rl: Seq<usize>, sp: Seq<int>)
    requires walk(e, n, s, nl, m, st, pr), trail(e, n, nl, m, st, rl, sp), m == n || sp.len() == 0
    ensures dfs_out(e, n, s, nl, m, pr)
{
    assert forall|u: int, i: int| 0 <= u < n && 0 <= i <= m implies #[trigger] listed(nl, i, u) == (0 <= st[u] < i) by {
        if 0 <= st[u] < i { assert(nl[st[u]] == u); }
        if listed(nl, i, u) { let k = choose|k: int| 0 <= k < i && #[trigger] nl[k] == u; assert(st[nl[k] as int] == k); }
    }
    assert forall|i: int, k: int| #![trigger nl[i], nl[k]] 0 <= i < k < m implies nl[i] != nl[k] by { assert(st[nl[i] as int] == i); assert(st[nl[k] as int] == k); }
    assert forall|i: int| 1 <= i < m implies #[trigger] child(e, n, nl, pr, i) by {
        assert(childp(e, n, nl, st, pr, i));
        let q = choose|q: int| 0 <= q < i && #[trigger] parentp(e, n, nl, st, pr, i, q);
        assert forall|t: int| q < t < i implies #[trigger] spent(e, n, nl, t, i) by {
            assert(spentp(e, n, nl[t] as int, st, i));
        }
        assert(parent(e, n, nl, pr, i, q));
    }
    if sp.len() == 0 {
        let c = |u: int| 0 <= u < n && st[u] >= 0;
        assert forall|w: int, x: int| 0 <= w < n && 0 <= x < n && c(w) && #[trigger] e(w, x) implies c(x) by {
            let t = st[w]; assert(nl[t] == w); assert(!sp.contains(t)); assert(spentp(e, n, nl[t] as int, st, m)); }
        assert(c(s)) by { assert(st[nl[0] as int] == 0); }
        assert forall|u: int| 0 <= u < n && conn(e, n, s, u) implies st[u] >= 0 by { conn_closed(e, n, c, s, u); }
    } else {
        assert forall|u: int| 0 <= u < n implies #[trigger] st[u] >= 0 by { if st[u] < 0 { nneg_some(st, n, u); } }
    }
    assert forall|u: int| 0 <= u < n implies #[trigger] listed(nl, m, u) == conn(e, n, s, u) by { let z = st[u]; }
}
/// what finding a first unlisted neighbour c of pn does
pub open spec fn found(nl0: Seq<usize>, pr0: Seq<Option<usize>>, fl0: Seq<bool>, rl0: Seq<usize>, m: int, top: int,
    nl: Seq<usize>, pr: Seq<Option<usize>>, fl: Seq<bool>, rl: Seq<usize>, pn: usize) -> bool {
    let c = nl[m];
    &&& c < fl0.len() && !fl0[c as int]
    &&& nl == nl0.update(m, c) && pr == pr0.update(c as int, Some(pn)) && fl == fl0.update(c as int, true) && rl == rl0.update(top + 1, c)
}
