@fn graph::connected_components_directed
@props C20
@items graph::Node
@uses graph::Node@PartialOrd::partial_cmp
@map 0 Node ; usize
requires vpm is Label && vpm->Label_0 <= n - 1 ensures vpo == n - 1 - vpm->Label_0
@sub lowlinks![labels] ==> labels
@sub stack_f![ss] ==> ss
@extra
pub open spec fn dn(s: Seq<int>, t: int) -> Node { if t <= 0 { Node::End } else { Node::Label(s[t - 1] as usize) } }
pub open spec fn up(s: Seq<int>, t: int) -> Node { if t + 1 >= s.len() { Node::End } else { Node::Label(s[t + 1] as usize) } }
pub open spec fn hd(s: Seq<int>) -> Node { dn(s, s.len() as int) }
pub open spec fn lk(a: Seq<Node>, s: Seq<int>, t: int) -> bool { a[s[t]] == dn(s, t) }
pub open spec fn ul(b: Seq<Node>, s: Seq<int>, t: int) -> bool { b[s[t]] == up(s, t) }
/// the arrays hold the two stacks
#[verifier::opaque]
pub open spec fn phys(n: int, a: Seq<Node>, b: Seq<Node>, x: Tj) -> bool {
    &&& tj_sets(n, x) && a.len() == n && b.len() == n && n <= usize::MAX
    &&& forall|t: int| 0 <= t < x.d.len() ==> #[trigger] lk(a, x.d, t)
    &&& forall|t: int| 0 <= t < x.d.len() ==> #[trigger] ul(b, x.d, t)
    &&& forall|t: int| 0 <= t < x.s.len() ==> #[trigger] lk(a, x.s, t)
    &&& forall|u: int| 0 <= u < n && (#[trigger] x.st[u] == -1 || x.st[u] >= 0) ==> a[u] == Node::Void
}
pub open spec fn nlab(n: int, c: int, low: int) -> Node { if wht(c) { Node::Void } else if c < 0 { Node::Label(low as usize) } else { Node::Label((n - 1 - c) as usize) } }
pub open spec fn labs(n: int, l: Seq<Node>, x: Tj) -> bool { l.len() == n && forall|u: int| 0 <= u < n ==> #[trigger] l[u] == nlab(n, x.st[u], x.low[u]) }
pub open spec fn lbl(n: int, k: int) -> Node { if k < n { Node::Label((n - 1 - k) as usize) } else { Node::Void } }
pub proof fn phys_start(e: spec_fn(int, int) -> bool, n: int, a: Seq<Node>, b: Seq<Node>, x: Tj, v: int)
    requires phys(n, a, b, x), tj(e, n, x, -1), x.d.len() == 0, 0 <= v < n, x.st[v] == -1
    ensures phys(n, a.update(v, Node::End), b.update(v, Node::End), tj1(x, v))
{
    tj_start(e, n, x, v); tj_idle(e, n, x);
    reveal(tj); reveal(phys);
    let y = tj1(x, v); let a2 = a.update(v, Node::End); let b2 = b.update(v, Node::End);
    assert(x.st.len() == n && x.lev.len() == n) by { reveal(tj_sets); }
    assert forall|t: int| 0 <= t < y.d.len() implies #[trigger] lk(a2, y.d, t) && ul(b2, y.d, t) by { assert(t == 0 && y.d[0] == v); }
    assert forall|u: int| 0 <= u < n && (#[trigger] y.st[u] == -1 || y.st[u] >= 0) implies a2[u] == Node::Void by { assert(u != v && y.st[u] == x.st[u]); }
}
/// where a node sits on the DFS stack
pub open spec fn tix(x: Tj, w: int) -> int { choose|t: int| 0 <= t < x.d.len() && #[trigger] x.d[t] == w }
pub proof fn phys_at(n: int, a: Seq<Node>, b: Seq<Node>, x: Tj, w: int)
    requires phys(n, a, b, x), 0 <= w < n
    ensures !onst(x.st[w]) && x.st[w] != -3 ==> a[w] == Node::Void,
        onst(x.st[w]) ==> ({ let t = tix(x, w); 0 <= t < x.d.len() && x.d[t] == w && a[w] == dn(x.d, t) && b[w] == up(x.d, t) && a[w] != Node::Void
            && (t > 0 ==> 0 <= x.d[t - 1] < n) && (t + 1 < x.d.len() ==> 0 <= x.d[t + 1] < n) && (x.d[x.d.len() - 1] == w ==> t == x.d.len() - 1) }),
        a.len() == n, b.len() == n, x.st.len() == n, x.d.len() > 0 ==> 0 <= x.d[x.d.len() - 1] < n && onst(x.st[x.d[x.d.len() - 1]]),
        x.s.len() > 0 ==> 0 <= x.s[x.s.len() - 1] < n && x.st[x.s[x.s.len() - 1]] == -3 && a[x.s[x.s.len() - 1]] == dn(x.s, x.s.len() - 1)
{
    reveal(phys); reveal(tj_sets);
    let z = (x.st[w], x.d[x.d.len() - 1], x.s[x.s.len() - 1]);
    if x.s.len() > 0 { assert(lk(a, x.s, x.s.len() - 1)); }
    if onst(x.st[w]) {
        assert(x.d.contains(w));
        let t = tix(x, w);
        if t < x.d.len() - 1 { let z = (x.d[t], x.d[x.d.len() - 1]); }
        assert(lk(a, x.d, t) && ul(b, x.d, t));
        if t > 0 { let z = x.d[t - 1]; } if t + 1 < x.d.len() { let z = x.d[t + 1]; }
    }
}
pub proof fn phys_push(n: int, a: Seq<Node>, b: Seq<Node>, x: Tj, w: int)
    requires phys(n, a, b, x), 0 <= w < n, x.st[w] == -1, x.d.len() > 0, tj_sets(n, tj3(x, w))
    ensures phys(n, a.update(w, hd(x.d)), b.update(w, Node::End).update(x.d[x.d.len() - 1], Node::Label(w as usize)), tj3(x, w))
{
    reveal(phys);
    let y = tj3(x, w); let h = x.d[x.d.len() - 1]; let a2 = a.update(w, hd(x.d)); let b2 = b.update(w, Node::End).update(h, Node::Label(w as usize));
    assert(forall|t: int| 0 <= t < x.d.len() ==> 0 <= #[trigger] x.d[t] < n && x.d[t] != w) by { reveal(tj_sets); }
    assert(forall|t: int| 0 <= t < x.s.len() ==> 0 <= #[trigger] x.s[t] < n && x.s[t] != w) by { reveal(tj_sets); }
    assert(forall|t: int| 0 <= t < x.d.len() - 1 ==> #[trigger] x.d[t] != h) by { reveal(tj_sets); let z = x.d[x.d.len() - 1]; }
    assert(x.st.len() == n) by { reveal(tj_sets); }
    assert forall|t: int| 0 <= t < y.d.len() implies #[trigger] lk(a2, y.d, t) by { if t < x.d.len() { assert(lk(a, x.d, t)); let z = x.d[t]; } }
    assert forall|t: int| 0 <= t < y.d.len() implies #[trigger] ul(b2, y.d, t) by { if t < x.d.len() { assert(ul(b, x.d, t)); let z = x.d[t]; } else { let z = x.d[x.d.len() - 1]; assert(y.d[t] == w); } }
    assert forall|t: int| 0 <= t < y.s.len() implies #[trigger] lk(a2, y.s, t) by { assert(lk(a, x.s, t)); let z = x.s[t]; }
    assert forall|u: int| 0 <= u < n && (#[trigger] y.st[u] == -1 || y.st[u] >= 0) implies a2[u] == Node::Void by { assert(x.st[u] == y.st[u]); }
}
pub proof fn phys_move(n: int, a: Seq<Node>, b: Seq<Node>, x: Tj, t: int)
    requires phys(n, a, b, x), 0 <= t < x.d.len() - 1, x.st[x.d[t]] == -4, tj_sets(n, tj4(x, t))
    ensures ({ let w = x.d[t]; let h = x.d[x.d.len() - 1];
        let b1 = if t > 0 { b.update(x.d[t - 1], up(x.d, t)) } else { b };
        phys(n, a.update(x.d[t + 1], dn(x.d, t)).update(w, hd(x.d)), b1_of(x, t, b).update(w, Node::End).update(h, Node::Label(w as usize)), tj4(x, t)) })
{
    reveal(phys);
    let y = tj4(x, t); let w = x.d[t]; let h = x.d[x.d.len() - 1]; let m = x.d.len() as int;
    let a2 = a.update(x.d[t + 1], dn(x.d, t)).update(w, hd(x.d)); let b2 = b1_of(x, t, b).update(w, Node::End).update(h, Node::Label(w as usize));
    assert(forall|q: int| 0 <= q < m ==> 0 <= #[trigger] x.d[q] < n) by { reveal(tj_sets); }
    assert(forall|q: int, r: int| #![trigger x.d[q], x.d[r]] 0 <= q < r < m ==> x.d[q] != x.d[r]) by { reveal(tj_sets); }
    assert(forall|q: int| 0 <= q < x.s.len() ==> 0 <= #[trigger] x.s[q] < n && x.st[x.s[q]] == -3) by { reveal(tj_sets); }
    assert(forall|q: int| 0 <= q < m ==> onst(x.st[#[trigger] x.d[q]])) by { reveal(tj_sets); }
    assert forall|q: int| 0 <= q < m implies #[trigger] y.d[q] == x.d[if q < t { q } else if q == m - 1 { t } else { q + 1 }] by {}
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] lk(a2, y.d, q) by {
        let r = if q < t { q } else if q == m - 1 { t } else { q + 1 };
        assert(lk(a, x.d, r)); let z = (x.d[t], x.d[t + 1], x.d[r]); if q > 0 { let z = y.d[q - 1]; } let z2 = y.d[q]; }
    assert forall|q: int| 0 <= q < y.d.len() implies #[trigger] ul(b2, y.d, q) by {
        let r = if q < t { q } else if q == m - 1 { t } else { q + 1 };
        assert(ul(b, x.d, r)); let z = (x.d[t], x.d[r], x.d[m - 1]); if t > 0 { let z = x.d[t - 1]; } if q + 1 < m { let z = y.d[q + 1]; } let z2 = y.d[q]; }
    assert forall|q: int| 0 <= q < y.s.len() implies #[trigger] lk(a2, y.s, q) by { assert(lk(a, x.s, q)); let z = x.s[q]; let zz = (x.d[t], x.d[t + 1]); }
    assert forall|u: int| 0 <= u < n && (#[trigger] y.st[u] == -1 || y.st[u] >= 0) implies a2[u] == Node::Void by { let zz = (x.d[t], x.d[t + 1]); }
}
pub open spec fn b1_of(x: Tj, t: int, b: Seq<Node>) -> Seq<Node> { if t > 0 { b.update(x.d[t - 1], up(x.d, t)) } else { b } }
pub proof fn phys_visit(e: spec_fn(int, int) -> bool, n: int, a: Seq<Node>, b: Seq<Node>, x: Tj)
    requires phys(n, a, b, x), x.d.len() > 0, x.st[x.d[x.d.len() - 1]] == -4, tj_sets(n, tj2(x))
    ensures phys(n, a, b, tj2(x))
{
    reveal(phys);
    let y = tj2(x); let v = x.d[x.d.len() - 1];
    assert(x.st.len() == n && 0 <= v < n) by { reveal(tj_sets); let z = x.d[x.d.len() - 1]; }
    assert forall|u: int| 0 <= u < n && (#[trigger] y.st[u] == -1 || y.st[u] >= 0) implies a[u] == Node::Void by { assert(x.st[u] == y.st[u]); }
}
/// taking the top off the DFS stack
pub open spec fn bpop(b: Seq<Node>, x: Tj, v: int) -> Seq<Node> { if x.d.len() > 1 { b.update(x.d[x.d.len() - 2], Node::End).update(v, Node::Void) } else { b.update(v, Node::Void) } }
pub proof fn phys_pop(n: int, a: Seq<Node>, b: Seq<Node>, x: Tj, v: int)
    requires phys(n, a, b, x), topg(n, x, v)
    ensures phys(n, a.update(v, Node::Void), bpop(b, x, v), tj7(x, v, x.st.update(v, x.roots.len() as int), x.s.len() as int))
{
    reveal(phys);
    let m = x.d.len() as int;
    let y = tj7(x, v, x.st.update(v, x.roots.len() as int), x.s.len() as int); let a2 = a.update(v, Node::Void); let b2 = bpop(b, x, v);
    assert(y.s =~= x.s);
    assert(forall|t: int| 0 <= t < m ==> 0 <= #[trigger] x.d[t] < n) by { reveal(tj_sets); }
    assert(forall|t: int| 0 <= t < m - 1 ==> #[trigger] x.d[t] != v) by { reveal(tj_sets); let z = x.d[m - 1]; }
    assert(forall|t: int| 0 <= t < m - 2 ==> #[trigger] x.d[t] != x.d[m - 2]) by { reveal(tj_sets); let z = x.d[m - 2]; }
    assert(forall|t: int| 0 <= t < x.s.len() ==> 0 <= #[trigger] x.s[t] < n && x.s[t] != v) by { reveal(tj_sets); }
    assert(x.st.len() == n) by { reveal(tj_sets); }
    assert(tj_sets(n, y)) by { reveal(tj_sets);
        assert forall|u: int| 0 <= u < n && onst(#[trigger] y.st[u]) implies y.d.contains(u) by { assert(x.d.contains(u)); let q = choose|q: int| 0 <= q < x.d.len() && x.d[q] == u; assert(y.d[q] == u); }
        assert forall|t: int| 0 <= t < y.d.len() implies 0 <= #[trigger] y.d[t] < n && onst(y.st[y.d[t]]) by { let z = x.d[t]; }
        assert forall|u: int| 0 <= u < n implies -4 <= #[trigger] y.st[u] < y.roots.len() by { let z = x.st[u]; }
    }
    assert forall|t: int| 0 <= t < y.d.len() implies #[trigger] lk(a2, y.d, t) by { assert(lk(a, x.d, t)); let z = x.d[t]; }
    assert forall|t: int| 0 <= t < y.d.len() implies #[trigger] ul(b2, y.d, t) by { assert(ul(b, x.d, t)); let z = x.d[t]; if m > 1 { let z = x.d[m - 2]; } }
    assert forall|t: int| 0 <= t < y.s.len() implies #[trigger] lk(a2, y.s, t) by { assert(lk(a, x.s, t)); let z = x.s[t]; }
    assert forall|u: int| 0 <= u < n && (#[trigger] y.st[u] == -1 || y.st[u] >= 0) implies a2[u] == Node::Void by { if u != v { assert(x.st[u] == y.st[u]); } }
}
/// taking the top off the finished ones
pub proof fn phys_spop(n: int, a: Seq<Node>, b: Seq<Node>, y: Tj, k: int)
    requires phys(n, a, b, y), y.s.len() > 0, 0 <= k < y.roots.len()
    ensures ({ let w = y.s[y.s.len() - 1]; phys(n, a.update(w, Node::Void), b, Tj { st: y.st.update(w, k), s: y.s.drop_last(), ..y }) })
{
    reveal(phys);
    let l = y.s.len() as int; let w = y.s[l - 1]; let z = Tj { st: y.st.update(w, k), s: y.s.drop_last(), ..y }; let a2 = a.update(w, Node::Void);
    assert(0 <= w < n && y.st[w] == -3 && y.st.len() == n) by { reveal(tj_sets); let q = y.s[l - 1]; }
    assert(forall|t: int| 0 <= t < y.d.len() ==> 0 <= #[trigger] y.d[t] < n && y.d[t] != w) by { reveal(tj_sets); }
    assert(forall|t: int| 0 <= t < l - 1 ==> 0 <= #[trigger] y.s[t] < n && y.s[t] != w) by { reveal(tj_sets); let q = y.s[l - 1]; }
    assert(tj_sets(n, z)) by { reveal(tj_sets);
        assert forall|u: int| 0 <= u < n && #[trigger] z.st[u] == -3 implies z.s.contains(u) by { assert(y.st[u] == -3); assert(y.s.contains(u)); let q = choose|q: int| 0 <= q < y.s.len() && y.s[q] == u; assert(z.s[q] == u); }
        assert forall|t: int| 0 <= t < z.s.len() implies 0 <= #[trigger] z.s[t] < n && z.st[z.s[t]] == -3 by { let q = y.s[t]; }
        assert forall|u: int| 0 <= u < n implies -4 <= #[trigger] z.st[u] < z.roots.len() by { let q = y.st[u]; }
    }
    assert forall|t: int| 0 <= t < z.d.len() implies #[trigger] lk(a2, z.d, t) by { assert(lk(a, y.d, t)); let q = y.d[t]; }
    assert forall|t: int| 0 <= t < z.s.len() implies #[trigger] lk(a2, z.s, t) by { assert(lk(a, y.s, t)); let q = y.s[t]; }
    assert forall|u: int| 0 <= u < n && (#[trigger] z.st[u] == -1 || z.st[u] >= 0) implies a2[u] == Node::Void by { if u != w { assert(y.st[u] == z.st[u]); } }
}
pub proof fn phys_fin(n: int, a: Seq<Node>, b: Seq<Node>, x: Tj, v: int, lv: int)
    requires phys(n, a, b, x), topg(n, x, v), tj_sets(n, tj5(x, v, lv))
    ensures phys(n, a.update(v, Node::Void).update(v, hd(x.s)), bpop(b, x, v), tj5(x, v, lv))
{
    phys_pop(n, a, b, x, v);
    reveal(phys);
    let p = tj7(x, v, x.st.update(v, x.roots.len() as int), x.s.len() as int); let y = tj5(x, v, lv);
    let a1 = a.update(v, Node::Void); let a2 = a1.update(v, hd(x.s)); let b2 = bpop(b, x, v);
    assert(p.s =~= x.s && p.d == y.d);
    assert(forall|t: int| 0 <= t < y.d.len() ==> 0 <= #[trigger] y.d[t] < n && y.d[t] != v) by { reveal(tj_sets); }
    assert(forall|t: int| 0 <= t < x.s.len() ==> 0 <= #[trigger] x.s[t] < n && x.s[t] != v) by { reveal(tj_sets); }
    assert(x.st.len() == n) by { reveal(tj_sets); }
    assert forall|t: int| 0 <= t < y.d.len() implies #[trigger] lk(a2, y.d, t) by { assert(lk(a1, p.d, t)); let q = y.d[t]; }
    assert forall|t: int| 0 <= t < y.d.len() implies #[trigger] ul(b2, y.d, t) by { assert(ul(b2, p.d, t)); }
    assert forall|t: int| 0 <= t < y.s.len() implies #[trigger] lk(a2, y.s, t) by { if t < x.s.len() { assert(lk(a1, p.s, t)); let q = x.s[t]; } }
    assert forall|u: int| 0 <= u < n && (#[trigger] y.st[u] == -1 || y.st[u] >= 0) implies a2[u] == Node::Void by { assert(u != v); assert(p.st[u] == y.st[u]); }
}
pub proof fn labs_visit(n: int, l: Seq<Node>, x: Tj)
    requires labs(n, l, x), tj_sets(n, x), x.d.len() > 0, x.ord.len() < usize::MAX
    ensures labs(n, l.update(x.d[x.d.len() - 1], Node::Label(x.ord.len() as usize)), tj2(x))
{
    let v = x.d[x.d.len() - 1]; let y = tj2(x); let l2 = l.update(v, Node::Label(x.ord.len() as usize));
    assert(x.st.len() == n && x.low.len() == n && 0 <= v < n) by { reveal(tj_sets); }
    assert forall|u: int| 0 <= u < n implies #[trigger] l2[u] == nlab(n, y.st[u], y.low[u]) by { let z = l[u]; }
}
pub proof fn seen_push(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, w: int)
    requires tj(e, n, x, v), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= w < n, x.st[w] == -1
    ensures seen(tj3(x, w), v, w), forall|y: int| 0 <= y < n && seen(x, v, y) ==> #[trigger] seen(tj3(x, w), v, y)
{
    reveal(tj); reveal(tj_sets); reveal(tj_gray);
    assert(x.st[v] == -2 && x.lev[v] == x.g.len() - 1 && v != w);
}
pub proof fn seen_move(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int, t: int)
    requires tj(e, n, x, v), x.g.len() > 0, v == x.g[x.g.len() - 1], 0 <= t < x.d.len(), x.st[x.d[t]] == -4
    ensures seen(tj4(x, t), v, x.d[t]), forall|y: int| 0 <= y < n && seen(x, v, y) ==> #[trigger] seen(tj4(x, t), v, y)
{
    reveal(tj); reveal(tj_sets); reveal(tj_gray);
    let w = x.d[t];
    assert(x.st[v] == -2 && x.lev[v] == x.g.len() - 1 && v != w && 0 <= w < n);
}
pub proof fn seen_head(e: spec_fn(int, int) -> bool, n: int, x: Tj, v: int)
    requires tj(e, n, x, v), x.g.len() > 0, v == x.g[x.g.len() - 1], x.d.len() > 0
    ensures seen(x, v, x.d[x.d.len() - 1])
{
    tj_top(e, n, x, v);
    reveal(tj); reveal(tj_sets); reveal(tj_gray);
    assert(x.lev[v] == x.g.len() - 1);
}
pub proof fn low_rng(e: spec_fn(int, int) -> bool, n: int, x: Tj, u: int)
    requires tj(e, n, x, -1), 0 <= u < n
    ensures live(x.st[u]) ==> 0 <= x.low[u] <= x.pos[u] < x.ord.len(), -4 <= x.st[u] < x.roots.len(), x.st.len() == n, x.low.len() == n
{
    reveal(tj); reveal(tj_sets); reveal(tj_ord); reveal(tj_gray); reveal(tj_done);
    let z = x.st[u];
    if x.st[u] == -2 { let i = x.lev[u]; assert(x.g[i] == u); }
}
pub proof fn labs_fin(n: int, l: Seq<Node>, x: Tj, v: int, lv: int)
    requires labs(n, l, x), tj_sets(n, x), 0 <= v < n
    ensures labs(n, l.update(v, Node::Label(lv as usize)), tj5(x, v, lv))
{
    let y = tj5(x, v, lv); let l2 = l.update(v, Node::Label(lv as usize));
    assert(x.st.len() == n && x.low.len() == n) by { reveal(tj_sets); }
    assert forall|u: int| 0 <= u < n implies #[trigger] l2[u] == nlab(n, y.st[u], y.low[u]) by { let z = l[u]; }
}
@sig
requires n < usize::MAX, wf(n as int, n as int, indptr@, indices@),
ensures partition(n as int, res.0 as int, res.1@, strongly(n as int, indptr@, indices@)),
@pre 0
    let ghost e = dirg(indptr@, indices@);
    let ghost gn = n as int;
    let ghost mut x: Tj = tj0(gn);
    proof { tj_init(e, gn); ptr_all(gn, indptr@);
        assert(phys(gn, ss@, stack_b@, x)) by { reveal(phys); reveal(tj); } }
@loop 0
invariant tj(e, gn, x, -1), phys(gn, ss@, stack_b@, x), labs(gn, labels@, x), x.d.len() == 0, x.ord.len() == 0, x.s.len() == 0, x.roots.len() <= gn,
    ss_head == Node::End, index == 0, label == lbl(gn, x.roots.len() as int), forall|u: int| 0 <= u < v ==> #[trigger] x.st[u] != -1,
@top 0
    let ghost gv = v as int;
    proof { tj_idle(e, gn, x); phys_at(gn, ss@, stack_b@, x, gv); }
    let ghost (ga0, gb0) = (ss@, stack_b@);
@pre 1
    proof {
        tj_start(e, gn, x, gv); phys_start(e, gn, ga0, gb0, x, gv);
        x = tj1(x, gv);
        assert(x.d.drop_last() =~= Seq::<int>::empty());
    }
@loop 1
invariant tj(e, gn, x, -1), phys(gn, ss@, stack_b@, x), labs(gn, labels@, x), x.roots.len() <= gn,
    stack_head == hd(x.d), ss_head == hd(x.s), index == x.ord.len(), label == lbl(gn, x.roots.len() as int), forall|u: int| 0 <= u <= gv ==> #[trigger] x.st[u] != -1,
decreases 2 * nwh(x.st, gn) + x.g.len(),
@top 1
    let ghost gx = x;
    let ghost (ga, gb, gl) = (ss@, stack_b@, labels@);
    let ghost gw: int = x.d[x.d.len() - 1];
    let ghost mut glv: int = 0;
    proof {
        assert(x.d.len() > 0);
        tj_top(e, gn, x, -1); phys_at(gn, ss@, stack_b@, x, gw); tj_room(e, gn, x, -1);
        nwh_same(x.st, x.st, gn);
        if x.st[gw] == -2 { tj_topg(e, gn, x); tj_ready(e, gn, x); }
        assert(0 <= gw < gn) by { reveal(tj); reveal(tj_sets); }
        if x.d.len() > 1 { assert(0 <= x.d[x.d.len() - 2] < gn && x.d[x.d.len() - 2] != gw) by { reveal(tj); reveal(tj_sets); let z = x.d[x.d.len() - 2]; } }
    }
@pre 2
    proof {
        tj_visit(e, gn, x);
        assert(tj_sets(gn, tj2(x))) by { reveal(tj); }
        phys_visit(e, gn, ss@, stack_b@, x);
        nwh_see(x.st, gn, gw, -2);
        assert(tj_sets(gn, x)) by { reveal(tj); }
        labs_visit(gn, gl, x);
        x = tj2(x);
        assert(x.g[x.g.len() - 1] == gw);
        assert(labels@ =~= gl.update(gw, Node::Label(gx.ord.len() as usize)));
    }
    let ghost gx2 = x;
@loop 2
invariant tj(e, gn, x, gw), phys(gn, ss@, stack_b@, x), labs(gn, labels@, x), stack_head == hd(x.d), x.g == gx2.g, x.g.len() > 0, x.g[x.g.len() - 1] == gw, x.s == gx2.s, x.ord == gx2.ord, x.roots == gx2.roots, x.d.len() > 0,
    nwh(x.st, gn) == nwh(gx2.st, gn), forall|u: int| 0 <= u <= gv ==> #[trigger] x.st[u] != -1,
    forall|k: int| indptr[v as int].iv() <= k < j ==> #[trigger] seen(x, gw, indices[k].iv()),
@top 2
    let ghost gy = x;
    let ghost (gc, gd) = (ss@, stack_b@);
    let ghost gu = indices[j as int].iv();
    proof { seen_edge(indptr@, indices@, v as int, j as int); phys_at(gn, ss@, stack_b@, x, gu); }
@bot 2
    proof {
        assert(gu == w);
        if gy.st[gu] == -1 {
            tj_push(e, gn, gy, gw, gu); seen_push(e, gn, gy, gw, gu);
            x = tj3(gy, gu);
            assert(tj_sets(gn, x)) by { reveal(tj); }
            phys_push(gn, gc, gd, gy, gu);
            assert(0 <= gu < gn && gy.d[gy.d.len() - 1] != gu && 0 <= gy.d[gy.d.len() - 1] < gn && gy.d.len() > 0) by { reveal(tj); reveal(tj_sets); let z = gy.d[gy.d.len() - 1]; }
            assert(ss@ =~= gc.update(gu, hd(gy.d)));
            assert(stack_b@ =~= gd.update(gu, Node::End).update(gy.d[gy.d.len() - 1], Node::Label(gu as usize)));
            nwh_same(gy.st, x.st, gn);
        } else if gy.st[gu] == -4 && gu != gy.d[gy.d.len() - 1] {
            let t = tix(gy, gu);
            tj_move(e, gn, gy, gw, t); seen_move(e, gn, gy, gw, t);
            x = tj4(gy, t);
            assert(tj_sets(gn, x)) by { reveal(tj); }
            phys_move(gn, gc, gd, gy, t);
            assert(0 <= t < gy.d.len() - 1 && gy.d[t] == gu);
            assert(0 <= gu < gn && gy.d[gy.d.len() - 1] != gu && 0 <= gy.d[gy.d.len() - 1] < gn && 0 <= gy.d[t + 1] < gn && gy.d[t + 1] != gu) by { reveal(tj); reveal(tj_sets); let z = gy.d[gy.d.len() - 1]; let q = gy.d[t]; let r = gy.d[t + 1]; }
            if t > 0 { assert(0 <= gy.d[t - 1] < gn && gy.d[t - 1] != gu && gy.d[t - 1] != gy.d[gy.d.len() - 1]) by { reveal(tj); reveal(tj_sets); let z = gy.d[gy.d.len() - 1]; let q = gy.d[t]; let r = gy.d[t - 1]; } }
            assert(ss@ =~= gc.update(gy.d[t + 1], dn(gy.d, t)).update(gu, hd(gy.d)));
            assert(stack_b@ =~= b1_of(gy, t, gd).update(gu, Node::End).update(gy.d[gy.d.len() - 1], Node::Label(gu as usize)));
        } else if gy.st[gu] == -4 { seen_head(e, gn, gy, gw); }
        assert(seen(x, gw, gu));
        assert forall|k: int| indptr[v as int].iv() <= k < j + 1 implies #[trigger] seen(x, gw, indices[k].iv()) by { if k < j { assert(seen(gy, gw, indices[k].iv())); seen_edge(indptr@, indices@, v as int, k); } }
    }
@post 2
    proof {
        assert forall|y: int| 0 <= y < gn && #[trigger] e(gw, y) && wht(x.st[y]) implies x.st[y] == -4 && x.lev[y] >= x.lev[gw] by {
            occ_ex(indices@, indptr[v as int].iv(), indptr[v + 1].iv(), y); let k = choose|k: int| indptr[v as int].iv() <= k < indptr[v + 1].iv() && (#[trigger] indices@[k]).iv() == y; assert(seen(x, gw, indices[k].iv())); }
        tj_seen(e, gn, x, gw);
    }
@loop 3
invariant low_v == Node::Label(glv as usize), 0 <= glv <= x.pos[gw], root == (glv == x.pos[gw]), glv < x.pos[gw] ==> lowhit(e, gn, x, gw, glv),
    forall|k: int| indptr[v as int].iv() <= k < j ==> #[trigger] lowk(x, indices[k].iv(), glv),
@pre 3
    proof { glv = x.pos[gw]; }
@top 3
    proof { seen_edge(indptr@, indices@, v as int, j as int); }
    let ghost gu = indices[j as int].iv();
    let ghost olv = glv;
@bot 3
    proof {
        assert(e(gw, gu));
        assert(!wht(x.st[gu]));
        low_rng(e, gn, x, gu);
        assert(labels@[gu] == nlab(gn, x.st[gu], x.low[gu]));
        assert(low_w == nlab(gn, x.st[gu], x.low[gu]));
        assert(x.ord.len() + x.roots.len() <= gn && x.pos[gw] < x.ord.len());
        assert(live(x.st[gu]) ==> node_rank(low_w) == x.low[gu]);
        assert(!live(x.st[gu]) ==> node_rank(low_w) == gn - 1 - x.st[gu] && node_rank(low_w) >= x.pos[gw]);
        assert(low_v == if node_rank(low_w) < olv { low_w } else { Node::Label(olv as usize) });
        if live(x.st[gu]) && x.low[gu] < glv { glv = x.low[gu]; assert(e(gw, gu)); assert(lowhit(e, gn, x, gw, glv)); }
        assert forall|k: int| indptr[v as int].iv() <= k < j + 1 implies #[trigger] lowk(x, indices[k].iv(), glv) by { if k < j { assert(lowk(x, indices[k].iv(), olv)); } }
    }
@post 3
    proof {
        assert forall|y: int| 0 <= y < gn && #[trigger] e(gw, y) implies !wht(x.st[y]) && (live(x.st[y]) ==> glv <= x.low[y]) by {
            occ_ex(indices@, indptr[v as int].iv(), indptr[v + 1].iv(), y); let k = choose|k: int| indptr[v as int].iv() <= k < indptr[v + 1].iv() && (#[trigger] indices@[k]).iv() == y; assert(lowk(x, indices[k].iv(), glv)); }
        assert(lowof(e, gn, x, gw, glv));
    }
@pre 4
    let ghost mut y: Tj = tj7(x, gw, x.st.update(gw, x.roots.len() as int), x.s.len() as int);
    let ghost mut q: int = x.s.len() as int;
    let ghost gi = index as int;
    let ghost b: int = x.sb[x.g.len() - 1];
    let ghost k: int = x.roots.len() as int;
    proof {
        phys_pop(gn, ga, gb, x, gw);
        tj_low(e, gn, x, gw);
        assert(y.s =~= x.s);
        zset_init(e, gn, x, gw);
        assert(ss@ =~= ga.update(gw, Node::Void)); assert(stack_b@ =~= bpop(gb, x, gw));
    }
@loop 4
invariant phys(gn, ss@, stack_b@, y), y == tj7(x, gw, y.st, q), zset(gn, x, gw, y.st, q), b <= q <= x.s.len(), ss_head == hd(y.s), index == gi - (x.s.len() - q),
    labels.len() == gn, forall|u: int| 0 <= u < gn && u != gw ==> #[trigger] labels[u] == nlab(gn, y.st[u], x.low[u]), labels[gw] == Node::Label(x.pos[gw] as usize),
decreases q,
@top 4
    let ghost gy = y;
    proof { phys_at(gn, ss@, stack_b@, y, gw); phys_spop(gn, ss@, stack_b@, y, k); zset_step(e, gn, x, gw, y.st, q); let z = x.s[q - 1]; }
@bot 4
    proof {
        y = Tj { st: y.st.update(w as int, k), s: y.s.drop_last(), ..y };
        q = q - 1;
        assert(y.s =~= x.s.take(q));
    }
@post 4
    proof {
        assert(q == b);
        tj_root(e, gn, x, gw, y.st);
        zset_wht(e, gn, x, gw, y.st, q);
        let x2 = tj6(x, gw, y.st);
        assert(phys(gn, ss@, stack_b@, x2)) by { reveal(phys); reveal(tj); }
        x = x2;
    }
@bot 1
    proof {
        if gx.st[gw] == -2 && glv < gx.pos[gw] {
            tj_finish(e, gn, x, gw, glv);
            assert(tj_sets(gn, tj5(x, gw, glv))) by { reveal(tj); }
            phys_fin(gn, ga, gb, x, gw, glv);
            assert(ss@ =~= ga.update(gw, Node::Void).update(gw, hd(x.s)));
            assert(stack_b@ =~= bpop(gb, x, gw));
            nwh_same(x.st, x.st.update(gw, -3), gn);
            assert(tj_sets(gn, x)) by { reveal(tj); }
            labs_fin(gn, gl, x, gw, glv);
            assert(labels@ =~= gl.update(gw, Node::Label(glv as usize)));
            x = tj5(x, gw, glv);
        }
        tj_room(e, gn, x, -1);
    }
@post 1
    proof { assert(x.d.len() == 0); tj_idle(e, gn, x); }
@end
    proof {
        tj_idle(e, gn, x);
        let same = strongly(gn, indptr@, indices@);
        assert forall|l: Seq<usize>| l.len() == n && (forall|u: int| 0 <= u < n ==> (#[trigger] l[u]) == x.st[u]) implies #[trigger] partition(gn, x.roots.len() as int, l, same) by {
            tj_end(e, gn, x, l, same); }
        assert forall|u: int| 0 <= u < n implies (#[trigger] labels[u]) is Label && labels[u]->Label_0 == n - 1 - x.st[u] by { let z = x.st[u]; }
    }

@fn graph::connected_components
@props C17 C19 C20
@items graph::Connection
@uses csr::CSR::t ; csc::CSC::to_csr ; graph::connected_components_undirected
@sig
requires csr_ok(*csgraph),
ensures res.is_ok() == (csgraph.rows == csgraph.cols),
    res.is_ok() ==> partition(csgraph.rows as int, res->Ok_0.0 as int, res->Ok_0.1@,
        if directed && connection == Connection::Strong { strongly(csgraph.rows as int, csgraph.rowptr@, csgraph.colidx@) } else { weakly(csgraph.rows as int, csgraph.rowptr@, csgraph.colidx@) }),
@after to_csr 0
    proof {
        let gn = csgraph.rows as int;
        let (p, j, p2, j2) = (csgraph.rowptr@, csgraph.colidx@, csgraph_t.rowptr@, csgraph_t.colidx@);
        assert forall|u: int, v: int| 0 <= u < gn && 0 <= v < gn implies #[trigger] occl(p2, j2, u, v) == occl(p, j, v, u) by {
            vals_occ(j2, csgraph_t.values@, p2[u].iv(), p2[u + 1].iv(), v);
            vals_occ(j, csgraph.values@, p[v].iv(), p[v + 1].iv(), u);
            assert(csr_vals(csgraph_t, u, v) == csr_vals(*csgraph, v, u));
        }
        let (tw, un) = (twog(p, j, p2, j2), undg(p, j));
        assert forall|u: int, v: int| 0 <= u < gn && 0 <= v < gn implies #[trigger] tw(u, v) == un(u, v) by { assert(occl(p2, j2, u, v) == occl(p, j, v, u)); }
        conn_same(tw, un, gn);
        assert forall|k: int, l: Seq<usize>| #[trigger] partition(gn, k, l, joined(gn, p, j, p2, j2)) implies partition(gn, k, l, weakly(gn, p, j)) by {
            let (sa, sb) = (joined(gn, p, j, p2, j2), weakly(gn, p, j));
            assert forall|u: int, v: int| #![trigger l[u], l[v]] 0 <= u < gn && 0 <= v < gn implies (l[u] == l[v]) == sb(u, v) by { assert((l[u] == l[v]) == sa(u, v)); }
        }
    }
