@fn graph::cs_graph_components
@props C22
@rlimit 400
@sub Integer + num_traits::Signed ==> Integer
@extra
/// the unseen nodes (flag -1) are the negative ones
pub open spec fn wst<F: Integer>(fl: Seq<F>) -> Seq<int> { Seq::new(fl.len(), |u: int| if fl[u].iv() == -1 { -1int } else { 0 }) }
pub proof fn wst_set<F: Integer>(fl: Seq<F>, n: int, v: int, x: F)
    requires 0 <= v < n <= fl.len(), fl[v].iv() == -1, x.iv() != -1
    ensures nneg(wst(fl.update(v, x)), n) == nneg(wst(fl), n) - 1, nneg(wst(fl), n) >= 1
{
    assert(wst(fl.update(v, x)) =~= wst(fl).update(v, 0));
    nneg_set(wst(fl), n, v, 0);
}
pub proof fn wst_none<F: Integer>(fl: Seq<F>, n: int)
    requires n <= fl.len(), forall|u: int| 0 <= u < n ==> (#[trigger] fl[u]).iv() != -1
    ensures nneg(wst(fl), n) == 0
    decreases n
{
    if n > 0 { let z = fl[n - 1]; wst_none(fl, n - 1); }
}
pub proof fn wst_zero<F: Integer>(fl: Seq<F>, n: int, u: int)
    requires n <= fl.len(), nneg(wst(fl), n) == 0, 0 <= u < n
    ensures fl[u].iv() != -1
    decreases n
{
    nneg_same(wst(fl), wst(fl), n - 1);
    if u < n - 1 { wst_zero(fl, n - 1, u); }
}
pub proof fn wst_some<F: Integer>(fl: Seq<F>, n: int, u: int)
    requires n <= fl.len(), 0 <= u < n, fl[u].iv() == -1
    ensures nneg(wst(fl), n) >= 1
    decreases n
{
    nneg_same(wst(fl), wst(fl), n - 1);
    if u < n - 1 { wst_some(fl, n - 1, u); }
}
/// the first l components are complete, component l is being collected in pos[0..m], all neighbours of its first d nodes are in
#[verifier::opaque]
pub open spec fn bfs<I: Integer, F: Integer>(e: spec_fn(int, int) -> bool, n: int, p: Seq<I>, fl: Seq<F>, l: int, roots: Seq<int>, pos: Seq<I>, d: int, m: int) -> bool {
    &&& fl.len() == n && pos.len() == n && 0 <= d <= m <= n
    &&& l <= roots.len() <= l + 1
    &&& forall|c: int| 0 <= c < roots.len() ==> 0 <= #[trigger] roots[c] < n && fl[roots[c]].iv() == c
    &&& forall|u: int| 0 <= u < n ==> -2 <= (#[trigger] fl[u]).iv() < roots.len() && ((fl[u].iv() == -2) == (p[u].iv() == p[u + 1].iv()))
    &&& forall|u: int| 0 <= u < n && (#[trigger] fl[u]).iv() >= 0 ==> conn(e, n, roots[fl[u].iv()], u)
    &&& forall|u: int, v: int| 0 <= u < n && 0 <= v < n && 0 <= fl[u].iv() < l && #[trigger] e(u, v) ==> fl[v].iv() == fl[u].iv()
    &&& forall|k: int| 0 <= k < m ==> 0 <= (#[trigger] pos[k]).iv() < n && fl[pos[k].iv()].iv() == l
    &&& forall|u: int| 0 <= u < n && (#[trigger] fl[u]).iv() == l ==> inpos(pos, m, u)
    &&& forall|k: int, v: int| 0 <= k < d && 0 <= v < n && #[trigger] e(pos[k].iv(), v) ==> fl[v].iv() == l
}
pub open spec fn inpos<I: Integer>(pos: Seq<I>, m: int, u: int) -> bool { exists|k: int| 0 <= k < m && (#[trigger] pos[k]).iv() == u }
pub proof fn bfs_push<I: Integer, F: Integer>(e: spec_fn(int, int) -> bool, n: int, p: Seq<I>, fl: Seq<F>, l: int, roots: Seq<int>, pos: Seq<I>, d: int, m: int, v: I, x: F)
    requires bfs(e, n, p, fl, l, roots, pos, d, m), m < n, d < m, roots.len() == l + 1, 0 <= v.iv() < n, fl[v.iv()].iv() == -1, x.iv() == l, e(pos[d].iv(), v.iv()), l >= 0
    ensures bfs(e, n, p, fl.update(v.iv(), x), l, roots, pos.update(m, v), d, m + 1)
{
    reveal(bfs);
    let (f2, q2, w) = (fl.update(v.iv(), x), pos.update(m, v), v.iv());
    let u0 = pos[d].iv();
    assert(fl[u0].iv() == l);
    conn_step(e, n, roots[l], u0, w);
    assert forall|c: int| 0 <= c < roots.len() implies 0 <= #[trigger] roots[c] < n && f2[roots[c]].iv() == c by { let z = fl[roots[c]]; }
    assert forall|u: int| 0 <= u < n implies -2 <= (#[trigger] f2[u]).iv() < roots.len() && ((f2[u].iv() == -2) == (p[u].iv() == p[u + 1].iv())) by { let z = fl[u]; }
    assert forall|u: int| 0 <= u < n && (#[trigger] f2[u]).iv() >= 0 implies conn(e, n, roots[f2[u].iv()], u) by { let z = fl[u]; }
    assert forall|u: int, y: int| 0 <= u < n && 0 <= y < n && 0 <= f2[u].iv() < l && #[trigger] e(u, y) implies f2[y].iv() == f2[u].iv() by { let z = (fl[u], fl[y]); }
    assert forall|k: int| 0 <= k < m + 1 implies 0 <= (#[trigger] q2[k]).iv() < n && f2[q2[k].iv()].iv() == l by { if k < m { let z = pos[k]; } }
    assert forall|u: int| 0 <= u < n && (#[trigger] f2[u]).iv() == l implies inpos(q2, m + 1, u) by {
        if u == w { assert(q2[m].iv() == u); } else { assert(fl[u].iv() == l); let k = choose|k: int| 0 <= k < m && (#[trigger] pos[k]).iv() == u; assert(q2[k].iv() == u); } }
    assert forall|k: int, y: int| 0 <= k < d && 0 <= y < n && #[trigger] e(q2[k].iv(), y) implies f2[y].iv() == l by { assert(q2[k] == pos[k]); assert(e(pos[k].iv(), y)); }
}
/// a neighbour of the node being expanded that has been seen is in this component
pub proof fn bfs_seen<I: Integer, F: Integer>(e: spec_fn(int, int) -> bool, n: int, p: Seq<I>, j: Seq<I>, fl: Seq<F>, l: int, roots: Seq<int>, pos: Seq<I>, d: int, m: int, v: int)
    requires bfs(e, n, p, fl, l, roots, pos, d, m), d < m, roots.len() == l + 1, 0 <= v < n, symm(e, n), e == dirg(p, j), e(pos[d].iv(), v), l >= 0
    ensures fl[v].iv() == -1 || fl[v].iv() == l
{
    reveal(bfs);
    let u = pos[d].iv();
    assert(e(v, u));
    assert(fl[u].iv() == l);
    assert(occl(p, j, v, u));
}
pub proof fn bfs_start<I: Integer, F: Integer>(e: spec_fn(int, int) -> bool, n: int, p: Seq<I>, fl: Seq<F>, l: int, roots: Seq<int>, pos: Seq<I>, v: I, x: F)
    requires bfs(e, n, p, fl, l, roots, pos, 0, 0), 0 <= v.iv() < n, fl[v.iv()].iv() == -1, x.iv() == l, roots.len() == l, l >= 0
    ensures bfs(e, n, p, fl.update(v.iv(), x), l, roots.push(v.iv()), pos.update(0, v), 0, 1)
{
    reveal(bfs);
    let (f2, q2, w, r2) = (fl.update(v.iv(), x), pos.update(0, v), v.iv(), roots.push(v.iv()));
    conn_refl(e, n, w);
    assert forall|c: int| 0 <= c < r2.len() implies 0 <= #[trigger] r2[c] < n && f2[r2[c]].iv() == c by { if c < l { let z = roots[c]; let y = fl[roots[c]]; } }
    assert forall|u: int| 0 <= u < n implies -2 <= (#[trigger] f2[u]).iv() < r2.len() && ((f2[u].iv() == -2) == (p[u].iv() == p[u + 1].iv())) by { let z = fl[u]; }
    assert forall|u: int| 0 <= u < n && (#[trigger] f2[u]).iv() >= 0 implies conn(e, n, r2[f2[u].iv()], u) by { let z = fl[u]; }
    assert forall|u: int, y: int| 0 <= u < n && 0 <= y < n && 0 <= f2[u].iv() < l && #[trigger] e(u, y) implies f2[y].iv() == f2[u].iv() by { let z = (fl[u], fl[y]); }
    assert forall|u: int| 0 <= u < n && (#[trigger] f2[u]).iv() == l implies inpos(q2, 1, u) by { let z = fl[u]; assert(q2[0].iv() == w); }
}
pub proof fn bfs_end<I: Integer, F: Integer>(e: spec_fn(int, int) -> bool, n: int, p: Seq<I>, fl: Seq<F>, l: int, roots: Seq<int>, pos: Seq<I>, m: int)
    requires bfs(e, n, p, fl, l, roots, pos, m, m), roots.len() == l + 1, l >= 0
    ensures bfs(e, n, p, fl, l + 1, roots, pos, 0, 0)
{
    reveal(bfs);
    assert forall|u: int, v: int| 0 <= u < n && 0 <= v < n && 0 <= fl[u].iv() < l + 1 && #[trigger] e(u, v) implies fl[v].iv() == fl[u].iv() by {
        if fl[u].iv() == l { let k = choose|k: int| 0 <= k < m && (#[trigger] pos[k]).iv() == u; assert(e(pos[k].iv(), v)); } }
}
pub proof fn bfs_flags<I: Integer, F: Integer>(n: int, p: Seq<I>, j: Seq<I>, fl: Seq<F>, l: int, roots: Seq<int>, pos: Seq<I>)
    requires bfs(dirg(p, j), n, p, fl, l, roots, pos, 0, 0), nneg(wst(fl), n) == 0, symm(dirg(p, j), n), roots.len() == l, l >= 0
    ensures flags_ok(n, l, fl, p, j)
{
    reveal(bfs);
    let e = dirg(p, j);
    assert forall|u: int| 0 <= u < n implies -2 <= (#[trigger] fl[u]).iv() < l && ((fl[u].iv() < 0) == (p[u].iv() == p[u + 1].iv())) by { wst_zero(fl, n, u); }
    assert forall|c: int| 0 <= c < l implies #[trigger] has_flag(fl, c) by { let z = roots[c]; assert(fl[roots[c]].iv() == c); }
    assert forall|u: int, v: int| #![trigger fl[u], fl[v]] 0 <= u < n && 0 <= v < n && fl[u].iv() >= 0 && fl[v].iv() >= 0 implies (fl[u].iv() == fl[v].iv()) == conn(e, n, u, v) by {
        if fl[u].iv() == fl[v].iv() { conn_sym(e, n, roots[fl[u].iv()], u); conn_trans(e, n, u, roots[fl[u].iv()], v); }
        if conn(e, n, u, v) {
            let s = |x: int| 0 <= x < n && fl[x].iv() == fl[u].iv();
            conn_closed(e, n, s, u, v);
        }
    }
}
pub proof fn bfs_none<I: Integer, F: Integer>(e: spec_fn(int, int) -> bool, n: int, p: Seq<I>, fl: Seq<F>, pos: Seq<I>)
    requires fl.len() == n, pos.len() == n, forall|u: int| 0 <= u < n ==> (#[trigger] fl[u]).iv() == if p[u].iv() == p[u + 1].iv() { -2int } else { -1 }
    ensures bfs(e, n, p, fl, 0, Seq::empty(), pos, 0, 0)
{
    reveal(bfs);
}
pub proof fn bfs_range<I: Integer, F: Integer>(e: spec_fn(int, int) -> bool, n: int, p: Seq<I>, fl: Seq<F>, l: int, roots: Seq<int>, pos: Seq<I>, d: int, m: int)
    requires bfs(e, n, p, fl, l, roots, pos, d, m)
    ensures fl.len() == n, pos.len() == n, 0 <= d <= m <= n, forall|u: int| 0 <= u < n ==> (#[trigger] fl[u]).iv() >= -2
{
    reveal(bfs);
}
pub proof fn bfs_at<I: Integer, F: Integer>(e: spec_fn(int, int) -> bool, n: int, p: Seq<I>, fl: Seq<F>, l: int, roots: Seq<int>, pos: Seq<I>, d: int, m: int, k: int)
    requires bfs(e, n, p, fl, l, roots, pos, d, m), 0 <= k < m
    ensures 0 <= pos[k].iv() < n, fl[pos[k].iv()].iv() == l, 0 <= d <= m <= n
{
    reveal(bfs);
    let z = pos[k];
}
pub proof fn bfs_node<I: Integer, F: Integer>(e: spec_fn(int, int) -> bool, n: int, p: Seq<I>, j: Seq<I>, fl: Seq<F>, l: int, roots: Seq<int>, pos: Seq<I>, d: int, m: int)
    requires bfs(e, n, p, fl, l, roots, pos, d, m), 0 <= d < m, e == dirg(p, j), wf(n, n, p, j),
        forall|k: int| p[pos[d].iv()].iv() <= k < p[pos[d].iv() + 1].iv() ==> fl[(#[trigger] j[k]).iv()].iv() == l
    ensures bfs(e, n, p, fl, l, roots, pos, d + 1, m)
{
    reveal(bfs);
    let u = pos[d].iv();
    assert forall|k: int, v: int| 0 <= k < d + 1 && 0 <= v < n && #[trigger] e(pos[k].iv(), v) implies fl[v].iv() == l by {
        if k == d { occ_ex(j, p[u].iv(), p[u + 1].iv(), v); }
    }
}
@sig
requires wf(n_nod as int, n_nod as int, a_p@, a_j@), old(flag).len() == n_nod, n_nod <= imx::<I>(), n_nod <= F::imax(), F::imin() <= -2, symm(dirg(a_p@, a_j@), n_nod as int),
ensures final(flag).len() == n_nod, match res { Ok(k) => flags_ok(n_nod as int, k.iv(), final(flag)@, a_p@, a_j@), Err(_) => false },
@pre 0
    let ghost e = dirg(a_p@, a_j@);
    let ghost gn = n_nod as int;
    let ghost mut roots: Seq<int> = Seq::empty();
    proof { ptr_all(gn, a_p@); }
@loop 0
invariant flag.len() == n_nod, n_stop == n_nod - ir + nneg(wst(flag@), ir as int), nneg(wst(flag@), ir as int) >= 0,
    forall|u: int| 0 <= u < ir ==> (#[trigger] flag[u]).iv() == if a_p[u].iv() == a_p[u + 1].iv() { -2int } else { -1 },
@top 0
    let ghost gf = flag@;
@bot 0
    proof { nneg_same(wst(gf), wst(flag@), ir as int); }
@post 0
    proof {
        if n_stop == 0 {
            assert forall|u: int| 0 <= u < gn implies (#[trigger] flag[u]).iv() == -2 by { wst_zero(flag@, gn, u); }
            assert(flags_ok(gn, 0, flag@, a_p@, a_j@));
        }
        bfs_none(e, gn, a_p@, flag@, pos@);
        nneg_same(wst(flag@), wst(flag@), gn);
    }
@loop 1
invariant_except_break n_tot < n_stop, icomp <= n_tot, bfs(e, gn, a_p@, flag@, icomp as int, roots, pos@, 0, 0), roots.len() == icomp, nneg(wst(flag@), gn) == n_stop - n_tot, n_stop <= n_nod,
invariant gn == n_nod, e == dirg(a_p@, a_j@), wf(gn, gn, a_p@, a_j@), symm(e, gn), n_nod <= imx::<I>(), n_nod <= F::imax(), F::imin() <= -2, n_stop <= n_nod, flag.len() == n_nod, pos.len() == n_nod,
ensures flags_ok(gn, n_comp.iv(), flag@, a_p@, a_j@),
@top 1
    let ghost gf1 = flag@;
    proof { bfs_range(e, gn, a_p@, flag@, icomp as int, roots, pos@, 0, 0); }
    let ghost gpos1 = pos@;
@loop 2
invariant ii < n_nod, forall|u: int| 0 <= u < ii ==> (#[trigger] flag[u]).iv() != -1,
decreases n_nod - ii,
@bot 2
@top 2
    proof { if ii + 1 >= n_nod { let z = flag[ii as int]; wst_none(flag@, gn); } }
@post 2
    proof { assert(flag[ii as int].iv() == -1); }
@pre 3
    proof {
        bfs_start(e, gn, a_p@, gf1, icomp as int, roots, gpos1, pos[0], flag[ii as int]);
        wst_set(gf1, gn, ii as int, flag[ii as int]);
        roots = roots.push(ii as int);
        assert(flag@ =~= gf1.update(ii as int, flag[ii as int]));
        assert(pos@ =~= gpos1.update(0, pos[0]));
    }
@loop 3
invariant_except_break n_pos >= 1 + _ii, n_pos0 < n_pos, n_pos <= n_nod,
invariant gn == n_nod, e == dirg(a_p@, a_j@), wf(gn, gn, a_p@, a_j@), symm(e, gn), n_nod <= imx::<I>(), n_nod <= F::imax(), F::imin() <= -2, n_stop <= n_nod, flag.len() == n_nod, pos.len() == n_nod, n_tot < n_stop, icomp < n_nod, n_pos == n_pos_new, n_pos0 <= n_pos, n_pos >= 1, bfs(e, gn, a_p@, flag@, icomp as int, roots, pos@, n_pos0 as int, n_pos as int), roots.len() == icomp + 1, nneg(wst(flag@), gn) == n_stop - n_tot - n_pos,
ensures n_pos0 == n_pos, bfs(e, gn, a_p@, flag@, icomp as int, roots, pos@, n_pos as int, n_pos as int),
@top 3
    proof { bfs_range(e, gn, a_p@, flag@, icomp as int, roots, pos@, n_pos0 as int, n_pos as int); }
@loop 4
invariant flag.len() == n_nod, pos.len() == n_nod, bfs(e, gn, a_p@, flag@, icomp as int, roots, pos@, ir as int, n_pos_new as int), n_pos0 <= n_pos <= n_pos_new, n_new == n_pos_new - n_pos, n_pos_new <= n_nod, nneg(wst(flag@), gn) == n_stop - n_tot - n_pos_new, n_pos >= 1,
@top 4
    proof { bfs_at(e, gn, a_p@, flag@, icomp as int, roots, pos@, ir as int, n_pos_new as int, ir as int); }
    let ghost gnode = pos[ir as int];
@loop 5
invariant flag.len() == n_nod, pos.len() == n_nod, bfs(e, gn, a_p@, flag@, icomp as int, roots, pos@, ir as int, n_pos_new as int), n_pos0 <= n_pos <= n_pos_new, n_new == n_pos_new - n_pos, n_pos_new <= n_nod, nneg(wst(flag@), gn) == n_stop - n_tot - n_pos_new,
    ir < n_pos, pos[ir as int] == gnode, gnode.iv() == pos_ir, pos_ir < n_nod, forall|k: int| start <= k < ic ==> flag[(#[trigger] a_j[k]).iv()].iv() == icomp,
@top 5
    proof {
        seen_edge(a_p@, a_j@, pos_ir as int, ic as int);
        bfs_seen(e, gn, a_p@, a_j@, flag@, icomp as int, roots, pos@, ir as int, n_pos_new as int, a_j[ic as int].iv());
        if flag[a_j[ic as int].iv()].iv() == -1 { wst_some(flag@, gn, a_j[ic as int].iv()); }
    }
    let ghost (gf5, gp5, gm5) = (flag@, pos@, n_pos_new);
@bot 5
    proof {
        if gf5[aj_ic as int].iv() == -1 {
            bfs_push(e, gn, a_p@, gf5, icomp as int, roots, gp5, ir as int, gm5 as int, a_j[ic as int], flag[aj_ic as int]);
            wst_set(gf5, gn, aj_ic as int, flag[aj_ic as int]);
            assert(flag@ =~= gf5.update(aj_ic as int, flag[aj_ic as int]));
        }
    }
@bot 4
    proof { bfs_node(e, gn, a_p@, a_j@, flag@, icomp as int, roots, pos@, ir as int, n_pos_new as int); }
@post 3
    proof { bfs_at(e, gn, a_p@, flag@, icomp as int, roots, pos@, n_pos as int, n_pos as int, 0); bfs_end(e, gn, a_p@, flag@, icomp as int, roots, pos@, n_pos as int); nneg_same(wst(flag@), wst(flag@), gn); }
    let ghost gtot = n_tot;
    proof { if gtot + n_pos == n_stop { bfs_flags(gn, a_p@, a_j@, flag@, icomp + 1, roots, pos@); } }

@fn csr::CSR::connected_components
@props C17 C22
@sub Integer + num_traits::Signed ==> Integer
@sig
requires csr_ok(*self), self.rows <= F::imax(), F::imin() <= -2, self.rows == self.cols ==> symm(dirg(self.rowptr@, self.colidx@), self.rows as int),
ensures res.is_ok() == (self.rows == self.cols),
    match res { Ok(r) => flags_ok(self.rows as int, r.0.iv(), r.1@, self.rowptr@, self.colidx@), Err(_) => true },
