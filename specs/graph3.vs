@fn graph::depth_first_directed
@props C21
@sig
requires head_node < old(node_list).len() < isize::MAX, old(predecessors).len() == old(node_list).len(), wf(old(node_list).len() as int, old(node_list).len() as int, indptr@, indices@),
    forall|u: int| 0 <= u < old(predecessors).len() ==> (#[trigger] old(predecessors)[u]) is None,
ensures final(node_list).len() == old(node_list).len(), final(predecessors).len() == old(predecessors).len(),
    dfs_out(dirg(indptr@, indices@), old(node_list).len() as int, head_node as int, final(node_list)@, res as int, final(predecessors)@),
@pre 0
    let ghost e = dirg(indptr@, indices@);
    let ghost gn = n as int;
    let ghost gs = head_node as int;
    let ghost gl = n;
    let ghost mut st: Seq<int> = Seq::new(n as nat, |u: int| if u == head_node { 0int } else { -1 });
    let ghost mut sp: Seq<int> = seq![0int];
    proof { walk_start(e, gn, gs, node_list@, st, predecessors@, root_list@); }
@loop 0
invariant_except_break i_root == sp.len() - 1,
invariant n < isize::MAX, gn == n, e == dirg(indptr@, indices@), wf(gn, gn, indptr@, indices@), node_list.len() == n, root_list.len() == n, predecessors.len() == n, walk(e, gn, gs, node_list@, i_nl_end as int, st, predecessors@), trail(e, gn, node_list@, i_nl_end as int, st, root_list@, sp),
    flag.len() == n, forall|u: int| 0 <= u < n ==> (#[trigger] flag[u]) == (st[u] >= 0),
ensures i_nl_end == n || sp.len() == 0,
decreases nneg(st, gn), sp.len(),
@top 0
    let ghost (nl0, pr0, fl0, rl0, ie0, ir0) = (node_list@, predecessors@, flag@, root_list@, i_nl_end, i_root);
    proof { let z = sp[i_root as int]; let y = node_list[sp[i_root as int]]; }
@loop 1
invariant_except_break no_children, node_list@ == nl0, predecessors@ == pr0, flag@ == fl0, root_list@ == rl0, i_nl_end == ie0, i_root == ir0,
    forall|k: int| indptr[pnode as int].iv() <= k < i ==> st[(#[trigger] indices[k]).iv()] >= 0,
invariant n < isize::MAX, gn == n, e == dirg(indptr@, indices@), wf(gn, gn, indptr@, indices@), pnode == rl0[ir0 as int], pnode < n, ie0 <= n, nl0.len() == n, rl0.len() == n, pr0.len() == n, fl0.len() == n, node_list.len() == n, root_list.len() == n, predecessors.len() == n, flag.len() == n,
    walk(e, gn, gs, nl0, ie0 as int, st, pr0), ir0 < ie0, ir0 >= 0, forall|u: int| 0 <= u < n ==> (#[trigger] fl0[u]) == (st[u] >= 0),
ensures no_children ==> node_list@ == nl0 && predecessors@ == pr0 && flag@ == fl0 && root_list@ == rl0 && i_nl_end == ie0 && i_root == ir0
        && forall|k: int| indptr[pnode as int].iv() <= k < indptr[pnode + 1].iv() ==> st[(#[trigger] indices[k]).iv()] >= 0,
    !no_children ==> ie0 < n && i_nl_end == ie0 + 1 && i_root == ir0 + 1 && found(nl0, pr0, fl0, rl0, ie0 as int, ir0 as int, node_list@, predecessors@, flag@, root_list@, pnode)
        && e(pnode as int, node_list[ie0 as int] as int),
@top 1
    proof {
        seen_edge(indptr@, indices@, pnode as int, i as int);
        let gc = indices[i as int].iv();
        if st[gc] < 0 { walk_room(e, gn, gs, nl0, ie0 as int, st, pr0, gc); }
        let zz = flag[gc];
    }
@pre 1
    proof { ptr_all(gn, indptr@); }
@post 1
    proof {
        if !no_children {
            let gc = node_list[ie0 as int] as int;
            walk_push(e, gn, gs, nl0, ie0 as int, st, pr0, rl0, sp, gc);
            nneg_set(st, gn, gc, ie0 as int);
            st = st.update(gc, ie0 as int); sp = sp.push(ie0 as int);
        }
    }
@bot 0
    proof {
        if no_children {
            assert(spentp(e, gn, pnode as int, st, i_nl_end as int)) by {
                assert forall|x: int| 0 <= x < n && #[trigger] e(pnode as int, x) implies 0 <= st[x] < i_nl_end by { occ_ex(indices@, indptr[pnode as int].iv(), indptr[pnode + 1].iv(), x); }
            }
            walk_pop(e, gn, nl0, ie0 as int, st, rl0, sp);
            sp = sp.drop_last();
        }
    }
@end
    proof { walk_done(e, gn, gs, node_list@, i_nl_end as int, st, predecessors@, root_list@, sp); }

@fn graph::depth_first_undirected
@props C21
@sig
requires head_node < old(node_list).len() < isize::MAX, old(predecessors).len() == old(node_list).len(), wf(old(node_list).len() as int, old(node_list).len() as int, indptr1@, indices1@), wf(old(node_list).len() as int, old(node_list).len() as int, indptr2@, indices2@),
    forall|u: int| 0 <= u < old(predecessors).len() ==> (#[trigger] old(predecessors)[u]) is None,
ensures final(node_list).len() == old(node_list).len(), final(predecessors).len() == old(predecessors).len(),
    dfs_out(twog(indptr1@, indices1@, indptr2@, indices2@), old(node_list).len() as int, head_node as int, final(node_list)@, res as int, final(predecessors)@),
@pre 0
    let ghost e = twog(indptr1@, indices1@, indptr2@, indices2@);
    let ghost gn = n as int;
    let ghost gs = head_node as int;
    let ghost gl = n;
    let ghost mut st: Seq<int> = Seq::new(n as nat, |u: int| if u == head_node { 0int } else { -1 });
    let ghost mut sp: Seq<int> = seq![0int];
    proof { walk_start(e, gn, gs, node_list@, st, predecessors@, root_list@); }
@loop 0
invariant_except_break i_root == sp.len() - 1,
invariant n < isize::MAX, gn == n, e == twog(indptr1@, indices1@, indptr2@, indices2@), wf(gn, gn, indptr1@, indices1@), wf(gn, gn, indptr2@, indices2@), node_list.len() == n, root_list.len() == n, predecessors.len() == n, walk(e, gn, gs, node_list@, i_nl_end as int, st, predecessors@), trail(e, gn, node_list@, i_nl_end as int, st, root_list@, sp),
    flag.len() == n, forall|u: int| 0 <= u < n ==> (#[trigger] flag[u]) == (st[u] >= 0),
ensures i_nl_end == n || sp.len() == 0,
decreases nneg(st, gn), sp.len(),
@top 0
    let ghost (nl0, pr0, fl0, rl0, ie0, ir0) = (node_list@, predecessors@, flag@, root_list@, i_nl_end, i_root);
    proof { let z = sp[i_root as int]; let y = node_list[sp[i_root as int]]; }
@loop 1
invariant_except_break no_children, node_list@ == nl0, predecessors@ == pr0, flag@ == fl0, root_list@ == rl0, i_nl_end == ie0, i_root == ir0,
    forall|k: int| indptr1[pnode as int].iv() <= k < i ==> st[(#[trigger] indices1[k]).iv()] >= 0,
invariant n < isize::MAX, gn == n, e == twog(indptr1@, indices1@, indptr2@, indices2@), wf(gn, gn, indptr1@, indices1@), wf(gn, gn, indptr2@, indices2@), pnode == rl0[ir0 as int], pnode < n, ie0 <= n, nl0.len() == n, rl0.len() == n, pr0.len() == n, fl0.len() == n, node_list.len() == n, root_list.len() == n, predecessors.len() == n, flag.len() == n,
    walk(e, gn, gs, nl0, ie0 as int, st, pr0), ir0 < ie0, ir0 >= 0, forall|u: int| 0 <= u < n ==> (#[trigger] fl0[u]) == (st[u] >= 0),
ensures no_children ==> node_list@ == nl0 && predecessors@ == pr0 && flag@ == fl0 && root_list@ == rl0 && i_nl_end == ie0 && i_root == ir0
        && forall|k: int| indptr1[pnode as int].iv() <= k < indptr1[pnode + 1].iv() ==> st[(#[trigger] indices1[k]).iv()] >= 0,
    !no_children ==> ie0 < n && i_nl_end == ie0 + 1 && i_root == ir0 + 1 && found(nl0, pr0, fl0, rl0, ie0 as int, ir0 as int, node_list@, predecessors@, flag@, root_list@, pnode)
        && e(pnode as int, node_list[ie0 as int] as int),
@top 1
    proof {
        seen_edge(indptr1@, indices1@, pnode as int, i as int);
        let gc = indices1[i as int].iv();
        if st[gc] < 0 { walk_room(e, gn, gs, nl0, ie0 as int, st, pr0, gc); }
        let zz = flag[gc];
    }
@pre 1
    proof { ptr_all(gn, indptr1@); }
@post 1
    proof {
        if !no_children {
            let gc = node_list[ie0 as int] as int;
            walk_push(e, gn, gs, nl0, ie0 as int, st, pr0, rl0, sp, gc);
            nneg_set(st, gn, gc, ie0 as int);
            st = st.update(gc, ie0 as int); sp = sp.push(ie0 as int);
        }
    }
@loop 2
invariant_except_break no_children, node_list@ == nl0, predecessors@ == pr0, flag@ == fl0, root_list@ == rl0, i_nl_end == ie0, i_root == ir0,
    forall|k: int| indptr2[pnode as int].iv() <= k < i ==> st[(#[trigger] indices2[k]).iv()] >= 0,
invariant n < isize::MAX, gn == n, e == twog(indptr1@, indices1@, indptr2@, indices2@), wf(gn, gn, indptr1@, indices1@), wf(gn, gn, indptr2@, indices2@), pnode == rl0[ir0 as int], pnode < n, ie0 <= n, nl0.len() == n, rl0.len() == n, pr0.len() == n, fl0.len() == n, node_list.len() == n, root_list.len() == n, predecessors.len() == n, flag.len() == n,
    walk(e, gn, gs, nl0, ie0 as int, st, pr0), ir0 < ie0, ir0 >= 0, forall|u: int| 0 <= u < n ==> (#[trigger] fl0[u]) == (st[u] >= 0),
ensures no_children ==> node_list@ == nl0 && predecessors@ == pr0 && flag@ == fl0 && root_list@ == rl0 && i_nl_end == ie0 && i_root == ir0
        && forall|k: int| indptr2[pnode as int].iv() <= k < indptr2[pnode + 1].iv() ==> st[(#[trigger] indices2[k]).iv()] >= 0,
    !no_children ==> ie0 < n && i_nl_end == ie0 + 1 && i_root == ir0 + 1 && found(nl0, pr0, fl0, rl0, ie0 as int, ir0 as int, node_list@, predecessors@, flag@, root_list@, pnode)
        && e(pnode as int, node_list[ie0 as int] as int),
@top 2
    proof {
        seen_edge(indptr2@, indices2@, pnode as int, i as int);
        let gc = indices2[i as int].iv();
        if st[gc] < 0 { walk_room(e, gn, gs, nl0, ie0 as int, st, pr0, gc); }
        let zz = flag[gc];
    }
@pre 2
    proof { ptr_all(gn, indptr2@); }
@post 2
    proof {
        if !no_children {
            let gc = node_list[ie0 as int] as int;
            walk_push(e, gn, gs, nl0, ie0 as int, st, pr0, rl0, sp, gc);
            nneg_set(st, gn, gc, ie0 as int);
            st = st.update(gc, ie0 as int); sp = sp.push(ie0 as int);
        }
    }
@bot 0
    proof {
        if no_children {
            assert(spentp(e, gn, pnode as int, st, i_nl_end as int)) by {
                assert forall|x: int| 0 <= x < n && #[trigger] e(pnode as int, x) implies 0 <= st[x] < i_nl_end by { occ_ex(indices1@, indptr1[pnode as int].iv(), indptr1[pnode + 1].iv(), x); occ_ex(indices2@, indptr2[pnode as int].iv(), indptr2[pnode + 1].iv(), x); }
            }
            walk_pop(e, gn, nl0, ie0 as int, st, rl0, sp);
            sp = sp.drop_last();
        }
    }
@end
    proof { walk_done(e, gn, gs, node_list@, i_nl_end as int, st, predecessors@, root_list@, sp); }

@fn graph::depth_first_order
@props C17 C21
@sig
requires csr_ok(*csgraph), i_start < csgraph.rows,
ensures res.is_ok() == (csgraph.rows == csgraph.cols),
    match res { Ok(r) => dfs_out(if directed { dirg(csgraph.rowptr@, csgraph.colidx@) } else { undg(csgraph.rowptr@, csgraph.colidx@) }, csgraph.rows as int, i_start as int, r.0@, r.0.len() as int, r.1@), Err(_) => true },
@uses csr::CSR::t ; csc::CSC::to_csr ; graph::validate_graph ; graph::depth_first_directed ; graph::depth_first_undirected
@after to_csr 0
    proof {
        let gn = csgraph.rows as int;
        let (p, j, p2, j2) = (csgraph.rowptr@, csgraph.colidx@, csgraph_t.rowptr@, csgraph_t.colidx@);
        assert forall|u: int, v: int| 0 <= u < gn && 0 <= v < gn implies #[trigger] occl(p2, j2, u, v) == occl(p, j, v, u) by {
            vals_occ(j2, csgraph_t.values@, p2[u].iv(), p2[u + 1].iv(), v);
            vals_occ(j, csgraph.values@, p[v].iv(), p[v + 1].iv(), u);
            assert(csr_vals(csgraph_t, u, v) == csr_vals(*csgraph, v, u));
        }
        let (tw, un) = (twog(p, j, p2, j2), undg(p, j));
        assert forall|u: int, v: int| 0 <= u < gn && 0 <= v < gn implies #[trigger] tw(u, v) == un(u, v) by { assert(occl(p2, j2, u, v) == occl(p, j, v, u)); }
        assert forall|q: Seq<usize>, m: int, pr: Seq<Option<usize>>| #[trigger] dfs_out(tw, gn, i_start as int, q, m, pr) implies dfs_out(un, gn, i_start as int, q, m, pr) by { dfs_same(tw, un, gn, i_start as int, q, q, m, pr); }
    }
@end
    proof {
        let gn = csgraph.rows as int;
        let f0 = if directed { dirg(csgraph.rowptr@, csgraph.colidx@) } else { undg(csgraph.rowptr@, csgraph.colidx@) };
        assert forall|nl: Seq<usize>, q: Seq<usize>| #[trigger] dfs_out(f0, gn, i_start as int, nl, length as int, predecessors@) && q.len() == length && (forall|i: int| 0 <= i < length ==> nl[i] == #[trigger] q[i])
            implies #[trigger] dfs_out(f0, gn, i_start as int, q, q.len() as int, predecessors@) by {
            dfs_same(f0, f0, gn, i_start as int, nl, q, length as int, predecessors@);
        }
    }
