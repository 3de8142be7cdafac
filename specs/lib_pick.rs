// ---- regrouping a stream of entries by a key ------------------------------------------------------
/// positions below n whose key is c, in order
pub open spec fn pick<I: Integer>(j: Seq<I>, n: int, c: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if j[n - 1].iv() == c { pick(j, n - 1, c).push(n - 1) } else { pick(j, n - 1, c) }
}
/// number of positions below n whose key is below c (keys being non-negative)
pub open spec fn off<I: Integer>(j: Seq<I>, n: int, c: int) -> int decreases c {
    if c <= 0 { 0 } else { off(j, n, c - 1) + pick(j, n, c - 1).len() }
}
pub proof fn pick_mono<I: Integer>(j: Seq<I>, n: int, m: int, c: int)
    requires n <= m
    ensures pick(j, n, c).len() <= pick(j, m, c).len(),
        forall|t: int| 0 <= t < pick(j, n, c).len() ==> pick(j, n, c)[t] == #[trigger] pick(j, m, c)[t],
    decreases m
{
    if n < m && m > 0 { pick_mono(j, n, m - 1, c); assert(forall|t: int| 0 <= t < pick(j, n, c).len() ==> pick(j, m - 1, c)[t] == #[trigger] pick(j, m, c)[t]); }
}
/// the entry at n is the next one picked for its key, and there is room for it
pub proof fn pick_next<I: Integer>(j: Seq<I>, n: int, m: int, c: int)
    requires 0 <= n < m, j[n].iv() == c
    ensures pick(j, n + 1, c) == pick(j, n, c).push(n), pick(j, n, c).len() < pick(j, m, c).len(), pick(j, m, c)[pick(j, n, c).len() as int] == n,
{
    assert(pick(j, n + 1, c) == pick(j, n, c).push(n));
    pick_mono(j, n + 1, m, c);
    let z = pick(j, n + 1, c)[pick(j, n, c).len() as int];
    assert(pick(j, m, c)[pick(j, n, c).len() as int] == z);
}
pub proof fn pick_in<I: Integer>(j: Seq<I>, n: int, c: int)
    ensures
        forall|t: int| 0 <= t < pick(j, n, c).len() ==> 0 <= #[trigger] pick(j, n, c)[t] < n && j[pick(j, n, c)[t]].iv() == c,
        forall|t: int, u: int| #![trigger pick(j, n, c)[t], pick(j, n, c)[u]] 0 <= t < u < pick(j, n, c).len() ==> pick(j, n, c)[t] < pick(j, n, c)[u],
        pick(j, n, c).len() <= if n < 0 { 0 } else { n },
    decreases n
{
    if n > 0 {
        pick_in(j, n - 1, c);
        let a = pick(j, n - 1, c);
        assert forall|t: int| 0 <= t < pick(j, n, c).len() implies 0 <= #[trigger] pick(j, n, c)[t] < n && j[pick(j, n, c)[t]].iv() == c by {
            if t < a.len() { let z = pick(j, n - 1, c)[t]; }
        }
        assert forall|t: int, u: int| #![trigger pick(j, n, c)[t], pick(j, n, c)[u]] 0 <= t < u < pick(j, n, c).len() implies pick(j, n, c)[t] < pick(j, n, c)[u] by {
            let z = pick(j, n - 1, c)[t]; let y = pick(j, n - 1, c)[u];
        }
    }
}
/// every position with key c is picked
pub proof fn pick_has<I: Integer>(j: Seq<I>, n: int, c: int, k: int)
    requires 0 <= k < n, j[k].iv() == c
    ensures exists|t: int| 0 <= t < pick(j, n, c).len() && #[trigger] pick(j, n, c)[t] == k
    decreases n
{
    if k == n - 1 { assert(pick(j, n, c)[pick(j, n, c).len() - 1] == k); }
    else { pick_has(j, n - 1, c, k); let t = choose|t: int| 0 <= t < pick(j, n - 1, c).len() && #[trigger] pick(j, n - 1, c)[t] == k; assert(pick(j, n, c)[t] == k); }
}
pub proof fn off_mono<I: Integer>(j: Seq<I>, n: int, c: int, d: int)
    requires c <= d
    ensures 0 <= off(j, n, c) <= off(j, n, d), 0 <= c < d ==> off(j, n, c) + pick(j, n, c).len() <= off(j, n, d)
    decreases d
{
    if d > 0 {
        if c < d { off_mono(j, n, c, d - 1); } else { off_mono(j, n, c - 1, d - 1); }
    }
}
pub proof fn off_step<I: Integer>(j: Seq<I>, n: int, c: int)
    requires n > 0
    ensures off(j, n, c) == off(j, n - 1, c) + if 0 <= j[n - 1].iv() < c { 1int } else { 0 }
    decreases c
{
    if c > 0 { off_step(j, n, c - 1); }
}
/// with keys below m, everything is below key m
pub proof fn off_total<I: Integer>(j: Seq<I>, n: int, m: int)
    requires forall|k: int| 0 <= k < n ==> 0 <= (#[trigger] j[k]).iv() < m, n >= 0
    ensures off(j, n, m) == n
    decreases n
{
    if n > 0 { off_total(j, n - 1, m); off_step(j, n, m); } else { off_zero(j, m); }
}
proof fn off_zero<I: Integer>(j: Seq<I>, m: int) ensures off(j, 0, m) == 0 decreases m { if m > 0 { off_zero(j, m - 1); } }
/// slots of different (key, count) pairs differ
pub proof fn slots<I: Integer>(j: Seq<I>, n: int, c: int, t: int, d: int, u: int)
    requires 0 <= c, 0 <= d, 0 <= t < pick(j, n, c).len(), 0 <= u < pick(j, n, d).len()
    ensures (off(j, n, c) + t == off(j, n, d) + u) == (c == d && t == u), 0 <= off(j, n, c) + t < off(j, n, c + 1)
{
    off_mono(j, n, c, c);
    if c < d { off_mono(j, n, c, d); } else if d < c { off_mono(j, n, d, c); }
}
pub open spec fn grouped_p<I: Integer>(j: Seq<I>, nnz: int, m: int, bp: Seq<I>) -> bool {
    bp.len() >= m + 1 && forall|c: int| 0 <= c <= m ==> (#[trigger] bp[c]).iv() == off(j, nnz, c)
}
/// line c of the output holds, in order, the entries with key c among the first n input entries
pub open spec fn grouped_vn<I: Integer, T>(j: Seq<I>, nnz: int, n: int, m: int, ax: Seq<T>, bx: Seq<T>) -> bool {
    forall|c: int, t: int| 0 <= c < m && 0 <= t < pick(j, n, c).len() ==> bx[off(j, nnz, c) + t] == ax[#[trigger] pick(j, n, c)[t]]
}
pub open spec fn grouped_v<I: Integer, T>(j: Seq<I>, nnz: int, m: int, ax: Seq<T>, bx: Seq<T>) -> bool { grouped_vn(j, nnz, nnz, m, ax, bx) }
/// ... carrying as minor index the input row in which they are stored
pub open spec fn inrow<I: Integer>(ap: Seq<I>, nr: int, r: int, k: int) -> bool { 0 <= r < nr && inline(ap, r, k) }
pub open spec fn grouped_rn<I: Integer>(j: Seq<I>, nnz: int, n: int, m: int, ap: Seq<I>, nr: int, bi: Seq<I>) -> bool {
    forall|c: int, t: int| 0 <= c < m && 0 <= t < pick(j, n, c).len() ==> 
        inrow(ap, nr, bi[off(j, nnz, c) + t].iv(), #[trigger] pick(j, n, c)[t])
}
pub open spec fn grouped_r<I: Integer>(j: Seq<I>, nnz: int, m: int, ap: Seq<I>, nr: int, bi: Seq<I>) -> bool { grouped_rn(j, nnz, nnz, m, ap, nr, bi) }
pub proof fn grouped_ptr<I: Integer>(j: Seq<I>, nnz: int, m: int, bp: Seq<I>)
    requires grouped_p(j, nnz, m, bp), m >= 0, 0 <= nnz <= isize::MAX, forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] j[k]).iv() < m
    ensures is_ptr(m, bp), bp[m].iv() == nnz
{
    off_total(j, nnz, m);
    assert(bp[m].iv() == off(j, nnz, m));
    assert(bp[0].iv() == off(j, nnz, 0));
    assert forall|i: int, k: int| #![trigger bp[i], bp[k]] 0 <= i <= k <= m implies bp[i].iv() <= bp[k].iv() by { off_mono(j, nnz, i, k); }
}
/// the output line holding storage position k
pub proof fn line_of<I: Integer>(m: int, p: Seq<I>, k: int) -> (r: int)
    requires is_ptr(m, p), 0 <= k < p[m].iv()
    ensures 0 <= r < m, inline(p, r, k)
    decreases m
{
    if p[m - 1].iv() <= k { m - 1 } else { assert(is_ptr(m - 1, p)); line_of(m - 1, p, k) }
}
pub proof fn inline_order<I: Integer>(n: int, p: Seq<I>, r: int, k: int, q: int, l: int)
    requires is_ptr(n, p), 0 <= r < n, 0 <= q < n, inline(p, r, k), inline(p, q, l), k <= l
    ensures r <= q, k == l ==> r == q
{
    if q < r { assert(p[q + 1].iv() <= p[r].iv()); }
    if r < q { assert(p[r + 1].iv() <= p[q].iv()); }
}
/// the regrouped lines are sorted and their indices in range
pub proof fn grouped_sorted<I: Integer>(j: Seq<I>, nnz: int, m: int, ap: Seq<I>, nr: int, bp: Seq<I>, bi: Seq<I>)
    requires grouped_p(j, nnz, m, bp), grouped_r(j, nnz, m, ap, nr, bi), is_ptr(nr, ap), nnz == ap[nr].iv(), bi.len() >= nnz, m >= 0,
        forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] j[k]).iv() < m
    ensures wf(m, nr, bp, bi), bp[m].iv() == nnz, sorted_lines(m, bp, bi)
{
    grouped_ptr(j, nnz, m, bp);
    assert forall|k: int| 0 <= k < bp[m].iv() implies 0 <= (#[trigger] bi[k]).iv() < nr by {
        let c = line_of(m, bp, k);
        let t = k - bp[c].iv();
        assert(bp[c + 1].iv() == off(j, nnz, c + 1));
        let z = pick(j, nnz, c)[t];
    }
    assert forall|c: int| 0 <= c < m implies #[trigger] sorted_line(bp, bi, c) by {
        assert(bp[c + 1].iv() == off(j, nnz, c + 1));
        assert forall|k: int, l: int| #![trigger bi[k], bi[l]] bp[c].iv() <= k <= l < bp[c + 1].iv() implies bi[k].iv() <= bi[l].iv() by {
            let t = k - bp[c].iv(); let u = l - bp[c].iv();
            pick_in(j, nnz, c);
            let z = pick(j, nnz, c)[t]; let y = pick(j, nnz, c)[u];
            inline_order(nr, ap, bi[k].iv(), z, bi[l].iv(), y);
        }
    }
}
/// value at (c, r) of the regrouped structure equals the value at (r, c) of the input
pub proof fn grouped_ent<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, nnz: int, m: int, ap: Seq<I>, nr: int, bp: Seq<I>, bi: Seq<I>, bx: Seq<T>, r: int, c: int)
    requires grouped_p(j, nnz, m, bp), grouped_r(j, nnz, m, ap, nr, bi), grouped_v(j, nnz, m, x, bx), is_ptr(nr, ap), nnz == ap[nr].iv(),
        0 <= c < m, 0 <= r < nr
    ensures ent(bp, bi, bx, c, r) == ent(ap, j, x, r, c)
{
    assert(bp[c + 1].iv() == off(j, nnz, c + 1));
    assert(bp[c].iv() == off(j, nnz, c));
    assert(0 <= ap[r].iv() <= ap[r + 1].iv() <= nnz);
    grouped_ent_n(j, x, nnz, m, ap, nr, bi, bx, r, c, nnz);
}
proof fn grouped_ent_n<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, nnz: int, m: int, ap: Seq<I>, nr: int, bi: Seq<I>, bx: Seq<T>, r: int, c: int, n: int)
    requires grouped_r(j, nnz, m, ap, nr, bi), grouped_v(j, nnz, m, x, bx), is_ptr(nr, ap), nnz == ap[nr].iv(),
        0 <= c < m, 0 <= r < nr, 0 <= n <= nnz
    ensures esum(bi, bx, off(j, nnz, c), off(j, nnz, c) + pick(j, n, c).len(), r) ==
        esum(j, x, ap[r].iv(), if n < ap[r].iv() { ap[r].iv() } else if n > ap[r + 1].iv() { ap[r + 1].iv() } else { n }, c)
    decreases n
{
    if n > 0 {
        grouped_ent_n(j, x, nnz, m, ap, nr, bi, bx, r, c, n - 1);
        if j[n - 1].iv() == c {
            pick_next(j, n - 1, nnz, c);
            let t = pick(j, n - 1, c).len() as int;
            let z = pick(j, nnz, c)[t];
            assert(z == n - 1);
            let q = bi[off(j, nnz, c) + t].iv();
            assert(0 <= q < nr && inline(ap, q, n - 1));
            if inline(ap, r, n - 1) { inline_order(nr, ap, r, n - 1, q, n - 1); }
        }
    }
}

/// writing the next entry into its slot
pub proof fn group_step<I: Integer, T>(j: Seq<I>, nz: int, n: int, m: int, ap: Seq<I>, nr: int, ax: Seq<T>, pi: Seq<I>, px: Seq<T>, bi: Seq<I>, bx: Seq<T>)
    requires 0 <= n < nz, 0 <= j[n].iv() < m, grouped_vn(j, nz, n, m, ax, px), grouped_rn(j, nz, n, m, ap, nr, pi),
        ({ let s = off(j, nz, j[n].iv()) + pick(j, n, j[n].iv()).len();
           &&& px.len() > s && pi.len() > s && s >= 0
           &&& bx == px.update(s, ax[n]) && bi == pi.update(s, bi[s])
           &&& 0 <= bi[s].iv() < nr && inline(ap, bi[s].iv(), n) }),
        px.len() >= nz, pi.len() >= nz, off(j, nz, m) == nz,
    ensures grouped_vn(j, nz, n + 1, m, ax, bx), grouped_rn(j, nz, n + 1, m, ap, nr, bi)
{
    let c0 = j[n].iv(); let t0 = pick(j, n, c0).len() as int; let s = off(j, nz, c0) + t0;
    pick_next(j, n, nz, c0);
    assert forall|c: int, t: int| 0 <= c < m && 0 <= t < pick(j, n + 1, c).len() implies bx[off(j, nz, c) + t] == ax[#[trigger] pick(j, n + 1, c)[t]] by {
        let z = pick(j, n, c)[t];
        pick_mono(j, n + 1, nz, c);
        slots(j, nz, c, t, c0, t0); off_mono(j, nz, c + 1, m);
    }
    assert forall|c: int, t: int| 0 <= c < m && 0 <= t < pick(j, n + 1, c).len() implies
            inrow(ap, nr, bi[off(j, nz, c) + t].iv(), #[trigger] pick(j, n + 1, c)[t]) by {
        let z = pick(j, n, c)[t];
        pick_mono(j, n + 1, nz, c);
        slots(j, nz, c, t, c0, t0); off_mono(j, nz, c + 1, m);
    }
}
pub proof fn group_step_v<I: Integer, T>(j: Seq<I>, nz: int, n: int, m: int, ax: Seq<T>, px: Seq<T>, bx: Seq<T>)
    requires 0 <= n < nz, 0 <= j[n].iv() < m, grouped_vn(j, nz, n, m, ax, px), px.len() >= nz, off(j, nz, m) == nz,
        bx == px.update(off(j, nz, j[n].iv()) + pick(j, n, j[n].iv()).len(), ax[n]),
    ensures grouped_vn(j, nz, n + 1, m, ax, bx)
{
    let c0 = j[n].iv(); let t0 = pick(j, n, c0).len() as int; let s = off(j, nz, c0) + t0;
    pick_next(j, n, nz, c0);
    off_mono(j, nz, 0, c0); off_mono(j, nz, c0 + 1, m);
    assert forall|c: int, t: int| 0 <= c < m && 0 <= t < pick(j, n + 1, c).len() implies bx[off(j, nz, c) + t] == ax[#[trigger] pick(j, n + 1, c)[t]] by {
        let z = pick(j, n, c)[t];
        pick_mono(j, n + 1, nz, c);
        slots(j, nz, c, t, c0, t0); off_mono(j, nz, c + 1, m);
    }
}
/// regrouped triplets: the line's value at c is the sum of the triplets at (r, c)
pub proof fn grouped_csum<I: Integer, T: Scalar>(ai: Seq<I>, aj: Seq<I>, ax: Seq<T>, nnz: int, m: int, bj: Seq<I>, bx: Seq<T>, r: int, c: int, n: int)
    requires grouped_v(ai, nnz, m, aj, bj), grouped_v(ai, nnz, m, ax, bx), 0 <= r < m, 0 <= n <= nnz
    ensures esum(bj, bx, off(ai, nnz, r), off(ai, nnz, r) + pick(ai, n, r).len(), c) == csum(ai, aj, ax, n, r, c)
    decreases n
{
    if n > 0 {
        grouped_csum(ai, aj, ax, nnz, m, bj, bx, r, c, n - 1);
        if ai[n - 1].iv() == r {
            pick_next(ai, n - 1, nnz, r);
            let z = pick(ai, nnz, r)[pick(ai, n - 1, r).len() as int];
            assert(z == n - 1);
        }
    }
}
pub proof fn grouped_range<I: Integer>(ai: Seq<I>, nnz: int, m: int, nc: int, aj: Seq<I>, bp: Seq<I>, bj: Seq<I>)
    requires grouped_p(ai, nnz, m, bp), grouped_v(ai, nnz, m, aj, bj), m >= 0, 0 <= nnz <= isize::MAX, bj.len() >= nnz,
        forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] ai[k]).iv() < m, forall|k: int| 0 <= k < nnz ==> 0 <= (#[trigger] aj[k]).iv() < nc
    ensures wf(m, nc, bp, bj), bp[m].iv() == nnz
{
    grouped_ptr(ai, nnz, m, bp);
    assert forall|k: int| 0 <= k < bp[m].iv() implies 0 <= (#[trigger] bj[k]).iv() < nc by {
        let r = line_of(m, bp, k);
        assert(bp[r + 1].iv() == off(ai, nnz, r + 1));
        pick_in(ai, nnz, r);
        let z = pick(ai, nnz, r)[k - bp[r].iv()];
        let y = aj[z];
    }
}
