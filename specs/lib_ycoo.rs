// ---- triplet lists -----------------------------------------------------------------------------------------------
pub proof fn csum_ext<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, ri2: Seq<I>, ci2: Seq<I>, x2: Seq<T>, n: int, r: int, c: int)
    requires forall|k: int| 0 <= k < n ==> (#[trigger] ri2[k]) == ri[k], forall|k: int| 0 <= k < n ==> (#[trigger] ci2[k]) == ci[k], forall|k: int| 0 <= k < n ==> (#[trigger] x2[k]) == x[k]
    ensures csum(ri2, ci2, x2, n, r, c) == csum(ri, ci, x, n, r, c)
    decreases n
{
    if n > 0 { csum_ext(ri, ci, x, ri2, ci2, x2, n - 1, r, c); let a = ri2[n - 1]; let b = ci2[n - 1]; let d = x2[n - 1]; }
}
pub proof fn csum_none<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int, r: int, c: int)
    requires forall|k: int| 0 <= k < n ==> !((#[trigger] ri[k]).iv() == r && ci[k].iv() == c)
    ensures csum(ri, ci, x, n, r, c) == C::zero()
    decreases n
{
    if n > 0 { csum_none(ri, ci, x, n - 1, r, c); let a = ri[n - 1]; }
}
/// rows or columns outside the dimensions hold nothing
pub proof fn csum_out<I: Integer, T: Scalar>(nr: int, nc: int, ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int, r: int, c: int)
    requires wfc(nr, nc, n, ri, ci, x), !(0 <= r < nr && 0 <= c < nc)
    ensures csum(ri, ci, x, n, r, c) == C::zero()
{
    assert forall|k: int| 0 <= k < n implies !((#[trigger] ri[k]).iv() == r && ci[k].iv() == c) by { let z = ci[k]; }
    csum_none(ri, ci, x, n, r, c);
}
/// the second list, moved by (dr, dc), behind the first
pub open spec fn appended<I: Integer, T>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int, ri2: Seq<I>, ci2: Seq<I>, x2: Seq<T>, n2: int, dr: int, dc: int, gr: Seq<I>, gc: Seq<I>, gx: Seq<T>) -> bool {
    &&& n >= 0 && n2 >= 0 && gr.len() == n + n2 && gc.len() == n + n2 && gx.len() == n + n2
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] gr[k]) == ri[k]
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] gc[k]) == ci[k]
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] gx[k]) == x[k]
    &&& forall|k: int| n <= k < n + n2 ==> (#[trigger] gr[k]).iv() == ri2[k - n].iv() + dr
    &&& forall|k: int| n <= k < n + n2 ==> (#[trigger] gc[k]).iv() == ci2[k - n].iv() + dc
    &&& forall|k: int| n <= k < n + n2 ==> (#[trigger] gx[k]) == x2[k - n]
}
pub proof fn csum_app<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int, ri2: Seq<I>, ci2: Seq<I>, x2: Seq<T>, n2: int, dr: int, dc: int, gr: Seq<I>, gc: Seq<I>, gx: Seq<T>, m: int, r: int, c: int)
    requires appended(ri, ci, x, n, ri2, ci2, x2, n2, dr, dc, gr, gc, gx), 0 <= m <= n2
    ensures csum(gr, gc, gx, n + m, r, c) == csum(ri, ci, x, n, r, c).add(csum(ri2, ci2, x2, m, r - dr, c - dc))
    decreases m
{
    if m > 0 {
        csum_app(ri, ci, x, n, ri2, ci2, x2, n2, dr, dc, gr, gc, gx, m - 1, r, c);
        let a = gr[n + m - 1]; let b = gc[n + m - 1]; let d = gx[n + m - 1];
        assert(n + m - 1 == n + (m - 1));
    } else { csum_ext(ri, ci, x, gr, gc, gx, n, r, c); }
}
/// two blocks that do not overlap
pub proof fn app_ok<I: Integer, T: Scalar>(nr: int, nc: int, ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int, nr2: int, nc2: int, ri2: Seq<I>, ci2: Seq<I>, x2: Seq<T>, n2: int, dr: int, dc: int,
    gr: Seq<I>, gc: Seq<I>, gx: Seq<T>, tr: int, tc: int)
    requires appended(ri, ci, x, n, ri2, ci2, x2, n2, dr, dc, gr, gc, gx), wfc(nr, nc, n, ri, ci, x), wfc(nr2, nc2, n2, ri2, ci2, x2),
        nr <= tr, nc <= tc, dr >= 0, dc >= 0, nr2 + dr <= tr, nc2 + dc <= tc, dr >= nr || dc >= nc
    ensures wfc(tr, tc, n + n2, gr, gc, gx),
        forall|r: int, c: int| #[trigger] csum(gr, gc, gx, n + n2, r, c) == if dr <= r && dc <= c { csum(ri2, ci2, x2, n2, r - dr, c - dc) } else { csum(ri, ci, x, n, r, c) },
{
    assert forall|k: int| 0 <= k < n + n2 implies 0 <= (#[trigger] gr[k]).iv() < tr by { if k < n { let z = ri[k]; } else { let z = ri2[k - n]; } }
    assert forall|k: int| 0 <= k < n + n2 implies 0 <= (#[trigger] gc[k]).iv() < tc by { if k < n { let z = ci[k]; } else { let z = ci2[k - n]; } }
    assert forall|r: int, c: int| #[trigger] csum(gr, gc, gx, n + n2, r, c) == if dr <= r && dc <= c { csum(ri2, ci2, x2, n2, r - dr, c - dc) } else { csum(ri, ci, x, n, r, c) } by {
        csum_app(ri, ci, x, n, ri2, ci2, x2, n2, dr, dc, gr, gc, gx, n2, r, c);
        if dr <= r && dc <= c { csum_out(nr, nc, ri, ci, x, n, r, c); } else { csum_out(nr2, nc2, ri2, ci2, x2, n2, r - dr, c - dc); }
    }
}
// ---- triplets of a dense array, in row-major order ------------------------------------------------------------
pub open spec fn lex_lt(r: int, c: int, r2: int, c2: int) -> bool { r < r2 || (r == r2 && c < c2) }
/// the triplets are the nonzero values of the cells before (r, c), in row-major order
pub open spec fn gcoo<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, m: int, r: int, c: int, ri: Seq<I>, ci: Seq<I>, x: Seq<T>) -> bool {
    &&& ri.len() == ci.len() && x.len() == ci.len() && ri.len() == gtot(g, r, m) + gcnt(g, r, c)
    &&& forall|k: int| 0 <= k < ri.len() ==> gcell(m, r, c, (#[trigger] ri[k]).iv(), ci[k].iv())
    &&& forall|k: int| 0 <= k < ri.len() ==> (#[trigger] x[k]).sv() != C::zero()
    &&& forall|k: int, l: int| #![trigger ri[k], ri[l]] 0 <= k < l < ri.len() ==> lex_lt(ri[k].iv(), ci[k].iv(), ri[l].iv(), ci[l].iv())
    &&& forall|q: int, d: int| gcell(m, r, c, q, d) ==> #[trigger] csum(ri, ci, x, ri.len() as int, q, d) == g(q, d)
}
/// (q, d) is a cell before (r, c)
pub open spec fn gcell(m: int, r: int, c: int, q: int, d: int) -> bool { 0 <= q && 0 <= d < m && lex_lt(q, d, r, c) }
pub proof fn gcoo_skip<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, m: int, r: int, c: int, ri: Seq<I>, ci: Seq<I>, x: Seq<T>)
    requires gcoo(g, m, r, c, ri, ci, x), 0 <= c < m, r >= 0, g(r, c) == C::zero()
    ensures gcoo(g, m, r, c + 1, ri, ci, x)
{
    assert forall|k: int| 0 <= k < ri.len() implies gcell(m, r, c + 1, (#[trigger] ri[k]).iv(), ci[k].iv()) by {}
    assert forall|q: int, d: int| gcell(m, r, c + 1, q, d) implies #[trigger] csum(ri, ci, x, ri.len() as int, q, d) == g(q, d) by {
        if !gcell(m, r, c, q, d) { csum_none(ri, ci, x, ri.len() as int, q, d); } }
}
pub proof fn gcoo_push<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, m: int, r: int, c: int, ri: Seq<I>, ci: Seq<I>, x: Seq<T>, a: I, b: I, v: T)
    requires gcoo(g, m, r, c, ri, ci, x), 0 <= c < m, r >= 0, a.iv() == r, b.iv() == c, v.sv() == g(r, c), v.sv() != C::zero()
    ensures gcoo(g, m, r, c + 1, ri.push(a), ci.push(b), x.push(v))
{
    let n = ri.len() as int;
    let r2 = ri.push(a); let c2 = ci.push(b); let x2 = x.push(v);
    assert forall|k: int| 0 <= k < r2.len() implies gcell(m, r, c + 1, (#[trigger] r2[k]).iv(), c2[k].iv()) by { if k < n { let z = ri[k]; } }
    assert forall|k: int| 0 <= k < r2.len() implies (#[trigger] x2[k]).sv() != C::zero() by { if k < n { let z = x[k]; } }
    assert forall|k: int, l: int| #![trigger r2[k], r2[l]] 0 <= k < l < r2.len() implies lex_lt(r2[k].iv(), c2[k].iv(), r2[l].iv(), c2[l].iv()) by {
        let z = ri[k]; if l < n { let y = ri[l]; } }
    assert forall|q: int, d: int| gcell(m, r, c + 1, q, d) implies #[trigger] csum(r2, c2, x2, r2.len() as int, q, d) == g(q, d) by {
        csum_ext(ri, ci, x, r2, c2, x2, n, q, d);
        if !gcell(m, r, c, q, d) { csum_none(ri, ci, x, n, q, d); } else { let z = csum(ri, ci, x, n, q, d); } }
}
pub proof fn gcoo_row<I: Integer, T: Scalar>(g: spec_fn(int, int) -> C, m: int, r: int, ri: Seq<I>, ci: Seq<I>, x: Seq<T>)
    requires gcoo(g, m, r, m, ri, ci, x), r >= 0, m >= 0
    ensures gcoo(g, m, r + 1, 0, ri, ci, x)
{
    assert forall|k: int| 0 <= k < ri.len() implies gcell(m, r + 1, 0, (#[trigger] ri[k]).iv(), ci[k].iv()) by {}
    assert forall|q: int, d: int| gcell(m, r + 1, 0, q, d) implies #[trigger] csum(ri, ci, x, ri.len() as int, q, d) == g(q, d) by { assert(gcell(m, r, m, q, d)); }
}
// ---- a diagonal of triplets ------------------------------------------------------------------------------------
proof fn csum_diag_n<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int, r: int, c: int)
    requires forall|k: int| 0 <= k < n ==> (#[trigger] ri[k]).iv() == k, forall|k: int| 0 <= k < n ==> (#[trigger] ci[k]).iv() == k
    ensures csum(ri, ci, x, n, r, c) == if r == c && 0 <= r < n { x[r].sv() } else { C::zero() }
    decreases n
{
    if n > 0 { csum_diag_n(ri, ci, x, n - 1, r, c); let a = ri[n - 1]; let b = ci[n - 1]; }
}
pub proof fn csum_diag<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int)
    requires forall|k: int| 0 <= k < n ==> (#[trigger] ri[k]).iv() == k, forall|k: int| 0 <= k < n ==> (#[trigger] ci[k]).iv() == k
    ensures forall|r: int, c: int| #[trigger] csum(ri, ci, x, n, r, c) == if r == c && 0 <= r < n { x[r].sv() } else { C::zero() }
{
    assert forall|r: int, c: int| #[trigger] csum(ri, ci, x, n, r, c) == if r == c && 0 <= r < n { x[r].sv() } else { C::zero() } by { csum_diag_n(ri, ci, x, n, r, c); }
}
/// exchanging rows and columns
pub proof fn csum_swap<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int, r: int, c: int)
    ensures csum(ci, ri, x, n, c, r) == csum(ri, ci, x, n, r, c)
    decreases n
{
    if n > 0 { csum_swap(ri, ci, x, n - 1, r, c); }
}
// ---- the positions kept by a filter -----------------------------------------------------------------------------
/// positions below n with row + k <= column, in order
pub open spec fn upp<I: Integer>(ri: Seq<I>, ci: Seq<I>, n: int, k: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if ri[n - 1].iv() + k <= ci[n - 1].iv() { upp(ri, ci, n - 1, k).push(n - 1) } else { upp(ri, ci, n - 1, k) }
}
pub open spec fn at_pos<X>(x: Seq<X>, p: Seq<int>) -> Seq<X> { Seq::new(p.len(), |t: int| x[p[t]]) }
pub proof fn upp_in<I: Integer>(ri: Seq<I>, ci: Seq<I>, n: int, k: int)
    ensures forall|t: int| 0 <= t < upp(ri, ci, n, k).len() ==> 0 <= #[trigger] upp(ri, ci, n, k)[t] < n, upp(ri, ci, n, k).len() <= if n < 0 { 0 } else { n }
    decreases n
{
    if n > 0 { upp_in(ri, ci, n - 1, k);
        assert forall|t: int| 0 <= t < upp(ri, ci, n, k).len() implies 0 <= #[trigger] upp(ri, ci, n, k)[t] < n by { if t < upp(ri, ci, n - 1, k).len() { let z = upp(ri, ci, n - 1, k)[t]; } } }
}
pub proof fn upp_step<I: Integer, X>(ri: Seq<I>, ci: Seq<I>, n: int, k: int, x: Seq<X>)
    requires n >= 0
    ensures ri[n].iv() + k <= ci[n].iv() ==> at_pos(x, upp(ri, ci, n + 1, k)) == at_pos(x, upp(ri, ci, n, k)).push(x[n]),
        !(ri[n].iv() + k <= ci[n].iv()) ==> at_pos(x, upp(ri, ci, n + 1, k)) == at_pos(x, upp(ri, ci, n, k))
{
    if ri[n].iv() + k <= ci[n].iv() { assert(at_pos(x, upp(ri, ci, n + 1, k)) =~= at_pos(x, upp(ri, ci, n, k)).push(x[n])); }
}
// ---- diagonal of triplets ---------------------------------------------------------------------------------------
// ---- compressed lines put together ------------------------------------------------------------------------------
// ---- parts of complex values ---------------------------------------------------------------------------------
proof fn esum_conj<I: Integer, T: Scalar, U: Scalar>(j: Seq<I>, x: Seq<T>, y: Seq<U>, s: int, e: int, c: int)
    requires forall|k: int| s <= k < e ==> (#[trigger] y[k]).sv() == cx_conj(x[k].sv())
    ensures esum(j, y, s, e, c) == cx_conj(esum(j, x, s, e, c))
    decreases e - s
{
    if s < e { esum_conj(j, x, y, s, e - 1, c); let z = y[e - 1]; }
}
pub proof fn lines_conj<I: Integer, T: Scalar, U: Scalar>(n: int, m: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, y: Seq<U>)
    requires wfx(n, m, p, j, x), y.len() == x.len(), forall|k: int| 0 <= k < x.len() ==> (#[trigger] y[k]).sv() == cx_conj(x[k].sv())
    ensures wfx(n, m, p, j, y), forall|r: int, c: int| 0 <= r < n ==> #[trigger] ent(p, j, y, r, c) == cx_conj(ent(p, j, x, r, c))
{
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] ent(p, j, y, r, c) == cx_conj(ent(p, j, x, r, c)) by { esum_conj(j, x, y, p[r].iv(), p[r + 1].iv(), c); }
}
pub proof fn csum_conj<I: Integer, T: Scalar, U: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, y: Seq<U>, n: int, r: int, c: int)
    requires forall|k: int| 0 <= k < n ==> (#[trigger] y[k]).sv() == cx_conj(x[k].sv())
    ensures csum(ri, ci, y, n, r, c) == cx_conj(csum(ri, ci, x, n, r, c))
    decreases n
{
    if 0 < n { csum_conj(ri, ci, x, y, n - 1, r, c); let z = y[n - 1]; }
}

proof fn esum_re<I: Integer, T: Scalar, U: Scalar>(j: Seq<I>, x: Seq<T>, y: Seq<U>, s: int, e: int, c: int)
    requires forall|k: int| s <= k < e ==> (#[trigger] y[k]).sv() == cx_re(x[k].sv())
    ensures esum(j, y, s, e, c) == cx_re(esum(j, x, s, e, c))
    decreases e - s
{
    if s < e { esum_re(j, x, y, s, e - 1, c); let z = y[e - 1]; }
}
pub proof fn lines_re<I: Integer, T: Scalar, U: Scalar>(n: int, m: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, y: Seq<U>)
    requires wfx(n, m, p, j, x), y.len() == x.len(), forall|k: int| 0 <= k < x.len() ==> (#[trigger] y[k]).sv() == cx_re(x[k].sv())
    ensures wfx(n, m, p, j, y), forall|r: int, c: int| 0 <= r < n ==> #[trigger] ent(p, j, y, r, c) == cx_re(ent(p, j, x, r, c))
{
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] ent(p, j, y, r, c) == cx_re(ent(p, j, x, r, c)) by { esum_re(j, x, y, p[r].iv(), p[r + 1].iv(), c); }
}
pub proof fn csum_re<I: Integer, T: Scalar, U: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, y: Seq<U>, n: int, r: int, c: int)
    requires forall|k: int| 0 <= k < n ==> (#[trigger] y[k]).sv() == cx_re(x[k].sv())
    ensures csum(ri, ci, y, n, r, c) == cx_re(csum(ri, ci, x, n, r, c))
    decreases n
{
    if 0 < n { csum_re(ri, ci, x, y, n - 1, r, c); let z = y[n - 1]; }
}

proof fn esum_im<I: Integer, T: Scalar, U: Scalar>(j: Seq<I>, x: Seq<T>, y: Seq<U>, s: int, e: int, c: int)
    requires forall|k: int| s <= k < e ==> (#[trigger] y[k]).sv() == cx_im(x[k].sv())
    ensures esum(j, y, s, e, c) == cx_im(esum(j, x, s, e, c))
    decreases e - s
{
    if s < e { esum_im(j, x, y, s, e - 1, c); let z = y[e - 1]; }
}
pub proof fn lines_im<I: Integer, T: Scalar, U: Scalar>(n: int, m: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, y: Seq<U>)
    requires wfx(n, m, p, j, x), y.len() == x.len(), forall|k: int| 0 <= k < x.len() ==> (#[trigger] y[k]).sv() == cx_im(x[k].sv())
    ensures wfx(n, m, p, j, y), forall|r: int, c: int| 0 <= r < n ==> #[trigger] ent(p, j, y, r, c) == cx_im(ent(p, j, x, r, c))
{
    assert forall|r: int, c: int| 0 <= r < n implies #[trigger] ent(p, j, y, r, c) == cx_im(ent(p, j, x, r, c)) by { esum_im(j, x, y, p[r].iv(), p[r + 1].iv(), c); }
}
pub proof fn csum_im<I: Integer, T: Scalar, U: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, y: Seq<U>, n: int, r: int, c: int)
    requires forall|k: int| 0 <= k < n ==> (#[trigger] y[k]).sv() == cx_im(x[k].sv())
    ensures csum(ri, ci, y, n, r, c) == cx_im(csum(ri, ci, x, n, r, c))
    decreases n
{
    if 0 < n { csum_im(ri, ci, x, y, n - 1, r, c); let z = y[n - 1]; }
}
