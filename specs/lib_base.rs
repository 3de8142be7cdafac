// ---- compressed structures: pointers, indices, values -------------------------------------
pub open spec fn is_ptr<I: Integer>(n: int, p: Seq<I>) -> bool {
    &&& n >= 0
    &&& p.len() >= n + 1
    &&& p[0].iv() == 0
    &&& p[n].iv() <= isize::MAX
    &&& forall|i: int, k: int| #![trigger p[i], p[k]] 0 <= i <= k <= n ==> p[i].iv() <= p[k].iv()
}
/// a valid compressed structure of n lines with minor indices below m
pub open spec fn wf<I: Integer>(n: int, m: int, p: Seq<I>, j: Seq<I>) -> bool {
    &&& is_ptr(n, p)
    &&& j.len() >= p[n].iv()
    &&& forall|k: int| 0 <= k < p[n].iv() ==> 0 <= (#[trigger] j[k]).iv() < m
}
pub open spec fn wfx<I: Integer, T: Scalar>(n: int, m: int, p: Seq<I>, j: Seq<I>, x: Seq<T>) -> bool {
    wf(n, m, p, j) && x.len() >= p[n].iv()
}
/// pointer facts for every line at once
pub proof fn ptr_all<I: Integer>(n: int, p: Seq<I>)
    requires is_ptr(n, p)
    ensures forall|i: int| 0 <= i <= n ==> 0 <= (#[trigger] p[i]).iv() <= p[n].iv() <= isize::MAX,
{
}
/// a pointer sequence that is non-decreasing step by step is non-decreasing
pub proof fn ptr_steps<I: Integer>(n: int, p: Seq<I>)
    requires n >= 0, p.len() >= n + 1, p[0].iv() == 0, p[n].iv() <= isize::MAX, forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).iv() <= p[i + 1].iv(),
    ensures is_ptr(n, p),
{
    assert forall|i: int, k: int| #![trigger p[i], p[k]] 0 <= i <= k <= n implies p[i].iv() <= p[k].iv() by { ptr_step(n, p, i, k); }
}
proof fn ptr_step<I: Integer>(n: int, p: Seq<I>, i: int, k: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).iv() <= p[i + 1].iv(), 0 <= i <= k <= n
    ensures p[i].iv() <= p[k].iv()
    decreases k - i
{
    if i < k { ptr_step(n, p, i, k - 1); assert(p[k - 1].iv() <= p[k - 1 + 1].iv()); }
}
/// k is a storage position of line r
pub open spec fn inline<I: Integer>(p: Seq<I>, r: int, k: int) -> bool { p[r].iv() <= k < p[r + 1].iv() }
/// sum of the values stored in [s, e) at minor index c
pub open spec fn esum<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int) -> C decreases e - s {
    if e <= s { C::zero() } else { esum(j, x, s, e - 1, c).add(if j[e - 1].iv() == c { x[e - 1].sv() } else { C::zero() }) }
}
/// value of the matrix at line r, minor index c: the sum of the entries stored there
pub open spec fn ent<I: Integer, T: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<T>, r: int, c: int) -> C {
    esum(j, x, p[r].iv(), p[r + 1].iv(), c)
}
/// product of the stored entries [s, e) with a dense vector
pub open spec fn dsum<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, s: int, e: int) -> C decreases e - s {
    if e <= s { C::zero() } else { dsum(j, x, v, s, e - 1).add(x[e - 1].sv().mul(v[j[e - 1].iv()].sv())) }
}
/// sum over minor indices c in 0..m of the line's value at c times v[c]
pub open spec fn linedot<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, s: int, e: int, m: int) -> C decreases m {
    if m <= 0 { C::zero() } else { linedot(j, x, v, s, e, m - 1).add(esum(j, x, s, e, m - 1).mul(v[m - 1].sv())) }
}
// ---- complex arithmetic ----------------------------------------------------------------------
pub proof fn mul_comm(a: C, b: C) ensures a.mul(b) == b.mul(a) {
    reveal(C::mul);
    assert(a.re * b.re == b.re * a.re) by(nonlinear_arith);
    assert(a.im * b.im == b.im * a.im) by(nonlinear_arith);
    assert(a.re * b.im == b.im * a.re) by(nonlinear_arith);
    assert(a.im * b.re == b.re * a.im) by(nonlinear_arith);
}
pub proof fn mul_distr(a: C, b: C, c: C) ensures a.mul(b.add(c)) == a.mul(b).add(a.mul(c)), b.add(c).mul(a) == b.mul(a).add(c.mul(a)) {
    mul_comm(a, b.add(c)); mul_comm(a, b); mul_comm(a, c);
    reveal(C::mul);
    assert(a.re * (b.re + c.re) == a.re * b.re + a.re * c.re) by(nonlinear_arith);
    assert(a.im * (b.re + c.re) == a.im * b.re + a.im * c.re) by(nonlinear_arith);
    assert(a.re * (b.im + c.im) == a.re * b.im + a.re * c.im) by(nonlinear_arith);
    assert(a.im * (b.im + c.im) == a.im * b.im + a.im * c.im) by(nonlinear_arith);
}
pub proof fn mul_zero(a: C) ensures a.mul(C::zero()) == C::zero(), C::zero().mul(a) == C::zero() {
    reveal(C::mul);
    mul_comm(a, C::zero());
    assert(a.re * 0real == 0real) by(nonlinear_arith);
    assert(a.im * 0real == 0real) by(nonlinear_arith);
}
// ---- linedot == dsum ---------------------------------------------------------------------------
pub proof fn linedot_step<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, s: int, e: int, m: int)
    requires s < e
    ensures linedot(j, x, v, s, e, m) == linedot(j, x, v, s, e - 1, m).add(
        if 0 <= j[e - 1].iv() < m { x[e - 1].sv().mul(v[j[e - 1].iv()].sv()) } else { C::zero() })
    decreases m
{
    if m > 0 {
        linedot_step(j, x, v, s, e, m - 1);
        mul_distr(v[m - 1].sv(), esum(j, x, s, e - 1, m - 1), if j[e - 1].iv() == m - 1 { x[e - 1].sv() } else { C::zero() });
        mul_zero(v[m - 1].sv());
    }
}
pub proof fn linedot_empty<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, s: int, e: int, m: int)
    requires e <= s
    ensures linedot(j, x, v, s, e, m) == C::zero()
    decreases m
{
    if m > 0 { linedot_empty(j, x, v, s, e, m - 1); mul_zero(v[m - 1].sv()); }
}
pub proof fn dot_eq<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, s: int, e: int, m: int)
    requires forall|k: int| s <= k < e ==> 0 <= (#[trigger] j[k]).iv() < m
    ensures dsum(j, x, v, s, e) == linedot(j, x, v, s, e, m)
    decreases e - s
{
    if e <= s { linedot_empty(j, x, v, s, e, m); } else { dot_eq(j, x, v, s, e - 1, m); linedot_step(j, x, v, s, e, m); let k = j[e - 1]; }
}
// ---- column-wise product: sum over lines c in 0..n of value at (c, i) times v[c] ---------------
pub open spec fn coldot<I: Integer, T: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<T>, v: Seq<T>, n: int, i: int) -> C decreases n {
    if n <= 0 { C::zero() } else { coldot(p, j, x, v, n - 1, i).add(ent(p, j, x, n - 1, i).mul(v[n - 1].sv())) }
}
pub proof fn esum_mul_step<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int, f: C)
    ensures
        e <= s ==> esum(j, x, s, e, c).mul(f) == C::zero(),
        esum(j, x, s, e + 1, c).mul(f) == if e < s { C::zero() } else if j[e].iv() == c { esum(j, x, s, e, c).mul(f).add(x[e].sv().mul(f)) } else { esum(j, x, s, e, c).mul(f) }
{
    mul_zero(f);
    mul_distr(f, esum(j, x, s, e, c), if j[e].iv() == c { x[e].sv() } else { C::zero() });
}
// ---- strided vectors (row-major blocks): element t of block c is v[w*c + t] --------------------
pub open spec fn linedotw<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, w: int, t: int, s: int, e: int, m: int) -> C decreases m {
    if m <= 0 { C::zero() } else { linedotw(j, x, v, w, t, s, e, m - 1).add(esum(j, x, s, e, m - 1).mul(v[w * (m - 1) + t].sv())) }
}
pub open spec fn dsumw<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, w: int, t: int, s: int, e: int) -> C decreases e - s {
    if e <= s { C::zero() } else { dsumw(j, x, v, w, t, s, e - 1).add(x[e - 1].sv().mul(v[w * j[e - 1].iv() + t].sv())) }
}
pub open spec fn coldotw<I: Integer, T: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<T>, v: Seq<T>, w: int, t: int, n: int, i: int) -> C decreases n {
    if n <= 0 { C::zero() } else { coldotw(p, j, x, v, w, t, n - 1, i).add(ent(p, j, x, n - 1, i).mul(v[w * (n - 1) + t].sv())) }
}
pub proof fn linedotw_step<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, w: int, t: int, s: int, e: int, m: int)
    requires s < e
    ensures linedotw(j, x, v, w, t, s, e, m) == linedotw(j, x, v, w, t, s, e - 1, m).add(
        if 0 <= j[e - 1].iv() < m { x[e - 1].sv().mul(v[w * j[e - 1].iv() + t].sv()) } else { C::zero() })
    decreases m
{
    if m > 0 {
        linedotw_step(j, x, v, w, t, s, e, m - 1);
        let f = v[w * (m - 1) + t].sv();
        mul_distr(f, esum(j, x, s, e - 1, m - 1), if j[e - 1].iv() == m - 1 { x[e - 1].sv() } else { C::zero() });
        mul_zero(f);
    }
}
pub proof fn linedotw_empty<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, w: int, t: int, s: int, e: int, m: int)
    requires e <= s
    ensures linedotw(j, x, v, w, t, s, e, m) == C::zero()
    decreases m
{
    if m > 0 { linedotw_empty(j, x, v, w, t, s, e, m - 1); mul_zero(v[w * (m - 1) + t].sv()); }
}
pub proof fn dotw_eq<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, v: Seq<T>, w: int, t: int, s: int, e: int, m: int)
    requires forall|k: int| s <= k < e ==> 0 <= (#[trigger] j[k]).iv() < m
    ensures dsumw(j, x, v, w, t, s, e) == linedotw(j, x, v, w, t, s, e, m)
    decreases e - s
{
    if e <= s { linedotw_empty(j, x, v, w, t, s, e, m); } else { dotw_eq(j, x, v, w, t, s, e - 1, m); linedotw_step(j, x, v, w, t, s, e, m); let k = j[e - 1]; }
}
/// two cells (a, s) and (b, t) of a row-major block of width w coincide only when a == b and s == t
pub proof fn cell(w: int, a: int, s: int, b: int, t: int)
    requires 0 <= s < w, 0 <= t < w
    ensures (w * a + s == w * b + t) == (a == b && s == t)
{
    if a < b { assert(w * b >= w * (a + 1)) by(nonlinear_arith) requires a + 1 <= b, w > 0; assert(w * (a + 1) == w * a + w) by(nonlinear_arith); }
    if b < a { assert(w * a >= w * (b + 1)) by(nonlinear_arith) requires b + 1 <= a, w > 0; assert(w * (b + 1) == w * b + w) by(nonlinear_arith); }
}
pub proof fn cell_in(w: int, a: int, n: int)
    requires 0 <= a < n, 0 <= w
    ensures 0 <= w * a, w * a + w <= w * n, w * (a + 1) == w * a + w, (a + 1) * w == a * w + w, a * w == w * a
{
    assert(0 <= w * a) by(nonlinear_arith) requires 0 <= a, 0 <= w;
    assert(w * n >= w * (a + 1)) by(nonlinear_arith) requires a + 1 <= n, w >= 0; assert(w * (a + 1) == w * a + w) by(nonlinear_arith);
}
// ---- coordinate form -----------------------------------------------------------------------------
/// sum of the first n triplets at (r, c)
pub open spec fn csum<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, n: int, r: int, c: int) -> C decreases n {
    if n <= 0 { C::zero() } else { csum(ri, ci, x, n - 1, r, c).add(if ri[n - 1].iv() == r && ci[n - 1].iv() == c { x[n - 1].sv() } else { C::zero() }) }
}
pub open spec fn wfc<I: Integer, T: Scalar>(nr: int, nc: int, n: int, ri: Seq<I>, ci: Seq<I>, x: Seq<T>) -> bool {
    &&& ri.len() >= n && ci.len() >= n && x.len() >= n
    &&& forall|k: int| 0 <= k < n ==> 0 <= (#[trigger] ri[k]).iv() < nr
    &&& forall|k: int| 0 <= k < n ==> 0 <= (#[trigger] ci[k]).iv() < nc
}
/// sum over columns c in 0..m of the coordinate matrix's value at (r, c) times v[c]
pub open spec fn coodot<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, v: Seq<T>, n: int, r: int, m: int) -> C decreases m {
    if m <= 0 { C::zero() } else { coodot(ri, ci, x, v, n, r, m - 1).add(csum(ri, ci, x, n, r, m - 1).mul(v[m - 1].sv())) }
}
pub open spec fn cdsum<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, v: Seq<T>, n: int, r: int) -> C decreases n {
    if n <= 0 { C::zero() } else { cdsum(ri, ci, x, v, n - 1, r).add(if ri[n - 1].iv() == r { x[n - 1].sv().mul(v[ci[n - 1].iv()].sv()) } else { C::zero() }) }
}
pub proof fn coodot_step<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, v: Seq<T>, n: int, r: int, m: int)
    requires n > 0
    ensures coodot(ri, ci, x, v, n, r, m) == coodot(ri, ci, x, v, n - 1, r, m).add(
        if ri[n - 1].iv() == r && 0 <= ci[n - 1].iv() < m { x[n - 1].sv().mul(v[ci[n - 1].iv()].sv()) } else { C::zero() })
    decreases m
{
    if m > 0 {
        coodot_step(ri, ci, x, v, n, r, m - 1);
        mul_distr(v[m - 1].sv(), csum(ri, ci, x, n - 1, r, m - 1), if ri[n - 1].iv() == r && ci[n - 1].iv() == m - 1 { x[n - 1].sv() } else { C::zero() });
        mul_zero(v[m - 1].sv());
    }
}
pub proof fn coodot_empty<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, v: Seq<T>, n: int, r: int, m: int)
    requires n <= 0
    ensures coodot(ri, ci, x, v, n, r, m) == C::zero()
    decreases m
{
    if m > 0 { coodot_empty(ri, ci, x, v, n, r, m - 1); mul_zero(v[m - 1].sv()); }
}
pub proof fn coodot_eq<I: Integer, T: Scalar>(ri: Seq<I>, ci: Seq<I>, x: Seq<T>, v: Seq<T>, n: int, r: int, m: int)
    requires forall|k: int| 0 <= k < n ==> 0 <= (#[trigger] ci[k]).iv() < m
    ensures cdsum(ri, ci, x, v, n, r) == coodot(ri, ci, x, v, n, r, m)
    decreases n
{
    if n <= 0 { coodot_empty(ri, ci, x, v, n, r, m); } else { coodot_eq(ri, ci, x, v, n - 1, r, m); coodot_step(ri, ci, x, v, n, r, m); let k = ci[n - 1]; }
}
// ---- sorted and strictly increasing lines (pairwise form) -----------------------------------------
pub open spec fn sorted_seg<I: Integer>(j: Seq<I>, s: int, e: int) -> bool { forall|k: int, l: int| #![trigger j[k], j[l]] s <= k <= l < e ==> j[k].iv() <= j[l].iv() }
pub open spec fn strict_seg<I: Integer>(j: Seq<I>, s: int, e: int) -> bool { forall|k: int, l: int| #![trigger j[k], j[l]] s <= k < l < e ==> j[k].iv() < j[l].iv() }
pub open spec fn sorted_line<I: Integer>(p: Seq<I>, j: Seq<I>, r: int) -> bool { sorted_seg(j, p[r].iv(), p[r + 1].iv()) }
pub open spec fn strict_line<I: Integer>(p: Seq<I>, j: Seq<I>, r: int) -> bool { strict_seg(j, p[r].iv(), p[r + 1].iv()) }
pub open spec fn sorted_lines<I: Integer>(n: int, p: Seq<I>, j: Seq<I>) -> bool { forall|r: int| 0 <= r < n ==> #[trigger] sorted_line(p, j, r) }
pub open spec fn strict_lines<I: Integer>(n: int, p: Seq<I>, j: Seq<I>) -> bool { forall|r: int| 0 <= r < n ==> #[trigger] strict_line(p, j, r) }
// ---- diagonals -------------------------------------------------------------------------------------
pub open spec fn diag_row(k: int) -> int { if k >= 0 { 0 } else { -k } }
pub open spec fn diag_col(k: int) -> int { if k >= 0 { k } else { 0 } }
pub open spec fn diag_len(k: int, nr: int, nc: int) -> int {
    if nr - diag_row(k) <= nc - diag_col(k) { nr - diag_row(k) } else { nc - diag_col(k) }
}
