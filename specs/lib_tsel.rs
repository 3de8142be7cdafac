// ---- occupied diagonals ------------------------------------------------------------------------------------
/// the set d together with the diagonals (column minus row) of the entries [s, e) of row r
pub open spec fn dseg<I: Integer>(d: Set<isize>, j: Seq<I>, r: int, s: int, e: int) -> Set<isize> decreases e - s {
    if e <= s { d } else { dseg(d, j, r, s, e - 1).insert((j[e - 1].iv() - r) as isize) }
}
pub open spec fn dall<I: Integer>(p: Seq<I>, j: Seq<I>, n: int) -> Set<isize> decreases n {
    if n <= 0 { Set::empty() } else { dseg(dall(p, j, n - 1), j, n - 1, p[n - 1].iv(), p[n].iv()) }
}
// ---- selecting listed rows and columns ---------------------------------------------------------------------
/// the last position in [s, e) with minor index c, or -1
pub open spec fn last<I: Integer>(j: Seq<I>, s: int, e: int, c: int) -> int decreases e - s {
    if e <= s { -1 } else if j[e - 1].iv() == c { e - 1 } else { last(j, s, e - 1, c) }
}
pub proof fn last_occ<I: Integer>(j: Seq<I>, s: int, e: int, c: int)
    requires s >= 0
    ensures occ(j, s, e, c) == (last(j, s, e, c) >= 0), last(j, s, e, c) >= 0 ==> s <= last(j, s, e, c) < e && j[last(j, s, e, c)].iv() == c, last(j, s, e, c) >= -1
    decreases e - s
{
    if s < e { last_occ(j, s, e - 1, c); }
}
/// in a line without duplicates, the value at c is the value stored at the last (only) position with index c
pub proof fn last_esum<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int)
    requires s >= 0, distinct_seg(j, s, e)
    ensures esum(j, x, s, e, c) == (if last(j, s, e, c) >= 0 { x[last(j, s, e, c)].sv() } else { C::zero() })
{
    last_occ(j, s, e, c);
    let k = last(j, s, e, c);
    if k >= 0 { assert forall|l: int| s <= l < e && l != k implies (#[trigger] j[l]).iv() != j[k].iv() by { let z = j[k]; } esum_one(j, x, s, e, k); }
    else { esum_none(j, x, s, e, c); }
}
/// how many of the first n listed columns occur in the line [s, e)
pub open spec fn selcnt<I: Integer>(j: Seq<I>, s: int, e: int, cols: Seq<I>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { selcnt(j, s, e, cols, n - 1) + if occ(j, s, e, cols[n - 1].iv()) { 1int } else { 0 } }
}
/// total over the first m listed rows
pub open spec fn seltot<I: Integer>(p: Seq<I>, j: Seq<I>, rows: Seq<I>, cols: Seq<I>, m: int) -> int decreases m {
    if m <= 0 { 0 } else { seltot(p, j, rows, cols, m - 1) + selcnt(j, p[rows[m - 1].iv()].iv(), p[rows[m - 1].iv() + 1].iv(), cols, cols.len() as int) }
}
pub proof fn selcnt_mono<I: Integer>(j: Seq<I>, s: int, e: int, cols: Seq<I>, n: int, m: int)
    requires n <= m
    ensures 0 <= selcnt(j, s, e, cols, n) <= selcnt(j, s, e, cols, m)
    decreases m
{
    if m > 0 { if n < m { selcnt_mono(j, s, e, cols, n, m - 1); } else { selcnt_mono(j, s, e, cols, n - 1, m - 1); } }
}
pub proof fn seltot_mono<I: Integer>(p: Seq<I>, j: Seq<I>, rows: Seq<I>, cols: Seq<I>, n: int, m: int)
    requires n <= m
    ensures 0 <= seltot(p, j, rows, cols, n) <= seltot(p, j, rows, cols, m)
    decreases m
{
    if m > 0 { selcnt_mono(j, p[rows[m - 1].iv()].iv(), p[rows[m - 1].iv() + 1].iv(), cols, 0, cols.len() as int); }
    if m > 0 { if n < m { seltot_mono(p, j, rows, cols, n, m - 1); } else { seltot_mono(p, j, rows, cols, n - 1, m - 1); } }
}
/// output row r holds exactly the listed columns that occur in the listed row, with their value
pub open spec fn selrow<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, cols: Seq<I>, n: int, bj: Seq<I>, bx: Seq<T>, so: int, eo: int) -> bool {
    forall|q: int| 0 <= q < n ==> selpos(j, x, s, e, cols[q].iv(), #[trigger] vals(bj, bx, so, eo, q))
}
pub open spec fn selpos<I: Integer, T: Scalar>(j: Seq<I>, x: Seq<T>, s: int, e: int, c: int, w: Seq<T>) -> bool {
    w == if last(j, s, e, c) >= 0 { seq![x[last(j, s, e, c)]] } else { Seq::<T>::empty() }
}
pub open spec fn sel_ok<I: Integer, T: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<T>, rows: Seq<I>, cols: Seq<I>, m: int, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>) -> bool {
    forall|r: int, q: int| 0 <= r < m && 0 <= q < cols.len() ==>
        selpos(j, x, p[rows[r].iv()].iv(), p[rows[r].iv() + 1].iv(), cols[q].iv(), #[trigger] vall(bp, bj, bx, r, q))
}
/// selection from a matrix whose lines hold no duplicates: the value at (r, q) is that at (rows[r], cols[q])
pub proof fn sel_ent<I: Integer, T: Scalar>(nr: int, nc: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, rows: Seq<I>, cols: Seq<I>, m: int, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>)
    requires sel_ok(p, j, x, rows, cols, m, bp, bj, bx), distinct_lines(nr, p, j), wf(nr, nc, p, j), m <= rows.len(),
        forall|r: int| 0 <= r < rows.len() ==> 0 <= (#[trigger] rows[r]).iv() < nr,
    ensures forall|r: int, q: int| 0 <= r < m && 0 <= q < cols.len() ==> #[trigger] ent(bp, bj, bx, r, q) == ent(p, j, x, rows[r].iv(), cols[q].iv()),
        forall|r: int, q: int| 0 <= r < m && 0 <= q < cols.len() ==> #[trigger] occl(bp, bj, r, q) == occl(p, j, rows[r].iv(), cols[q].iv()),
{
    ptr_all(nr, p);
    assert forall|r: int, q: int| 0 <= r < m && 0 <= q < cols.len() implies #[trigger] ent(bp, bj, bx, r, q) == ent(p, j, x, rows[r].iv(), cols[q].iv()) by {
        let w = vall(bp, bj, bx, r, q); let rr = rows[r].iv();
        vals_sum(bj, bx, bp[r].iv(), bp[r + 1].iv(), q); ssum_small(w);
        assert(distinct_line(p, j, rr));
        last_esum(j, x, p[rr].iv(), p[rr + 1].iv(), cols[q].iv());
    }
    assert forall|r: int, q: int| 0 <= r < m && 0 <= q < cols.len() implies #[trigger] occl(bp, bj, r, q) == occl(p, j, rows[r].iv(), cols[q].iv()) by {
        let w = vall(bp, bj, bx, r, q); let rr = rows[r].iv();
        vals_has(bj, bx, bp[r].iv(), bp[r + 1].iv(), q);
        last_occ(j, p[rr].iv(), p[rr + 1].iv(), cols[q].iv());
    }
}
pub open spec fn sel_pre<I: Integer, T: Scalar>(nr: int, nc: int, p: Seq<I>, j: Seq<I>, x: Seq<T>, rows: Seq<I>, cols: Seq<I>) -> bool {
    &&& wfx(nr, nc, p, j, x) && nr < usize::MAX && nc <= usize::MAX
    &&& forall|r: int| 0 <= r < rows.len() ==> 0 <= (#[trigger] rows[r]).iv() < nr
    &&& forall|r: int| 0 <= r < cols.len() ==> 0 <= (#[trigger] cols[r]).iv() < nc
}
pub open spec fn sel_val<I: Integer, T: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<T>, rows: Seq<I>, cols: Seq<I>, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>) -> bool {
    &&& forall|r: int, q: int| 0 <= r < rows.len() && 0 <= q < cols.len() ==> #[trigger] ent(bp, bj, bx, r, q) == ent(p, j, x, rows[r].iv(), cols[q].iv())
    &&& forall|r: int, q: int| 0 <= r < rows.len() && 0 <= q < cols.len() ==> #[trigger] occl(bp, bj, r, q) == occl(p, j, rows[r].iv(), cols[q].iv())
}
// ---- concatenating lines ------------------------------------------------------------------------------------
/// the stored column indices (or values) of the listed rows, one after another
pub open spec fn catrows<I: Integer, X>(p: Seq<I>, y: Seq<X>, rows: Seq<int>) -> Seq<X> decreases rows.len() {
    if rows.len() == 0 { Seq::empty() } else { catrows(p, y, rows.drop_last()) + y.subrange(p[rows.last()].iv(), p[rows.last() + 1].iv()) }
}
pub proof fn catrows_push<I: Integer, X>(p: Seq<I>, y: Seq<X>, rows: Seq<int>, r: int)
    ensures catrows(p, y, rows.push(r)) == catrows(p, y, rows) + y.subrange(p[r].iv(), p[r + 1].iv())
{
    assert(rows.push(r).drop_last() == rows);
}
/// the first n listed rows
pub open spec fn rowlist(rows: Seq<usize>, n: int) -> Seq<int> { Seq::new(n as nat, |t: int| rows[t] as int) }
/// start, start + step, ... (n of them)
pub open spec fn rowrange(start: int, step: int, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { rowrange(start, step, n - 1).push(start + step * (n - 1)) }
}
/// the number of rows in start..stop taken every step
pub open spec fn rangelen(start: int, stop: int, step: int) -> int { if start >= stop || step <= 0 { 0 } else { (stop - start - 1) / step + 1 } }
pub proof fn rangelen_is(start: int, stop: int, step: int, n: int)
    requires step > 0, n >= 0, start + step * n >= stop, n > 0 ==> start + step * (n - 1) < stop
    ensures n == rangelen(start, stop, step)
{
    if n > 0 {
        assert(step * (n - 1) >= 0) by(nonlinear_arith) requires step > 0, n > 0;
        let d = stop - start - 1; let q = d / step;
        assert(d == step * q + d % step && 0 <= d % step < step) by(nonlinear_arith) requires step > 0, q == d / step, d >= 0;
        assert(q == n - 1) by(nonlinear_arith) requires step * q <= d, d < step * q + step, step * (n - 1) <= d, step * n > d, step > 0;
    }
}
pub proof fn rangelen_in(start: int, stop: int, step: int, n: int)
    requires step > 0, n >= 0, start + step * n < stop
    ensures n + 1 <= rangelen(start, stop, step)
{
    let d = stop - start - 1; let q = d / step;
    assert(step * n >= 0) by(nonlinear_arith) requires step > 0, n >= 0;
    assert(d == step * q + d % step && 0 <= d % step < step) by(nonlinear_arith) requires step > 0, q == d / step, d >= 0;
    assert(q >= n) by(nonlinear_arith) requires d < step * q + step, step * n <= d, step > 0;
}
pub proof fn rowrange_len(start: int, step: int, n: int)
    requires n >= 0
    ensures rowrange(start, step, n).len() == n
    decreases n
{ if n > 0 { rowrange_len(start, step, n - 1); } }
pub proof fn catrows_mono<I: Integer, X>(n: int, p: Seq<I>, y: Seq<X>, start: int, step: int, a: int, b: int)
    requires 0 <= a <= b
    ensures catrows(p, y, rowrange(start, step, a)).len() <= catrows(p, y, rowrange(start, step, b)).len()
    decreases b
{
    if a < b { catrows_mono(n, p, y, start, step, a, b - 1); catrows_push(p, y, rowrange(start, step, b - 1), start + step * (b - 1)); }
}
// ---- contiguous sub-matrix ---------------------------------------------------------------------------------
/// the positions in [s, e) whose minor index lies in lo..hi, in order
pub open spec fn kept<I: Integer>(j: Seq<I>, s: int, e: int, lo: int, hi: int) -> Seq<int> decreases e - s {
    if e <= s { Seq::empty() } else if lo <= j[e - 1].iv() < hi { kept(j, s, e - 1, lo, hi).push(e - 1) } else { kept(j, s, e - 1, lo, hi) }
}
pub open spec fn keptot<I: Integer>(p: Seq<I>, j: Seq<I>, r0: int, n: int, lo: int, hi: int) -> int decreases n {
    if n <= 0 { 0 } else { keptot(p, j, r0, n - 1, lo, hi) + kept(j, p[r0 + n - 1].iv(), p[r0 + n].iv(), lo, hi).len() }
}
pub proof fn kept_mono<I: Integer>(j: Seq<I>, s: int, e: int, f: int, lo: int, hi: int)
    requires e <= f
    ensures kept(j, s, e, lo, hi).len() <= kept(j, s, f, lo, hi).len()
    decreases f - s
{ if e < f && f > s { kept_mono(j, s, e, f - 1, lo, hi); } }
pub proof fn keptot_mono<I: Integer>(p: Seq<I>, j: Seq<I>, r0: int, n: int, m: int, lo: int, hi: int)
    requires n <= m
    ensures 0 <= keptot(p, j, r0, n, lo, hi) <= keptot(p, j, r0, m, lo, hi)
    decreases m
{ if m > 0 { if n < m { keptot_mono(p, j, r0, n, m - 1, lo, hi); } else { keptot_mono(p, j, r0, n - 1, m - 1, lo, hi); } } }
/// the output segment from so on holds the kept entries of [s, e), renumbered, in order
#[verifier::opaque]
pub open spec fn keptseg<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, lo: int, hi: int, bj: Seq<I>, bx: Seq<T>, so: int) -> bool {
    &&& forall|k: int| so <= k < so + kept(j, s, e, lo, hi).len() ==> (#[trigger] bj[k]).iv() == j[kept(j, s, e, lo, hi)[k - so]].iv() - lo
    &&& forall|k: int| so <= k < so + kept(j, s, e, lo, hi).len() ==> (#[trigger] bx[k]) == x[kept(j, s, e, lo, hi)[k - so]]
}
pub proof fn keptseg_vals<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, lo: int, hi: int, bj: Seq<I>, bx: Seq<T>, so: int, c: int)
    requires keptseg(j, x, s, e, lo, hi, bj, bx, so), 0 <= c < hi - lo
    ensures vals(bj, bx, so, so + kept(j, s, e, lo, hi).len(), c) == vals(j, x, s, e, lo + c)
    decreases e - s
{
    reveal(keptseg);
    if s < e {
        let k = kept(j, s, e, lo, hi); let k1 = kept(j, s, e - 1, lo, hi);
        assert(forall|t: int| 0 <= t < k1.len() ==> k[t] == #[trigger] k1[t]);
        assert(keptseg(j, x, s, e - 1, lo, hi, bj, bx, so));
        keptseg_vals(j, x, s, e - 1, lo, hi, bj, bx, so, c);
        if k.len() > k1.len() { let z = bj[so + k1.len()]; let y = bx[so + k1.len()]; assert(k[k1.len() as int] == e - 1); }
    }
}
pub proof fn keptseg_step<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, lo: int, hi: int, bj: Seq<I>, bx: Seq<T>, so: int, bj2: Seq<I>, bx2: Seq<T>)
    requires keptseg(j, x, s, e, lo, hi, bj, bx, so), s <= e,
        forall|k: int| so <= k < so + kept(j, s, e, lo, hi).len() ==> (#[trigger] bj2[k]) == bj[k], forall|k: int| so <= k < so + kept(j, s, e, lo, hi).len() ==> (#[trigger] bx2[k]) == bx[k],
        lo <= j[e].iv() < hi ==> bj2[so + kept(j, s, e, lo, hi).len()].iv() == j[e].iv() - lo && bx2[so + kept(j, s, e, lo, hi).len()] == x[e],
    ensures keptseg(j, x, s, e + 1, lo, hi, bj2, bx2, so)
{
    reveal(keptseg);
    let k = kept(j, s, e + 1, lo, hi); let k1 = kept(j, s, e, lo, hi);
    assert forall|q: int| so <= q < so + k.len() implies (#[trigger] bj2[q]).iv() == j[k[q - so]].iv() - lo by { let z = bj[q]; if q - so < k1.len() { assert(k[q - so] == k1[q - so]); } }
    assert forall|q: int| so <= q < so + k.len() implies (#[trigger] bx2[q]) == x[k[q - so]] by { let z = bx[q]; if q - so < k1.len() { assert(k[q - so] == k1[q - so]); } }
}
pub proof fn keptseg_start<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, lo: int, hi: int, bj: Seq<I>, bx: Seq<T>, so: int)
    ensures keptseg(j, x, s, s, lo, hi, bj, bx, so)
{ reveal(keptseg); }
pub proof fn keptseg_ext<I: Integer, T>(j: Seq<I>, x: Seq<T>, s: int, e: int, lo: int, hi: int, bj: Seq<I>, bx: Seq<T>, so: int, n: int, bj2: Seq<I>, bx2: Seq<T>)
    requires keptseg(j, x, s, e, lo, hi, bj, bx, so), so >= 0, so + kept(j, s, e, lo, hi).len() <= n,
        forall|k: int| 0 <= k < n ==> (#[trigger] bj2[k]) == bj[k], forall|k: int| 0 <= k < n ==> (#[trigger] bx2[k]) == bx[k],
    ensures keptseg(j, x, s, e, lo, hi, bj2, bx2, so)
{ reveal(keptseg);
    let k1 = kept(j, s, e, lo, hi);
    assert forall|q: int| so <= q < so + k1.len() implies (#[trigger] bj2[q]).iv() == j[k1[q - so]].iv() - lo by { let z = bj[q]; }
    assert forall|q: int| so <= q < so + k1.len() implies (#[trigger] bx2[q]) == x[k1[q - so]] by { let z = bx[q]; }
}
pub open spec fn kline<I: Integer, T>(p: Seq<I>, j: Seq<I>, x: Seq<T>, r0: int, lo: int, hi: int, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>, r: int) -> bool {
    keptseg(j, x, p[r0 + r].iv(), p[r0 + r + 1].iv(), lo, hi, bj, bx, bp[r].iv())
}
pub open spec fn sub_ok<I: Integer, T>(p: Seq<I>, j: Seq<I>, x: Seq<T>, r0: int, n: int, lo: int, hi: int, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>) -> bool {
    &&& forall|r: int| 0 <= r <= n ==> (#[trigger] bp[r]).iv() == keptot(p, j, r0, r, lo, hi)
    &&& forall|r: int| 0 <= r < n ==> #[trigger] kline(p, j, x, r0, lo, hi, bp, bj, bx, r)
}
pub proof fn sub_ent<I: Integer, T: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<T>, r0: int, n: int, lo: int, hi: int, bp: Seq<I>, bj: Seq<I>, bx: Seq<T>)
    requires sub_ok(p, j, x, r0, n, lo, hi, bp, bj, bx)
    ensures forall|r: int, c: int| 0 <= r < n && 0 <= c < hi - lo ==> #[trigger] vall(bp, bj, bx, r, c) == vall(p, j, x, r0 + r, lo + c),
        forall|r: int, c: int| 0 <= r < n && 0 <= c < hi - lo ==> #[trigger] ent(bp, bj, bx, r, c) == ent(p, j, x, r0 + r, lo + c),
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < hi - lo implies #[trigger] vall(bp, bj, bx, r, c) == vall(p, j, x, r0 + r, lo + c) by {
        let z = bp[r]; let y = bp[r + 1];
        assert(y.iv() == keptot(p, j, r0, r + 1, lo, hi)); assert(kline(p, j, x, r0, lo, hi, bp, bj, bx, r));
        keptseg_vals(j, x, p[r0 + r].iv(), p[r0 + r + 1].iv(), lo, hi, bj, bx, bp[r].iv(), c);
    }
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < hi - lo implies #[trigger] ent(bp, bj, bx, r, c) == ent(p, j, x, r0 + r, lo + c) by {
        let z = vall(bp, bj, bx, r, c);
        vals_sum(bj, bx, bp[r].iv(), bp[r + 1].iv(), c); vals_sum(j, x, p[r0 + r].iv(), p[r0 + r + 1].iv(), lo + c);
    }
}
pub proof fn kept_in<I: Integer>(j: Seq<I>, s: int, e: int, lo: int, hi: int)
    ensures forall|t: int| 0 <= t < kept(j, s, e, lo, hi).len() ==> s <= #[trigger] kept(j, s, e, lo, hi)[t] < e && lo <= j[kept(j, s, e, lo, hi)[t]].iv() < hi,
    decreases e - s
{
    if s < e {
        kept_in(j, s, e - 1, lo, hi);
        let k = kept(j, s, e, lo, hi); let k1 = kept(j, s, e - 1, lo, hi);
        assert forall|t: int| 0 <= t < k.len() implies s <= #[trigger] k[t] < e && lo <= j[k[t]].iv() < hi by { if t < k1.len() { let z = k1[t]; } }
    }
}
// ---- listed columns --------------------------------------------------------------------------------------
/// how often c is among the first n listed columns
pub open spec fn ccount(cols: Seq<usize>, n: int, c: int) -> int decreases n {
    if n <= 0 { 0 } else { ccount(cols, n - 1, c) + if cols[n - 1] == c { 1int } else { 0 } }
}
/// sum of the counts of columns 0..=c
pub open spec fn ccum(cols: Seq<usize>, n: int, c: int) -> int decreases c + 1 {
    if c < 0 { 0 } else { ccum(cols, n, c - 1) + ccount(cols, n, c) }
}
/// sum over the entries [0, k) of the count of their column
pub open spec fn centries<I: Integer>(cols: Seq<usize>, n: int, j: Seq<I>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { centries(cols, n, j, k - 1) + ccount(cols, n, j[k - 1].iv()) }
}
pub proof fn ccount_mono(cols: Seq<usize>, n: int, m: int, c: int)
    requires n <= m
    ensures 0 <= ccount(cols, n, c) <= ccount(cols, m, c), ccount(cols, n, c) <= if n < 0 { 0 } else { n }
    decreases m
{ if m > 0 { if n < m { ccount_mono(cols, n, m - 1, c); } else { ccount_mono(cols, n - 1, m - 1, c); } } }
pub proof fn ccum_step(cols: Seq<usize>, n: int, c: int)
    requires n > 0
    ensures ccum(cols, n, c) == ccum(cols, n - 1, c) + if cols[n - 1] <= c { 1int } else { 0 }
    decreases c + 1
{ if c >= 0 { ccum_step(cols, n, c - 1); } }
pub proof fn ccum_le(cols: Seq<usize>, n: int, c: int)
    requires n >= 0
    ensures 0 <= ccum(cols, n, c) <= n
    decreases n
{ if n > 0 { ccum_le(cols, n - 1, c); ccum_step(cols, n, c); } else { ccum_zero(cols, c); } }
proof fn ccum_zero(cols: Seq<usize>, c: int) ensures ccum(cols, 0, c) == 0 decreases c + 1 { if c >= 0 { ccum_zero(cols, c - 1); } }
pub proof fn centries_mono<I: Integer>(cols: Seq<usize>, n: int, j: Seq<I>, k: int, l: int)
    requires k <= l, n >= 0
    ensures 0 <= centries(cols, n, j, k) <= centries(cols, n, j, l)
    decreases l
{ if l > 0 { ccount_mono(cols, 0, n, j[l - 1].iv()); if k < l { centries_mono(cols, n, j, k, l - 1); } else { centries_mono(cols, n, j, k - 1, l - 1); } } }
pub proof fn kept_len<I: Integer>(j: Seq<I>, s: int, e: int, lo: int, hi: int)
    requires s <= e
    ensures kept(j, s, e, lo, hi).len() <= e - s
    decreases e - s
{ if s < e { kept_len(j, s, e - 1, lo, hi); } }
pub proof fn keptot_bound<I: Integer>(nr: int, p: Seq<I>, j: Seq<I>, r0: int, n: int, lo: int, hi: int)
    requires is_ptr(nr, p), 0 <= r0, 0 <= n, r0 + n <= nr
    ensures 0 <= keptot(p, j, r0, n, lo, hi) <= p[r0 + n].iv() - p[r0].iv() <= p[nr].iv()
    decreases n
{ ptr_all(nr, p); if n > 0 { keptot_bound(nr, p, j, r0, n - 1, lo, hi); kept_len(j, p[r0 + n - 1].iv(), p[r0 + n].iv(), lo, hi); } }
/// start of column c's group in the order array
pub open spec fn cprev<I: Integer>(offs: Seq<I>, c: int) -> int { if c <= 0 { 0 } else { offs[c - 1].iv() } }
/// the new column indices (values) the first n entries expand to, in order
pub open spec fn cexpj<I: Integer>(order: Seq<I>, offs: Seq<I>, j: Seq<I>, n: int) -> Seq<I> decreases n {
    if n <= 0 { Seq::empty() } else { cexpj(order, offs, j, n - 1) + order.subrange(cprev(offs, j[n - 1].iv()), offs[j[n - 1].iv()].iv()) }
}
pub open spec fn cexpx<I: Integer, T>(offs: Seq<I>, j: Seq<I>, x: Seq<T>, n: int) -> Seq<T> decreases n {
    if n <= 0 { Seq::empty() } else { cexpx(offs, j, x, n - 1) + Seq::new((offs[j[n - 1].iv()].iv() - cprev(offs, j[n - 1].iv())) as nat, |k: int| x[n - 1]) }
}
pub open spec fn coffs<I: Integer>(m: int, offs: Seq<I>, len: int) -> bool {
    &&& offs.len() >= m
    &&& forall|c: int, d: int| #![trigger offs[c], offs[d]] 0 <= c <= d < m ==> 0 <= offs[c].iv() <= offs[d].iv() <= len
    &&& 0 <= m <= usize::MAX && len <= usize::MAX
}
pub proof fn cexp_mono<I: Integer, T>(order: Seq<I>, offs: Seq<I>, j: Seq<I>, x: Seq<T>, m: int, n: int, k: int)
    requires n <= k, coffs(m, offs, order.len() as int), forall|q: int| 0 <= q < k ==> 0 <= (#[trigger] j[q]).iv() < m
    ensures cexpj(order, offs, j, n).len() <= cexpj(order, offs, j, k).len(), cexpx(offs, j, x, k).len() == cexpj(order, offs, j, k).len(),
    decreases k
{ if k > 0 { let z = j[k - 1]; let y = offs[z.iv()]; if n < k { cexp_mono(order, offs, j, x, m, n, k - 1); } else { cexp_mono(order, offs, j, x, m, n - 1, k - 1); } } }
