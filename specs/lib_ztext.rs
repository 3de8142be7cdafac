// ---- text ------------------------------------------------------------------------------------------------------------
use vstd::utf8::*;
/// the decimal digits of a number
pub open spec fn digits(n: nat) -> Seq<char> decreases n {
    let d = if n % 10 == 0 { '0' } else if n % 10 == 1 { '1' } else if n % 10 == 2 { '2' } else if n % 10 == 3 { '3' } else if n % 10 == 4 { '4' }
        else if n % 10 == 5 { '5' } else if n % 10 == 6 { '6' } else if n % 10 == 7 { '7' } else if n % 10 == 8 { '8' } else { '9' };
    if n < 10 { seq![d] } else { digits(n / 10).push(d) }
}
pub open spec fn dec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + digits((0 - n) as nat) } else { digits(n as nat) } }
/// what Display prints for a value (std's and num's formatting: assumed to be a function of the value)
pub uninterp spec fn shown<X>(x: X) -> Seq<char>;
pub broadcast axiom fn shown_int<I: Integer>(x: I) ensures #[trigger] shown::<I>(x) == dec(x.iv());
pub broadcast axiom fn shown_ref<X>(x: &X) ensures #[trigger] shown::<&X>(x) == shown::<X>(*x);
#[verifier::external_body]
pub fn vp_show<X>(s: &mut String, x: &X) ensures final(s)@ == old(s)@ + shown(*x) { unimplemented!() }
/// one stored entry on its line
pub open spec fn line3(i: int, j: int, v: Seq<char>) -> Seq<char> { Seq::<char>::empty() + "("@ + dec(i) + ", "@ + dec(j) + ") "@ + v }
pub proof fn line3_some(i: int, j: int, v: Seq<char>) ensures line3(i, j, v).len() > 0 { reveal_strlit("("); }
/// lines with a newline between them / behind each of them
#[verifier::opaque]
pub open spec fn nl_between(ls: Seq<Seq<char>>) -> Seq<char> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else if ls.len() == 1 { ls[0] } else { nl_between(ls.drop_last()).push('\n') + ls.last() }
}
#[verifier::opaque]
pub open spec fn nl_behind(ls: Seq<Seq<char>>) -> Seq<char> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { nl_behind(ls.drop_last()) + ls.last().push('\n') }
}
pub proof fn between_push(ls: Seq<Seq<char>>, l: Seq<char>)
    ensures nl_between(ls.push(l)) == if ls.len() == 0 { l } else { nl_between(ls).push('\n') + l }, ls.len() == 0 ==> nl_between(ls).len() == 0,
        l.len() > 0 ==> nl_between(ls.push(l)).len() > 0,
{ reveal(nl_between); reveal(nl_behind); assert(ls.push(l).drop_last() =~= ls); }
pub proof fn behind_push(ls: Seq<Seq<char>>, l: Seq<char>)
    ensures nl_behind(ls.push(l)) == nl_behind(ls) + l.push('\n'),
{ reveal(nl_between); reveal(nl_behind); assert(ls.push(l).drop_last() =~= ls); }
// writers: what has been written, as text
#[derive(Debug)]
pub struct WErr {}
pub trait Write: Sized {
    spec fn txt(&self) -> Seq<char>;
    /// writing to it never fails
    spec fn sound(&self) -> bool;
    /// it still passes on to what it did
    spec fn same(&self, o: &Self) -> bool;
    fn write(&mut self, b: &[u8]) -> (r: core::result::Result<usize, WErr>)
        requires valid_utf8(b@), old(self).sound(),
        ensures r.is_ok(), r.unwrap() == b.len(), final(self).txt() == old(self).txt() + decode_utf8(b@), final(self).sound(), final(self).same(old(self));
    fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), WErr>)
        requires valid_utf8(b@), old(self).sound(),
        ensures r.is_ok(), final(self).txt() == old(self).txt() + decode_utf8(b@), final(self).sound(), final(self).same(old(self));
    fn vp_wr(&mut self, b: String) -> (r: core::result::Result<(), WErr>)
        requires old(self).sound(),
        ensures r.is_ok(), final(self).txt() == old(self).txt() + b@, final(self).sound(), final(self).same(old(self));
}
impl Write for Vec<u8> {
    open spec fn txt(&self) -> Seq<char> { decode_utf8(self@) }
    open spec fn sound(&self) -> bool { valid_utf8(self@) }
    open spec fn same(&self, o: &Self) -> bool { true }
    #[verifier::external_body]
    fn write(&mut self, b: &[u8]) -> (r: core::result::Result<usize, WErr>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), WErr>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_wr(&mut self, b: String) -> (r: core::result::Result<(), WErr>) { unimplemented!() }
}
pub proof fn empty_bytes() ensures valid_utf8(Seq::<u8>::empty()), decode_utf8(Seq::<u8>::empty()) == Seq::<char>::empty() {
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    encode_utf8_valid_utf8(Seq::<char>::empty()); encode_utf8_decode_utf8(Seq::<char>::empty());
}
pub proof fn char_byte(c: char, b: u8) requires (c as u32) < 128, b as u32 == c as u32 ensures valid_utf8(seq![b]), decode_utf8(seq![b]) == seq![c] {
    broadcast use group_utf8_lib;
    let s = seq![c];
    assert(is_ascii_chars(s));
    is_ascii_chars_encode_utf8(s);
    assert(encode_utf8(s) =~= seq![b]);
    encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s);
}
/// the tab writer lines up what it is given; how is its own affair (assumed), and it prints the text of every cell
pub uninterp spec fn aligned(t: Seq<char>) -> Seq<char>;
pub enum Alignment { Left, Center, Right }
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct TabWriter<W> { w: W }
impl<W: Write> TabWriter<W> {
    pub uninterp spec fn given(&self) -> Seq<char>;
    pub uninterp spec fn sink(&self) -> W;
    #[verifier::external_body]
    pub fn new(w: W) -> (r: Self) ensures r.given().len() == 0, r.sink() == w { unimplemented!() }
    #[verifier::external_body]
    pub fn minwidth(self, n: usize) -> (r: Self) ensures r.given() == self.given(), r.sink() == self.sink() { unimplemented!() }
    #[verifier::external_body]
    pub fn padding(self, n: usize) -> (r: Self) ensures r.given() == self.given(), r.sink() == self.sink() { unimplemented!() }
    #[verifier::external_body]
    pub fn alignment(self, a: Alignment) -> (r: Self) ensures r.given() == self.given(), r.sink() == self.sink() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: core::result::Result<W, WErr>) requires self.sink().sound() ensures r.is_ok(), r.unwrap().sound(), r.unwrap().txt() == self.sink().txt() + aligned(self.given()) { unimplemented!() }
}
impl<W: Write> Write for TabWriter<W> {
    open spec fn txt(&self) -> Seq<char> { self.given() }
    open spec fn sound(&self) -> bool { self.sink().sound() }
    open spec fn same(&self, o: &Self) -> bool { self.sink() == o.sink() }
    #[verifier::external_body]
    fn write(&mut self, b: &[u8]) -> (r: core::result::Result<usize, WErr>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: core::result::Result<(), WErr>) { unimplemented!() }
    #[verifier::external_body]
    fn vp_wr(&mut self, b: String) -> (r: core::result::Result<(), WErr>) { unimplemented!() }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
    ensures valid_utf8(v@) ==> r.is_ok() && r.unwrap()@ == decode_utf8(v@);
/// an entry belongs to one line of the pointer array
pub proof fn ptr_line<I: Integer>(n: int, p: Seq<I>, i: int, k: int, t: int)
    requires is_ptr(n, p), 0 <= i < n, 0 <= k < n, p[i].iv() <= t < p[i + 1].iv(), p[k].iv() <= t < p[k + 1].iv()
    ensures i == k
{
    if i < k { assert(p[i + 1].iv() <= p[k].iv()); }
    if k < i { assert(p[k + 1].iv() <= p[i].iv()); }
}
/// a byte string literal (b"..." in the source)
#[verifier::external_body]
pub fn vp_bytes(s: &str) -> (r: &[u8]) ensures r@ == encode_utf8(s@) { s.as_bytes() }
pub broadcast proof fn bytes_text(s: Seq<char>) ensures valid_utf8(#[trigger] encode_utf8(s)), decode_utf8(encode_utf8(s)) == s { encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s); }
// tables
/// what stands in the cell at (r, c): the value stored there, a dash if none is
pub open spec fn cell_is<I: Integer, S: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<S>, cfg: Option<FmtFloatConfig>, r: int, c: int, s: Seq<char>) -> bool {
    &&& one_each(p, j, r) ==> forall|k: int| p[r].iv() <= k < p[r + 1].iv() && (#[trigger] j[k]).iv() == c ==> s == x[k].pretty(cfg)
    &&& (forall|k: int| p[r].iv() <= k < p[r + 1].iv() ==> (#[trigger] j[k]).iv() != c) ==> s == "-"@
}
/// no column is stored twice in the row
pub open spec fn one_each<I: Integer>(p: Seq<I>, j: Seq<I>, r: int) -> bool {
    forall|k: int, l: int| #![trigger j[k], j[l]] p[r].iv() <= k < l < p[r + 1].iv() ==> j[k].iv() != j[l].iv()
}
pub open spec fn row_is<I: Integer, S: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<S>, cfg: Option<FmtFloatConfig>, r: int, n: int, cs: Seq<Seq<char>>) -> bool {
    cs.len() == n && forall|c: int| 0 <= c < n ==> cell_is(p, j, x, cfg, r, c, #[trigger] cs[c])
}
pub open spec fn grid_is<I: Integer, S: Scalar>(p: Seq<I>, j: Seq<I>, x: Seq<S>, cfg: Option<FmtFloatConfig>, n_row: int, n_col: int, g: Seq<Seq<Seq<char>>>) -> bool {
    g.len() == n_row && forall|r: int| 0 <= r < n_row ==> row_is(p, j, x, cfg, r, n_col, #[trigger] g[r])
}
#[verifier::opaque]
pub open spec fn cells_txt(cs: Seq<Seq<char>>, w: int) -> Seq<char> decreases cs.len() {
    if cs.len() == 0 { Seq::empty() } else { cells_txt(cs.drop_last(), w) + cs.last() + (if cs.len() == w { "\t\n"@ } else { "\t"@ }) }
}
#[verifier::opaque]
pub open spec fn rows_txt(label: bool, g: Seq<Seq<Seq<char>>>, w: int) -> Seq<char> decreases g.len() {
    if g.len() == 0 { Seq::empty() } else { rows_txt(label, g.drop_last(), w) + (if label { dec(g.len() - 1) + "\t"@ } else { Seq::empty() }) + cells_txt(g.last(), w) }
}
#[verifier::opaque]
pub open spec fn heads(n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { heads(n - 1) + dec(n - 1) + "\t"@ } }
pub open spec fn table_txt(label: bool, g: Seq<Seq<Seq<char>>>, w: int) -> Seq<char> { (if label { "\t"@ + heads(w) + "\n"@ } else { Seq::empty() }) + rows_txt(label, g, w) }
pub proof fn cells_push(cs: Seq<Seq<char>>, c: Seq<char>, w: int) ensures cells_txt(cs.push(c), w) == cells_txt(cs, w) + c + (if cs.len() + 1 == w { "\t\n"@ } else { "\t"@ })
{ reveal(cells_txt); assert(cs.push(c).drop_last() =~= cs); }
pub proof fn rows_push(label: bool, g: Seq<Seq<Seq<char>>>, cs: Seq<Seq<char>>, w: int)
    ensures rows_txt(label, g.push(cs), w) == rows_txt(label, g, w) + (if label { dec(g.len() as int) + "\t"@ } else { Seq::empty() }) + cells_txt(cs, w)
{ reveal(rows_txt); assert(g.push(cs).drop_last() =~= g); }
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
/// a text without the newlines at its end
pub open spec fn trimmed(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() > 0 && t.last() == '\n' { trimmed(t.drop_last()) } else { t } }
pub trait TrimEnd { fn vp_trim_end(&self, p: &str) -> (r: &str) ; }
impl TrimEnd for String {
    #[verifier::external_body]
    fn vp_trim_end(&self, p: &str) -> (r: &str) ensures p@ == seq!['\n'] ==> r@ == trimmed(self@) { unimplemented!() }
}
pub proof fn texts0(label: bool, w: int)
    ensures cells_txt(Seq::empty(), w) == Seq::<char>::empty(), rows_txt(label, Seq::empty(), w) == Seq::<char>::empty(), heads(0) == Seq::<char>::empty(),
        nl_between(Seq::empty()) == Seq::<char>::empty(), nl_behind(Seq::empty()) == Seq::<char>::empty(),
{ reveal(cells_txt); reveal(rows_txt); reveal(heads); reveal(nl_between); reveal(nl_behind); }
pub proof fn heads_push(n: int) requires n >= 0 ensures heads(n + 1) == heads(n) + dec(n) + "\t"@ { reveal(heads); }
pub proof fn cat4(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) ensures a + (b + c + d) == a + b + c + d { assert(a + (b + c + d) =~= a + b + c + d); }
pub proof fn cat0(a: Seq<char>) ensures a + Seq::<char>::empty() == a, Seq::<char>::empty() + a == a { assert(a + Seq::<char>::empty() =~= a); assert(Seq::<char>::empty() + a =~= a); }
pub proof fn cat3(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) ensures a + b + (c + d) == a + b + c + d { assert(a + b + (c + d) =~= a + b + c + d); }
// numbers in tables: pretty_dtoa and the float operations are assumed to be functions of their arguments
pub uninterp spec fn default_cfg() -> FmtFloatConfig;
#[verifier::external_body]
pub fn vp_default_cfg() -> (r: FmtFloatConfig) ensures r == default_cfg() { unimplemented!() }
pub uninterp spec fn dtoa_txt(x: f64, c: FmtFloatConfig) -> Seq<char>;
#[verifier::external_body]
pub fn dtoa(x: f64, c: FmtFloatConfig) -> (r: String) ensures r@ == dtoa_txt(x, c) { unimplemented!() }
pub open spec fn num_txt(x: f64, c: Option<FmtFloatConfig>) -> Seq<char> { dtoa_txt(x, match c { Some(f) => f, None => default_cfg() }) }
pub uninterp spec fn f_neg(x: f64) -> bool;
pub uninterp spec fn f_abs(x: f64) -> f64;
pub uninterp spec fn f_wide(x: f32) -> f64;
#[verifier::external_body]
pub fn vp_wide(x: f32) -> (r: f64) ensures r == f_wide(x) { x as f64 }
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures r == f_abs(x);
pub assume_specification[ f32::abs ](x: f32) -> (r: f32) ensures f_wide(r) == f_abs(f_wide(x));
// 1 or -1 (not-a-number is out of scope)
pub assume_specification[ f64::signum ](x: f64) -> (r: f64) ensures r.partial_cmp_spec(&0.0f64) == Some(if f_neg(x) { Ordering::Less } else { Ordering::Greater }),
    0.0f64.partial_cmp_spec(&r) == Some(if f_neg(x) { Ordering::Greater } else { Ordering::Less });
pub assume_specification[ f64::is_sign_negative ](x: f64) -> (r: bool) ensures r == f_neg(x);
pub assume_specification[ f64::is_sign_positive ](x: f64) -> (r: bool) ensures r == !f_neg(x);
// 1 or -1 (not-a-number is out of scope)
pub assume_specification[ f32::signum ](x: f32) -> (r: f32) ensures r.partial_cmp_spec(&0.0f32) == Some(if f_neg(f_wide(x)) { Ordering::Less } else { Ordering::Greater }),
    0.0f32.partial_cmp_spec(&r) == Some(if f_neg(f_wide(x)) { Ordering::Greater } else { Ordering::Less });
pub assume_specification[ f32::is_sign_negative ](x: f32) -> (r: bool) ensures r == f_neg(f_wide(x));
pub assume_specification[ f32::is_sign_positive ](x: f32) -> (r: bool) ensures r == !f_neg(f_wide(x));
pub broadcast axiom fn f64_ord() ensures #[trigger] <f64 as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn f32_ord() ensures #[trigger] <f32 as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn shown_str(x: &str) ensures #[trigger] shown::<&str>(x) == x@;
pub broadcast axiom fn shown_string(x: String) ensures #[trigger] shown::<String>(x) == x@;
/// real part, sign of the imaginary part, j, its absolute value
pub open spec fn cplx_txt(re: f64, im: f64, c: Option<FmtFloatConfig>) -> Seq<char> {
    Seq::<char>::empty() + num_txt(re, c) + (if f_neg(im) { "-"@ } else { "+"@ }) + "j"@ + num_txt(f_abs(im), c)
}
