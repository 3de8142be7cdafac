pub trait ToPrim: Sized + Copy { spec fn pv(self) -> int; }
impl ToPrim for usize { open spec fn pv(self) -> int { self as int } }
impl ToPrim for isize { open spec fn pv(self) -> int { self as int } }
impl ToPrim for i32 { open spec fn pv(self) -> int { self as int } }

pub trait Integer: Sized + Copy + Clone + ops::Add<Output=Self> + ops::Sub<Output=Self> + ops::AddAssign + ops::SubAssign + PartialEq + Eq + PartialOrd {
    spec fn iv(self) -> int;
    spec fn imin() -> int;
    spec fn imax() -> int;
    proof fn law_range(self) ensures Self::imin() <= self.iv() <= Self::imax(), Self::imin() <= 0, Self::imax() >= 127;
    proof fn law_inj(self, o: Self) ensures self.iv() == o.iv() ==> self == o;
    proof fn law_add(self, o: Self) ensures
        <Self as AddSpec<Self>>::obeys_add_spec(),
        self.add_req(o) == (Self::imin() <= self.iv() + o.iv() <= Self::imax()),
        self.add_req(o) ==> self.add_spec(o).iv() == self.iv() + o.iv();
    proof fn law_sub(self, o: Self) ensures
        <Self as SubSpec<Self>>::obeys_sub_spec(),
        self.sub_req(o) == (Self::imin() <= self.iv() - o.iv() <= Self::imax()),
        self.sub_req(o) ==> self.sub_spec(o).iv() == self.iv() - o.iv();
    proof fn law_add_assign(self, o: Self) ensures
        <Self as AddAssignSpec<Self>>::obeys_add_assign_spec(),
        self.add_assign_req(o) == (Self::imin() <= self.iv() + o.iv() <= Self::imax()),
        self.add_assign_req(o) ==> self.add_assign_spec(o).iv() == self.iv() + o.iv();
    proof fn law_sub_assign(self, o: Self) ensures
        <Self as SubAssignSpec<Self>>::obeys_sub_assign_spec(),
        self.sub_assign_req(o) == (Self::imin() <= self.iv() - o.iv() <= Self::imax()),
        self.sub_assign_req(o) ==> self.sub_assign_spec(o).iv() == self.iv() - o.iv();
    proof fn law_eq(self, o: Self) ensures
        <Self as PartialEqSpec<Self>>::obeys_eq_spec(),
        self.eq_spec(&o) == (self.iv() == o.iv());
    proof fn law_cmp(self, o: Self) ensures
        <Self as PartialOrdSpec<Self>>::obeys_partial_cmp_spec(),
        self.partial_cmp_spec(&o) == (if self.iv() < o.iv() { Some(Ordering::Less) } else if self.iv() == o.iv() { Some(Ordering::Equal) } else { Some(Ordering::Greater) });
    fn to_usize(&self) -> (r: Option<usize>)
        ensures 0 <= self.iv() <= usize::MAX ==> r == Some(self.iv() as usize),
           !(0 <= self.iv() <= usize::MAX) ==> r.is_none();
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>)
        ensures Self::imin() <= n.pv() <= Self::imax() ==> r.is_some() && r.unwrap().iv() == n.pv(),
           !(Self::imin() <= n.pv() <= Self::imax()) ==> r.is_none();
    fn zero() -> (r: Self) ensures r.iv() == 0;
    fn one() -> (r: Self) ensures r.iv() == 1;
}
pub broadcast proof fn b_add<I: Integer>(a: I, b: I) ensures
        #![trigger a.add_req(b)] #![trigger a.add_spec(b)]
        <I as AddSpec<I>>::obeys_add_spec(),
        a.add_req(b) == (I::imin() <= a.iv() + b.iv() <= I::imax()),
        a.add_req(b) ==> a.add_spec(b).iv() == a.iv() + b.iv() { a.law_add(b); }
pub broadcast proof fn b_sub<I: Integer>(a: I, b: I) ensures
        #![trigger a.sub_req(b)] #![trigger a.sub_spec(b)]
        <I as SubSpec<I>>::obeys_sub_spec(),
        a.sub_req(b) == (I::imin() <= a.iv() - b.iv() <= I::imax()),
        a.sub_req(b) ==> a.sub_spec(b).iv() == a.iv() - b.iv() { a.law_sub(b); }
pub broadcast proof fn b_add_assign<I: Integer>(a: I, b: I) ensures
        #![trigger a.add_assign_req(b)] #![trigger a.add_assign_spec(b)]
        <I as AddAssignSpec<I>>::obeys_add_assign_spec(),
        a.add_assign_req(b) == (I::imin() <= a.iv() + b.iv() <= I::imax()),
        a.add_assign_req(b) ==> a.add_assign_spec(b).iv() == a.iv() + b.iv() { a.law_add_assign(b); }
pub broadcast proof fn b_sub_assign<I: Integer>(a: I, b: I) ensures
        #![trigger a.sub_assign_req(b)] #![trigger a.sub_assign_spec(b)]
        <I as SubAssignSpec<I>>::obeys_sub_assign_spec(),
        a.sub_assign_req(b) == (I::imin() <= a.iv() - b.iv() <= I::imax()),
        a.sub_assign_req(b) ==> a.sub_assign_spec(b).iv() == a.iv() - b.iv() { a.law_sub_assign(b); }
pub broadcast proof fn b_eq<I: Integer>(a: I, b: I) ensures
        <I as PartialEqSpec<I>>::obeys_eq_spec(),
        #[trigger] a.eq_spec(&b) == (a.iv() == b.iv()) { a.law_eq(b); }
pub broadcast proof fn b_cmp<I: Integer>(a: I, b: I) ensures
        <I as PartialOrdSpec<I>>::obeys_partial_cmp_spec(),
        #[trigger] a.partial_cmp_spec(&b) == (if a.iv() < b.iv() { Some(Ordering::Less) } else if a.iv() == b.iv() { Some(Ordering::Equal) } else { Some(Ordering::Greater) }) { a.law_cmp(b); }
pub broadcast proof fn b_range<I: Integer>(a: I) ensures
        I::imin() <= #[trigger] a.iv() <= I::imax(), I::imin() <= 0, I::imax() >= 127 { a.law_range(); }
pub broadcast group g_int { b_add, b_sub, b_add_assign, b_sub_assign, b_eq, b_cmp, b_range }

// ---------------------------------------------------------------- scalars
pub ghost struct C { pub re: real, pub im: real }
impl C {
    pub open spec fn zero() -> C { C { re: 0real, im: 0real } }
    pub open spec fn one() -> C { C { re: 1real, im: 0real } }
    pub open spec fn add(self, o: C) -> C { C { re: self.re + o.re, im: self.im + o.im } }
    pub open spec fn sub(self, o: C) -> C { C { re: self.re - o.re, im: self.im - o.im } }
    pub open spec fn neg(self) -> C { C { re: 0real - self.re, im: 0real - self.im } }
    #[verifier::opaque]
    pub open spec fn mul(self, o: C) -> C { C { re: self.re * o.re - self.im * o.im, im: self.re * o.im + self.im * o.re } }
}
pub uninterp spec fn c_div(a: C, b: C) -> C;

pub trait Nonzero: Sized {
    spec fn nz(self) -> bool;
    fn nonzero(&self) -> (r: bool) ensures r == self.nz();
}
pub trait Scalar: Sized + Copy + Clone + PartialEq + Nonzero
    + ops::Add<Output=Self> + ops::Sub<Output=Self> + ops::Mul<Output=Self> + ops::Div<Output=Self>
    + ops::AddAssign + ops::SubAssign + ops::MulAssign {
    spec fn sv(self) -> C;
    proof fn slaw_inj(self, o: Self) ensures self.sv() == o.sv() ==> self == o;
    proof fn slaw_nz(self) ensures self.nz() == (self.sv() != C::zero());
    proof fn slaw_add(self, o: Self) ensures <Self as AddSpec<Self>>::obeys_add_spec(), self.add_req(o), self.add_spec(o).sv() == self.sv().add(o.sv());
    proof fn slaw_sub(self, o: Self) ensures <Self as SubSpec<Self>>::obeys_sub_spec(), self.sub_req(o), self.sub_spec(o).sv() == self.sv().sub(o.sv());
    proof fn slaw_mul(self, o: Self) ensures <Self as MulSpec<Self>>::obeys_mul_spec(), self.mul_req(o), self.mul_spec(o).sv() == self.sv().mul(o.sv());
    proof fn slaw_div(self, o: Self) ensures <Self as DivSpec<Self>>::obeys_div_spec(), self.div_req(o), self.div_spec(o).sv() == c_div(self.sv(), o.sv());
    proof fn slaw_add_assign(self, o: Self) ensures <Self as AddAssignSpec<Self>>::obeys_add_assign_spec(), self.add_assign_req(o), self.add_assign_spec(o).sv() == self.sv().add(o.sv());
    proof fn slaw_sub_assign(self, o: Self) ensures <Self as SubAssignSpec<Self>>::obeys_sub_assign_spec(), self.sub_assign_req(o), self.sub_assign_spec(o).sv() == self.sv().sub(o.sv());
    proof fn slaw_mul_assign(self, o: Self) ensures <Self as MulAssignSpec<Self>>::obeys_mul_assign_spec(), self.mul_assign_req(o), self.mul_assign_spec(o).sv() == self.sv().mul(o.sv());
    proof fn slaw_eq(self, o: Self) ensures <Self as PartialEqSpec<Self>>::obeys_eq_spec(), self.eq_spec(&o) == (self.sv() == o.sv());
    fn zero() -> (r: Self) ensures r.sv() == C::zero();
    fn one() -> (r: Self) ensures r.sv() == C::one();
    /// the value as tables show it
    spec fn pretty(self, c: Option<FmtFloatConfig>) -> Seq<char>;
    fn pretty_string(&self, c: Option<FmtFloatConfig>) -> (r: String) ensures r@ == self.pretty(c);
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct FmtFloatConfig { x: u8 }
pub broadcast proof fn s_add<T: Scalar>(a: T, b: T) ensures #![trigger a.add_req(b)] #![trigger a.add_spec(b)]
    <T as AddSpec<T>>::obeys_add_spec(), a.add_req(b), a.add_spec(b).sv() == a.sv().add(b.sv()) { a.slaw_add(b); }
pub broadcast proof fn s_sub<T: Scalar>(a: T, b: T) ensures #![trigger a.sub_req(b)] #![trigger a.sub_spec(b)]
    <T as SubSpec<T>>::obeys_sub_spec(), a.sub_req(b), a.sub_spec(b).sv() == a.sv().sub(b.sv()) { a.slaw_sub(b); }
pub broadcast proof fn s_mul<T: Scalar>(a: T, b: T) ensures #![trigger a.mul_req(b)] #![trigger a.mul_spec(b)]
    <T as MulSpec<T>>::obeys_mul_spec(), a.mul_req(b), a.mul_spec(b).sv() == a.sv().mul(b.sv()) { a.slaw_mul(b); }
pub broadcast proof fn s_div<T: Scalar>(a: T, b: T) ensures #![trigger a.div_req(b)] #![trigger a.div_spec(b)]
    <T as DivSpec<T>>::obeys_div_spec(), a.div_req(b), a.div_spec(b).sv() == c_div(a.sv(), b.sv()) { a.slaw_div(b); }
pub broadcast proof fn s_add_assign<T: Scalar>(a: T, b: T) ensures #![trigger a.add_assign_req(b)] #![trigger a.add_assign_spec(b)]
    <T as AddAssignSpec<T>>::obeys_add_assign_spec(), a.add_assign_req(b), a.add_assign_spec(b).sv() == a.sv().add(b.sv()) { a.slaw_add_assign(b); }
pub broadcast proof fn s_sub_assign<T: Scalar>(a: T, b: T) ensures #![trigger a.sub_assign_req(b)] #![trigger a.sub_assign_spec(b)]
    <T as SubAssignSpec<T>>::obeys_sub_assign_spec(), a.sub_assign_req(b), a.sub_assign_spec(b).sv() == a.sv().sub(b.sv()) { a.slaw_sub_assign(b); }
pub broadcast proof fn s_mul_assign<T: Scalar>(a: T, b: T) ensures #![trigger a.mul_assign_req(b)] #![trigger a.mul_assign_spec(b)]
    <T as MulAssignSpec<T>>::obeys_mul_assign_spec(), a.mul_assign_req(b), a.mul_assign_spec(b).sv() == a.sv().mul(b.sv()) { a.slaw_mul_assign(b); }
pub broadcast proof fn s_eq<T: Scalar>(a: T, b: T) ensures 
    <T as PartialEqSpec<T>>::obeys_eq_spec(), #[trigger] a.eq_spec(&b) == (a.sv() == b.sv()) { a.slaw_eq(b); }
pub broadcast proof fn s_nz<T: Scalar>(a: T) ensures #[trigger] a.nz() == (a.sv() != C::zero()) { a.slaw_nz(); }
pub broadcast group g_sc { s_add, s_sub, s_mul, s_div, s_add_assign, s_sub_assign, s_mul_assign, s_eq, s_nz }
pub broadcast proof fn oi_add<X: Integer>() ensures #[trigger] <X as AddSpec<X>>::obeys_add_spec() { let a: X = arbitrary(); a.law_add(a); }
pub broadcast proof fn oi_sub<X: Integer>() ensures #[trigger] <X as SubSpec<X>>::obeys_sub_spec() { let a: X = arbitrary(); a.law_sub(a); }
pub broadcast proof fn oi_add_assign<X: Integer>() ensures #[trigger] <X as AddAssignSpec<X>>::obeys_add_assign_spec() { let a: X = arbitrary(); a.law_add_assign(a); }
pub broadcast proof fn oi_sub_assign<X: Integer>() ensures #[trigger] <X as SubAssignSpec<X>>::obeys_sub_assign_spec() { let a: X = arbitrary(); a.law_sub_assign(a); }
pub broadcast proof fn oi_eq<X: Integer>() ensures #[trigger] <X as PartialEqSpec<X>>::obeys_eq_spec() { let a: X = arbitrary(); a.law_eq(a); }
pub broadcast proof fn os_add<X: Scalar>() ensures #[trigger] <X as AddSpec<X>>::obeys_add_spec() { let a: X = arbitrary(); a.slaw_add(a); }
pub broadcast proof fn os_sub<X: Scalar>() ensures #[trigger] <X as SubSpec<X>>::obeys_sub_spec() { let a: X = arbitrary(); a.slaw_sub(a); }
pub broadcast proof fn os_mul<X: Scalar>() ensures #[trigger] <X as MulSpec<X>>::obeys_mul_spec() { let a: X = arbitrary(); a.slaw_mul(a); }
pub broadcast proof fn os_div<X: Scalar>() ensures #[trigger] <X as DivSpec<X>>::obeys_div_spec() { let a: X = arbitrary(); a.slaw_div(a); }
pub broadcast proof fn os_add_assign<X: Scalar>() ensures #[trigger] <X as AddAssignSpec<X>>::obeys_add_assign_spec() { let a: X = arbitrary(); a.slaw_add_assign(a); }
pub broadcast proof fn os_sub_assign<X: Scalar>() ensures #[trigger] <X as SubAssignSpec<X>>::obeys_sub_assign_spec() { let a: X = arbitrary(); a.slaw_sub_assign(a); }
pub broadcast proof fn os_mul_assign<X: Scalar>() ensures #[trigger] <X as MulAssignSpec<X>>::obeys_mul_assign_spec() { let a: X = arbitrary(); a.slaw_mul_assign(a); }
pub broadcast proof fn os_eq<X: Scalar>() ensures #[trigger] <X as PartialEqSpec<X>>::obeys_eq_spec() { let a: X = arbitrary(); a.slaw_eq(a); }
/// scalars that are ordered are real and ordered as the reals are
pub broadcast axiom fn s_cmp<X: Scalar + PartialOrd>(a: X, b: X) ensures
    #[trigger] a.partial_cmp_spec(&b) == (if a.sv().re < b.sv().re { Some(Ordering::Less) } else if a.sv().re == b.sv().re { Some(Ordering::Equal) } else { Some(Ordering::Greater) }),
    a.sv().im == 0real, b.sv().im == 0real;
pub broadcast axiom fn os_cmp<X: Scalar + PartialOrd>() ensures #[trigger] <X as PartialOrdSpec<X>>::obeys_partial_cmp_spec();
pub broadcast group g_scord { s_cmp, os_cmp }
impl Nonzero for bool { open spec fn nz(self) -> bool { self } fn nonzero(&self) -> (r: bool) { *self } }
pub broadcast proof fn oi_cmp<X: Integer>() ensures #[trigger] <X as PartialOrdSpec<X>>::obeys_partial_cmp_spec() { let a: X = arbitrary(); a.law_cmp(a); }
pub broadcast group g_obeys { oi_add, oi_sub, oi_add_assign, oi_sub_assign, oi_eq, os_add, os_sub, os_mul, os_div, os_add_assign, os_sub_assign, os_mul_assign, os_eq, oi_cmp }

/// negation of scalars
pub broadcast axiom fn s_neg<X: Scalar + ops::Neg<Output = X>>(a: X) ensures #![trigger a.neg_req()] #![trigger a.neg_spec()]
    <X as NegSpec>::obeys_neg_spec(), a.neg_req(), a.neg_spec().sv() == a.sv().neg();
pub broadcast axiom fn os_neg<X: Scalar + ops::Neg<Output = X>>() ensures #[trigger] <X as NegSpec>::obeys_neg_spec();
pub broadcast group g_neg { s_neg, os_neg }
// complex scalars
pub open spec fn cx_of(a: C, b: C) -> C { C { re: a.re, im: b.re } }
pub open spec fn cx_conj(a: C) -> C { C { re: a.re, im: 0real - a.im } }
pub open spec fn cx_re(a: C) -> C { C { re: a.re, im: 0real } }
pub open spec fn cx_im(a: C) -> C { C { re: a.im, im: 0real } }
pub trait Float: Scalar {}
pub trait Complex<F: Float>: Scalar {
    fn new(re: F, im: F) -> (r: Self) ensures r.sv() == cx_of(re.sv(), im.sv());
    fn conj(&self) -> (r: Self) ensures r.sv() == cx_conj(self.sv());
    fn real(&self) -> (r: F) ensures r.sv() == cx_re(self.sv());
    fn imag(&self) -> (r: F) ensures r.sv() == cx_im(self.sv());
}

// ---------------------------------------------------------------- std shims (assumed contracts)
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    where T: std::clone::Clone,
    ensures vp_copied(s@, r@), r.len() == s.len(), forall|i: int| 0 <= i < r.len() ==> cloned::<T>(s[i], #[trigger] r[i]);
pub assume_specification<T> [<[T] as std::borrow::ToOwned>::to_owned] (s: &[T]) -> (r: std::vec::Vec<T>)
    where T: std::clone::Clone,
    ensures vp_copied(s@, r@), r.len() == s.len(), forall|i: int| 0 <= i < r.len() ==> cloned::<T>(s[i], #[trigger] r[i]);
pub assume_specification<T> [<[T]>::fill] (s: &mut [T], x: T)
    where T: std::clone::Clone,
    ensures final(s).len() == old(s).len(), forall|i: int| 0 <= i < final(s).len() ==> cloned::<T>(x, #[trigger] final(s)[i]);
pub broadcast axiom fn copy_cloned<T: Copy>(a: T, b: T) ensures #[trigger] cloned::<T>(a, b) ==> a == b;
pub open spec fn vp_copied<T: std::clone::Clone>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned::<T>(a[i], #[trigger] b[i]) }
pub broadcast proof fn copied_same<T: Copy>(a: Seq<T>, b: Seq<T>) requires #[trigger] vp_copied(a, b) ensures a == b {
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(cloned::<T>(a[i], b[i])); copy_cloned(a[i], b[i]); }
    assert(a =~= b);
}
pub broadcast group g_misc { copy_cloned, copied_same }

#[derive(Debug)]
pub struct Error {}
pub type Result<T> = core::result::Result<T, Error>;
pub fn vp_err() -> Error { Error {} }
#[verifier::external_body]
pub fn vp_panic() -> ! requires false { loop {} }
#[verifier::external_body]
pub fn vp_panic_may() -> ! { loop {} }
/// assert!/assert_eq! where the contract promises that they do not fail ...
pub fn vp_assert(b: bool) requires b {}
/// ... and where it only speaks about calls that return
#[verifier::external_body]
pub fn vp_assert_may(b: bool) ensures b { if !b { loop {} } }
pub trait VpUnwrap<A>: Sized { spec fn vp_val(self) -> Option<A>; fn vp_unwrap(self) -> (r: A) ensures self.vp_val() == Some(r); }
impl<A> VpUnwrap<A> for Result<A> {
    open spec fn vp_val(self) -> Option<A> { match self { Ok(a) => Some(a), Err(_) => None } }
    fn vp_unwrap(self) -> (r: A) { match self { Ok(a) => a, Err(_) => vp_panic_may() } }
}
impl<A> VpUnwrap<A> for Option<A> {
    open spec fn vp_val(self) -> Option<A> { self }
    fn vp_unwrap(self) -> (r: A) { match self { Some(a) => a, None => vp_panic_may() } }
}
/// xs.iter().map(f).collect()
pub fn vp_map<A, B, F: Fn(&A) -> B>(s: &[A], f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] f.requires((&s[i],)),
    ensures r.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> f.ensures((&s[i],), #[trigger] r[i]),
{
    let mut r: Vec<B> = Vec::new();
    for i in 0..s.len()
        invariant r.len() == i, forall|k: int| 0 <= k < s.len() ==> #[trigger] f.requires((&s[k],)), forall|k: int| 0 <= k < i ==> f.ensures((&s[k],), #[trigger] r[k]),
    {
        assert(f.requires((&s[i as int],)));
        r.push(f(&s[i]));
    }
    r
}
/// v.extend(xs)
pub fn vp_extend<A: Copy>(v: &mut Vec<A>, s: &[A])
    ensures final(v)@ == old(v)@ + s@,
{
    broadcast use copy_cloned;
    v.extend_from_slice(s);
    assert(v@ =~= old(v)@ + s@);
}
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
#[verifier::external_body]
#[verifier::exec_allows_no_decreases_clause]
pub fn vp_diverge() -> ! { loop {} }

// The laws of `Integer` are proved here for usize (needed where /repo instantiates I = usize) and,
// as a consistency check of the trait's laws, for a signed type.  Verified with the lemma library.
impl Integer for usize {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { 0 }
    open spec fn imax() -> int { usize::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { Some(*self) }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
impl Integer for i8 {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { i8::MIN as int }
    open spec fn imax() -> int { i8::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { if *self >= 0 { Some(*self as usize) } else { None } }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
