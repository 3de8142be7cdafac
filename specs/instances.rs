// The laws of `Integer` hold of every primitive integer type a caller may choose (usize and i8 are in
// prelude.rs).  Verified together with the lemma library; no unit depends on it.
impl Integer for i16 {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { i16::MIN as int }
    open spec fn imax() -> int { i16::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { if *self >= 0 && *self as u64 <= usize::MAX as u64 { Some(*self as usize) } else { None } }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
impl Integer for i32 {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { i32::MIN as int }
    open spec fn imax() -> int { i32::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { if *self >= 0 && *self as u64 <= usize::MAX as u64 { Some(*self as usize) } else { None } }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
impl Integer for i64 {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { i64::MIN as int }
    open spec fn imax() -> int { i64::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { if *self >= 0 && *self as u64 <= usize::MAX as u64 { Some(*self as usize) } else { None } }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
impl Integer for isize {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { isize::MIN as int }
    open spec fn imax() -> int { isize::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { if *self >= 0 && *self as u64 <= usize::MAX as u64 { Some(*self as usize) } else { None } }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
impl Integer for u8 {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { 0 }
    open spec fn imax() -> int { u8::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { if *self as u64 <= usize::MAX as u64 { Some(*self as usize) } else { None } }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
impl Integer for u16 {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { 0 }
    open spec fn imax() -> int { u16::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { if *self as u64 <= usize::MAX as u64 { Some(*self as usize) } else { None } }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
impl Integer for u32 {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { 0 }
    open spec fn imax() -> int { u32::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { if *self as u64 <= usize::MAX as u64 { Some(*self as usize) } else { None } }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
impl Integer for u64 {
    open spec fn iv(self) -> int { self as int }
    open spec fn imin() -> int { 0 }
    open spec fn imax() -> int { u64::MAX as int }
    proof fn law_range(self) {}
    proof fn law_inj(self, o: Self) {}
    proof fn law_add(self, o: Self) {}
    proof fn law_sub(self, o: Self) {}
    proof fn law_add_assign(self, o: Self) {}
    proof fn law_sub_assign(self, o: Self) {}
    proof fn law_eq(self, o: Self) {}
    proof fn law_cmp(self, o: Self) {}
    fn to_usize(&self) -> (r: Option<usize>) { if *self as u64 <= usize::MAX as u64 { Some(*self as usize) } else { None } }
    #[verifier::external_body]
    fn from<N: ToPrim>(n: N) -> (r: Option<Self>) { unimplemented!() }
    fn zero() -> (r: Self) { 0 }
    fn one() -> (r: Self) { 1 }
}
