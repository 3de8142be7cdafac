@fn ccsr::CSR@CCSR::conj
@props C15
@free ccsr_conj <I: Integer, F: Float, C: Complex<F>>
@selfty CSR<I, C>
@map 0 C ; C
ensures vpo.sv() == cx_conj(vpm.sv())
@sig
requires csr_ok(*slf),
ensures csr_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.rowptr@ == slf.rowptr@, res.colidx@ == slf.colidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_conj(slf.values[k].sv()),

@fn ccsr::CSR@CCSR::real
@props C15
@free ccsr_real <I: Integer, F: Float, C: Complex<F>>
@selfty CSR<I, C>
@map 0 C ; F
ensures vpo.sv() == cx_re(vpm.sv())
@sig
requires csr_ok(*slf),
ensures csr_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.rowptr@ == slf.rowptr@, res.colidx@ == slf.colidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_re(slf.values[k].sv()),

@fn ccsr::CSR@CCSR::imag
@props C15
@free ccsr_imag <I: Integer, F: Float, C: Complex<F>>
@selfty CSR<I, C>
@map 0 C ; F
ensures vpo.sv() == cx_im(vpm.sv())
@sig
requires csr_ok(*slf),
ensures csr_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.rowptr@ == slf.rowptr@, res.colidx@ == slf.colidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_im(slf.values[k].sv()),

@fn ccsr::CSR@CCSR::h
@props C15
@free ccsr_h <I: Integer, F: Float, C: Complex<F>>
@selfty CSR<I, C>
@uses ccsr::CSR@CCSR::conj ; csr::CSR::transpose
@sub self.conj() ==> ccsr_conj::<I, F, C>(self)
@sig
requires csr_ok(*slf),
ensures csc_ok(res), res.rows == slf.cols, res.cols == slf.rows, csc_nnz(res) == csr_nnz(*slf),
    forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols ==> #[trigger] csc_at(res, c, r) == cx_conj(csr_at(*slf, r, c)),
@end
    proof {
        assert forall|m: CSR<I, C>| #[trigger] csr_ok(m) && m.rowptr@ == slf.rowptr@ && m.colidx@ == slf.colidx@ && m.values.len() == slf.values.len() && (forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] m.values[k]).sv() == cx_conj(slf.values[k].sv()))
            implies (forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols ==> #[trigger] csr_at(m, r, c) == cx_conj(csr_at(*slf, r, c))) by {
            lines_conj(slf.rows as int, slf.cols as int, slf.rowptr@, slf.colidx@, slf.values@, m.values@);
            assert forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols implies #[trigger] csr_at(m, r, c) == cx_conj(csr_at(*slf, r, c)) by { assert(ent(slf.rowptr@, slf.colidx@, m.values@, r, c) == csr_at(m, r, c)); } }
    }

@fn ccsc::CSC@CCSC::conj
@props C15
@free ccsc_conj <I: Integer, F: Float, C: Complex<F>>
@selfty CSC<I, C>
@map 0 C ; C
ensures vpo.sv() == cx_conj(vpm.sv())
@sig
requires csc_ok(*slf),
ensures csc_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.colptr@ == slf.colptr@, res.rowidx@ == slf.rowidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_conj(slf.values[k].sv()),

@fn ccsc::CSC@CCSC::real
@props C15
@free ccsc_real <I: Integer, F: Float, C: Complex<F>>
@selfty CSC<I, C>
@map 0 C ; F
ensures vpo.sv() == cx_re(vpm.sv())
@sig
requires csc_ok(*slf),
ensures csc_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.colptr@ == slf.colptr@, res.rowidx@ == slf.rowidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_re(slf.values[k].sv()),

@fn ccsc::CSC@CCSC::imag
@props C15
@free ccsc_imag <I: Integer, F: Float, C: Complex<F>>
@selfty CSC<I, C>
@map 0 C ; F
ensures vpo.sv() == cx_im(vpm.sv())
@sig
requires csc_ok(*slf),
ensures csc_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.colptr@ == slf.colptr@, res.rowidx@ == slf.rowidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_im(slf.values[k].sv()),

@fn ccsc::CSC@CCSC::h
@props C15
@free ccsc_h <I: Integer, F: Float, C: Complex<F>>
@selfty CSC<I, C>
@uses ccsc::CSC@CCSC::conj ; csc::CSC::transpose
@sub self.conj() ==> ccsc_conj::<I, F, C>(self)
@sig
requires csc_ok(*slf),
ensures csr_ok(res), res.rows == slf.cols, res.cols == slf.rows, csr_nnz(res) == csc_nnz(*slf),
    forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols ==> #[trigger] csr_at(res, c, r) == cx_conj(csc_at(*slf, r, c)),
@end
    proof {
        assert forall|m: CSC<I, C>| #[trigger] csc_ok(m) && m.colptr@ == slf.colptr@ && m.rowidx@ == slf.rowidx@ && m.values.len() == slf.values.len() && (forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] m.values[k]).sv() == cx_conj(slf.values[k].sv()))
            implies (forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols ==> #[trigger] csc_at(m, r, c) == cx_conj(csc_at(*slf, r, c))) by {
            lines_conj(slf.cols as int, slf.rows as int, slf.colptr@, slf.rowidx@, slf.values@, m.values@);
            assert forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols implies #[trigger] csc_at(m, r, c) == cx_conj(csc_at(*slf, r, c)) by { assert(ent(slf.colptr@, slf.rowidx@, m.values@, c, r) == csc_at(m, r, c)); } }
    }

@fn ccsr::CSR@CCSR::with_real
@props C15
@free ccsr_with_real <I: Integer, F: Float, C: Complex<F>>
@selfty CSR<I, C>
@map 0 F ; C
ensures vpo.sv().re == vpm.sv().re && vpo.sv().im == 0real
@sig
requires csr_ok(*re),
ensures csr_ok(res), res.rows == re.rows, res.cols == re.cols, res.rowptr@ == re.rowptr@, res.colidx@ == re.colidx@, res.values.len() == re.values.len(),
    forall|k: int| 0 <= k < re.values.len() ==> (#[trigger] res.values[k]).sv().re == re.values[k].sv().re && res.values[k].sv().im == 0real,

@fn ccsr::CSR@CCSR::with_imag
@props C15
@free ccsr_with_imag <I: Integer, F: Float, C: Complex<F>>
@selfty CSR<I, C>
@map 0 F ; C
ensures vpo.sv().im == vpm.sv().re && vpo.sv().re == 0real
@sig
requires csr_ok(*im),
ensures csr_ok(res), res.rows == im.rows, res.cols == im.cols, res.rowptr@ == im.rowptr@, res.colidx@ == im.colidx@, res.values.len() == im.values.len(),
    forall|k: int| 0 <= k < im.values.len() ==> (#[trigger] res.values[k]).sv().im == im.values[k].sv().re && res.values[k].sv().re == 0real,

@fn ccoo::Coo@CCoo::conj
@props C15
@free ccoo_conj <I: Integer, F: Float, C: Complex<F>>
@selfty Coo<I, C>
@map 0 C ; C
ensures vpo.sv() == cx_conj(vpm.sv())
@sig
requires coo_ok(*slf),
ensures coo_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.rowidx@ == slf.rowidx@, res.colidx@ == slf.colidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_conj(slf.values[k].sv()),

@fn ccoo::Coo@CCoo::real
@props C15
@free ccoo_real <I: Integer, F: Float, C: Complex<F>>
@selfty Coo<I, C>
@map 0 C ; F
ensures vpo.sv() == cx_re(vpm.sv())
@sig
requires coo_ok(*slf),
ensures coo_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.rowidx@ == slf.rowidx@, res.colidx@ == slf.colidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_re(slf.values[k].sv()),

@fn ccoo::Coo@CCoo::imag
@props C15
@free ccoo_imag <I: Integer, F: Float, C: Complex<F>>
@selfty Coo<I, C>
@map 0 C ; F
ensures vpo.sv() == cx_im(vpm.sv())
@sig
requires coo_ok(*slf),
ensures coo_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.rowidx@ == slf.rowidx@, res.colidx@ == slf.colidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_im(slf.values[k].sv()),

@fn ccoo::Coo@CCoo::h
@props C15
@free ccoo_h <I: Integer, F: Float, C: Complex<F>>
@selfty Coo<I, C>
@uses ccoo::Coo@CCoo::conj ; coo::Coo::t
@sub self.conj() ==> ccoo_conj::<I, F, C>(self)
@sig
requires coo_ok(*slf),
ensures coo_ok(res), res.rows == slf.cols, res.cols == slf.rows, res.rowidx@ == slf.colidx@, res.colidx@ == slf.rowidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == cx_conj(slf.values[k].sv()),
    forall|r: int, c: int| #[trigger] coo_at(res, c, r) == cx_conj(coo_at(*slf, r, c)),
@end
    proof {
        assert forall|m: Coo<I, C>| #[trigger] coo_ok(m) && m.rowidx@ == slf.rowidx@ && m.colidx@ == slf.colidx@ && m.values.len() == slf.values.len() && (forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] m.values[k]).sv() == cx_conj(slf.values[k].sv()))
            implies (forall|r: int, c: int| #[trigger] coo_at(m, r, c) == cx_conj(coo_at(*slf, r, c))) by {
            assert forall|r: int, c: int| #[trigger] coo_at(m, r, c) == cx_conj(coo_at(*slf, r, c)) by { csum_conj(slf.rowidx@, slf.colidx@, slf.values@, m.values@, slf.values.len() as int, r, c); } }
    }

@fn traits::Complex@Complex::new
@props C15
@free cplx_new <>
@selfty Cplx<f64>
@extra
/// num_complex::Complex: its two fields, `new` and `conj` (assumed contracts)
pub struct Cplx<T> { pub re: T, pub im: T }
pub uninterp spec fn vp_neg_f64(a: f64) -> f64;
impl Cplx<f64> {
    pub fn new(re: f64, im: f64) -> (r: Self) ensures r.re == re, r.im == im { Cplx { re, im } }
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Self) ensures r.re == self.re, r.im == vp_neg_f64(self.im) { unimplemented!() }
}
@sig
ensures res.re == re, res.im == im,

@fn traits::Complex@Complex::conj
@props C15
@free cplx_conj <>
@selfty Cplx<f64>
@extra
/// num_complex::Complex: its two fields, `new` and `conj` (assumed contracts)
pub struct Cplx<T> { pub re: T, pub im: T }
pub uninterp spec fn vp_neg_f64(a: f64) -> f64;
impl Cplx<f64> {
    pub fn new(re: f64, im: f64) -> (r: Self) ensures r.re == re, r.im == im { Cplx { re, im } }
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Self) ensures r.re == self.re, r.im == vp_neg_f64(self.im) { unimplemented!() }
}
@sig
ensures res.re == slf.re, res.im == vp_neg_f64(slf.im),

@fn traits::Complex@Complex::real
@props C15
@free cplx_real <>
@selfty Cplx<f64>
@extra
/// num_complex::Complex: its two fields, `new` and `conj` (assumed contracts)
pub struct Cplx<T> { pub re: T, pub im: T }
pub uninterp spec fn vp_neg_f64(a: f64) -> f64;
impl Cplx<f64> {
    pub fn new(re: f64, im: f64) -> (r: Self) ensures r.re == re, r.im == im { Cplx { re, im } }
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Self) ensures r.re == self.re, r.im == vp_neg_f64(self.im) { unimplemented!() }
}
@sig
ensures res == slf.re,

@fn traits::Complex@Complex::imag
@props C15
@free cplx_imag <>
@selfty Cplx<f64>
@extra
/// num_complex::Complex: its two fields, `new` and `conj` (assumed contracts)
pub struct Cplx<T> { pub re: T, pub im: T }
pub uninterp spec fn vp_neg_f64(a: f64) -> f64;
impl Cplx<f64> {
    pub fn new(re: f64, im: f64) -> (r: Self) ensures r.re == re, r.im == im { Cplx { re, im } }
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Self) ensures r.re == self.re, r.im == vp_neg_f64(self.im) { unimplemented!() }
}
@sig
ensures res == slf.im,

@fn traits::Complex@Complex::new#2
@props C15
@free cplx_new <>
@selfty Cplx<f32>
@extra
/// num_complex::Complex: its two fields, `new` and `conj` (assumed contracts)
pub struct Cplx<T> { pub re: T, pub im: T }
pub uninterp spec fn vp_neg_f32(a: f32) -> f32;
impl Cplx<f32> {
    pub fn new(re: f32, im: f32) -> (r: Self) ensures r.re == re, r.im == im { Cplx { re, im } }
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Self) ensures r.re == self.re, r.im == vp_neg_f32(self.im) { unimplemented!() }
}
@sig
ensures res.re == re, res.im == im,

@fn traits::Complex@Complex::conj#2
@props C15
@free cplx_conj <>
@selfty Cplx<f32>
@extra
/// num_complex::Complex: its two fields, `new` and `conj` (assumed contracts)
pub struct Cplx<T> { pub re: T, pub im: T }
pub uninterp spec fn vp_neg_f32(a: f32) -> f32;
impl Cplx<f32> {
    pub fn new(re: f32, im: f32) -> (r: Self) ensures r.re == re, r.im == im { Cplx { re, im } }
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Self) ensures r.re == self.re, r.im == vp_neg_f32(self.im) { unimplemented!() }
}
@sig
ensures res.re == slf.re, res.im == vp_neg_f32(slf.im),

@fn traits::Complex@Complex::real#2
@props C15
@free cplx_real <>
@selfty Cplx<f32>
@extra
/// num_complex::Complex: its two fields, `new` and `conj` (assumed contracts)
pub struct Cplx<T> { pub re: T, pub im: T }
pub uninterp spec fn vp_neg_f32(a: f32) -> f32;
impl Cplx<f32> {
    pub fn new(re: f32, im: f32) -> (r: Self) ensures r.re == re, r.im == im { Cplx { re, im } }
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Self) ensures r.re == self.re, r.im == vp_neg_f32(self.im) { unimplemented!() }
}
@sig
ensures res == slf.re,

@fn traits::Complex@Complex::imag#2
@props C15
@free cplx_imag <>
@selfty Cplx<f32>
@extra
/// num_complex::Complex: its two fields, `new` and `conj` (assumed contracts)
pub struct Cplx<T> { pub re: T, pub im: T }
pub uninterp spec fn vp_neg_f32(a: f32) -> f32;
impl Cplx<f32> {
    pub fn new(re: f32, im: f32) -> (r: Self) ensures r.re == re, r.im == im { Cplx { re, im } }
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Self) ensures r.re == self.re, r.im == vp_neg_f32(self.im) { unimplemented!() }
}
@sig
ensures res == slf.im,

