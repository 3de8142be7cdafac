//! Shared pieces: scalar/index glue, builders, structure checks, oracles.
use crate::case::*;
use num_complex::Complex64;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::coo::Coo;
use sparsetools::{Integer, Scalar};
use std::collections::BTreeMap;

pub type V = (i64, i64);

#[derive(Debug, Clone)]
pub enum Fail {
    /// panic, hang, invalid structure, wrong dimensions
    Safety(String),
    /// wrong answer
    Func(String),
}
pub type Res = Result<(), Fail>;
pub fn s<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Safety(m.into()))
}
pub fn f<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Func(m.into()))
}

pub trait Ix: Integer + std::hash::Hash + 'static {
    fn of(v: usize) -> Self {
        <Self as num_traits::NumCast>::from(v).unwrap()
    }
    fn us(self) -> usize {
        self.to_usize().unwrap_or(usize::MAX)
    }
}
impl Ix for usize {}
impl Ix for i32 {}
impl Ix for u32 {}
impl Ix for i64 {}
impl Ix for u8 {}
impl Ix for i8 {}

pub trait Nm: Scalar + std::fmt::Debug + std::ops::Neg<Output = Self> + 'static {
    fn of(v: V) -> Self;
    fn to(self) -> V;
    /// what the value (re, im) becomes in this scalar type
    fn proj(v: V) -> V {
        Self::of(v).to()
    }
}
fn fi(x: f64) -> i64 {
    if x.is_finite() && x.fract() == 0.0 {
        x as i64
    } else if x.is_nan() {
        i64::MIN
    } else if x == f64::INFINITY {
        i64::MAX
    } else if x == f64::NEG_INFINITY {
        i64::MIN + 1
    } else {
        // not an integer: keep something distinguishing
        (x.to_bits() >> 1) as i64
    }
}
thread_local! { static SCALE: std::cell::Cell<(i32, i32)> = std::cell::Cell::new((0, 0)); }
/// Floating-point values are built as `v * 2^a` and read back as `x * 2^-b` (exact for the magnitudes used): linear
/// operations must not notice.
pub fn set_scale(a: i32, b: i32) {
    SCALE.with(|s| s.set((a, b)));
}
fn pow2(e: i32) -> f64 {
    f64::from_bits(((1023 + e) as u64) << 52)
}
fn up(v: i64) -> f64 {
    v as f64 * pow2(SCALE.with(|s| s.get()).0)
}
fn down(x: f64) -> i64 {
    fi(x * pow2(-SCALE.with(|s| s.get()).1))
}
impl Nm for f64 {
    fn of(v: V) -> f64 {
        up(v.0)
    }
    fn to(self) -> V {
        (down(self), 0)
    }
    fn proj(v: V) -> V {
        (v.0, 0)
    }
}
impl Nm for f32 {
    fn of(v: V) -> f32 {
        v.0 as f32
    }
    fn to(self) -> V {
        (fi(self as f64), 0)
    }
}
impl Nm for i64 {
    fn of(v: V) -> i64 {
        v.0
    }
    fn to(self) -> V {
        (self, 0)
    }
}
impl Nm for Complex64 {
    fn of(v: V) -> Complex64 {
        Complex64::new(up(v.0), up(v.1))
    }
    fn to(self) -> V {
        (down(self.re), down(self.im))
    }
    fn proj(v: V) -> V {
        v
    }
}

impl Nm for i32 {
    fn of(v: V) -> i32 {
        v.0 as i32
    }
    fn to(self) -> V {
        (self as i64, 0)
    }
}
impl Nm for num_complex::Complex<f32> {
    fn of(v: V) -> Self {
        num_complex::Complex::new(v.0 as f32, v.1 as f32)
    }
    fn to(self) -> V {
        (fi(self.re as f64), fi(self.im as f64))
    }
}

pub fn vadd(a: V, b: V) -> V {
    (a.0 + b.0, a.1 + b.1)
}
pub fn vsub(a: V, b: V) -> V {
    (a.0 - b.0, a.1 - b.1)
}
pub fn vmul(a: V, b: V) -> V {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
pub fn vneg(a: V) -> V {
    (-a.0, -a.1)
}

pub fn iv<I: Ix>(v: &[usize]) -> Vec<I> {
    v.iter().map(|&a| I::of(a)).collect()
}
pub fn tv<T: Nm>(v: &[V]) -> Vec<T> {
    v.iter().map(|&a| T::of(a)).collect()
}
thread_local! { static AGE: std::cell::Cell<usize> = std::cell::Cell::new(0); }
/// The matrices of a case are built through one of several histories of calls that end in the same content.
pub fn set_age(a: usize) {
    AGE.with(|s| s.set(a));
}
/// the aged object, if its history ran and left the content asked for
fn aged<X>(build: impl FnOnce(usize) -> Option<X>, same: impl Fn(&X) -> bool) -> Option<X> {
    let age = AGE.with(|s| s.get());
    if age == 0 {
        return None;
    }
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(age).filter(|x| same(x)))).ok().flatten()
}
fn flipped<T: Nm>(m: &M) -> Vec<T> {
    tv(&m.x.iter().rev().map(|v| (v.1 + 1, v.0)).collect::<Vec<_>>())
}
pub fn csr<I: Ix, T: Nm>(m: &M) -> CSR<I, T> {
    let (p, j, x) = (iv::<I>(&m.p), iv::<I>(&m.j), tv::<T>(&m.x));
    let new = || CSR::new(m.rows, m.cols, p.clone(), j.clone(), x.clone());
    let build = |age: usize| match age {
        1 => {
            // other values, queried, then overwritten
            let mut a = CSR::new(m.rows, m.cols, p.clone(), j.clone(), flipped::<T>(m)).ok()?;
            let _ = (a.nnz(), a.has_sorted_indexes(), a.has_canonical_format(), a.diagonal().len(), a.to_csc().nnz(), a.t().nnz());
            a.values_mut().copy_from_slice(&x);
            Some(a)
        }
        2 => Some(CSC::new(m.cols, m.rows, j.clone(), p.clone(), x.clone()).ok()?.transpose()),
        3 => Some(CSC::new(m.cols, m.rows, j.clone(), p.clone(), x.clone()).ok()?.t()),
        4 => {
            let mut a = new().ok()?;
            a.sort_indexes();
            a.sum_duplicates().ok()?;
            Some(a)
        }
        5 => Some(new().ok()?.clone().transpose().transpose()),
        _ => {
            let mut a = new().ok()?;
            let _ = (a.has_canonical_format(), a.has_sorted_indexes());
            a.sort_indexes();
            Some(a)
        }
    };
    aged(build, |a| (a.rows(), a.cols()) == (m.rows, m.cols) && a.rowptr() == p && a.colidx() == j && a.values() == x)
        .unwrap_or_else(|| new().expect("harness: CSR::new rejected a valid matrix"))
}
pub fn csc<I: Ix, T: Nm>(m: &M) -> CSC<I, T> {
    let (p, j, x) = (iv::<I>(&m.p), iv::<I>(&m.j), tv::<T>(&m.x));
    let new = || CSC::new(m.rows, m.cols, j.clone(), p.clone(), x.clone());
    let build = |age: usize| match age {
        1 => {
            let mut a = CSC::new(m.rows, m.cols, j.clone(), p.clone(), flipped::<T>(m)).ok()?;
            let _ = (a.nnz(), a.has_sorted_indexes(), a.has_canonical_format(), a.diagonal().len(), a.to_csr().nnz(), a.t().nnz());
            a.values_mut().copy_from_slice(&x);
            Some(a)
        }
        2 => Some(CSR::new(m.cols, m.rows, p.clone(), j.clone(), x.clone()).ok()?.transpose()),
        3 => Some(CSR::new(m.cols, m.rows, p.clone(), j.clone(), x.clone()).ok()?.t()),
        4 => {
            let mut a = new().ok()?;
            a.sort_indexes();
            a.sum_duplicates();
            Some(a)
        }
        5 => Some(new().ok()?.transpose().transpose()),
        _ => {
            let mut a = new().ok()?;
            let _ = (a.has_canonical_format(), a.has_sorted_indexes());
            a.sort_indexes();
            a.prune().ok()?;
            Some(a)
        }
    };
    aged(build, |a| (a.rows(), a.cols()) == (m.rows, m.cols) && a.colptr() == p && a.rowidx() == j && a.values() == x)
        .unwrap_or_else(|| new().expect("harness: CSC::new rejected a valid matrix"))
}
pub fn coo<I: Ix, T: Nm>(m: &M) -> Coo<I, T> {
    let (p, j, x) = (iv::<I>(&m.p), iv::<I>(&m.j), tv::<T>(&m.x));
    let new = || Coo::new(m.rows, m.cols, p.clone(), j.clone(), x.clone());
    let h = x.len() / 2;
    let build = |age: usize| match age {
        1 => {
            let mut a = Coo::new(m.rows, m.cols, p.clone(), j.clone(), flipped::<T>(m)).ok()?;
            let _ = (a.nnz(), a.to_csr().nnz(), a.to_csc().nnz(), a.diagonal().len(), a.t().nnz());
            a.values_mut().copy_from_slice(&x);
            Some(a)
        }
        2 => Some(Coo::new(m.cols, m.rows, j.clone(), p.clone(), x.clone()).ok()?.transpose()),
        3 => Some(Coo::new(m.cols, m.rows, j.clone(), p.clone(), x.clone()).ok()?.t()),
        4 => {
            let mut a = Coo::with_size(m.rows, m.cols);
            for k in 0..x.len() {
                a.push(p[k], j[k], x[k]);
                if k == h {
                    let _ = (a.nnz(), a.to_csr().nnz(), a.to_csc().nnz());
                }
            }
            Some(a)
        }
        _ => {
            let mut a = Coo::new(m.rows, m.cols, p[..h].to_vec(), j[..h].to_vec(), x[..h].to_vec()).ok()?.clone();
            let _ = (a.nnz(), a.to_csr().nnz(), a.to_csc().nnz());
            a.extend(&p[h..], &j[h..], &x[h..]);
            Some(a)
        }
    };
    aged(build, |a| (a.rows(), a.cols()) == (m.rows, m.cols) && a.rowidx() == p && a.colidx() == j && a.values() == x)
        .unwrap_or_else(|| new().expect("harness: Coo::new rejected valid triplets"))
}

/// Compressed structure as lines of (minor index, value).
pub type Lines = Vec<Vec<(usize, V)>>;

/// The lines of an input matrix (values as the scalar type represents them).
pub fn lines_of<T: Nm>(m: &M) -> Lines {
    (0..m.p.len() - 1).map(|i| (m.p[i]..m.p[i + 1]).map(|k| (m.j[k], T::proj(m.x[k]))).collect()).collect()
}
/// triplets of an input COO
pub fn trips_of<T: Nm>(m: &M) -> Vec<(usize, usize, V)> {
    (0..m.x.len()).map(|k| (m.p[k], m.j[k], T::proj(m.x[k]))).collect()
}

pub fn structure<I: Ix, T: Nm>(p: &[I], j: &[I], x: &[T], nlines: usize, minor: usize) -> Result<Lines, Fail> {
    if p.len() != nlines + 1 {
        return s(format!("pointer array has length {} for {} lines", p.len(), nlines));
    }
    let p: Vec<usize> = p.iter().map(|a| a.us()).collect();
    if p[0] != 0 {
        return s(format!("pointer array starts at {}", p[0]));
    }
    for i in 0..nlines {
        if p[i] > p[i + 1] {
            return s(format!("pointer array decreases at line {}: {:?}", i, p));
        }
    }
    let nnz = p[nlines];
    if j.len() < nnz || x.len() < nnz {
        return s(format!("arrays of {} indices and {} values for {} stored entries", j.len(), x.len(), nnz));
    }
    for k in 0..nnz {
        if j[k].us() >= minor {
            return s(format!("stored index {} at {} outside dimension {}", j[k], k, minor));
        }
    }
    Ok((0..nlines).map(|i| (p[i]..p[i + 1]).map(|k| (j[k].us(), x[k].to())).collect()).collect())
}
pub fn r_csr<I: Ix, T: Nm>(a: &CSR<I, T>, rows: usize, cols: usize) -> Result<Lines, Fail> {
    if a.rows() != rows || a.cols() != cols {
        return s(format!("result is {}x{}, expected {}x{}", a.rows(), a.cols(), rows, cols));
    }
    structure(a.rowptr(), a.colidx(), a.values(), rows, cols)
}
pub fn r_csc<I: Ix, T: Nm>(a: &CSC<I, T>, rows: usize, cols: usize) -> Result<Lines, Fail> {
    if a.rows() != rows || a.cols() != cols {
        return s(format!("result is {}x{}, expected {}x{}", a.rows(), a.cols(), rows, cols));
    }
    structure(a.colptr(), a.rowidx(), a.values(), cols, rows)
}
pub fn r_coo<I: Ix, T: Nm>(a: &Coo<I, T>, rows: usize, cols: usize) -> Result<Vec<(usize, usize, V)>, Fail> {
    if a.rows() != rows || a.cols() != cols {
        return s(format!("result is {}x{}, expected {}x{}", a.rows(), a.cols(), rows, cols));
    }
    if a.rowidx().len() != a.values().len() || a.colidx().len() != a.values().len() {
        return s("triplet arrays of different lengths");
    }
    let mut v = vec![];
    for k in 0..a.values().len() {
        let (i, j) = (a.rowidx()[k].us(), a.colidx()[k].us());
        if i >= rows || j >= cols {
            return s(format!("triplet {} at ({}, {}) outside {}x{}", k, i, j, rows, cols));
        }
        v.push((i, j, a.values()[k].to()));
    }
    Ok(v)
}

/// position -> stored values in order; key is (line, minor)
pub type Ent = BTreeMap<(usize, usize), Vec<V>>;
pub fn ents(l: &Lines) -> Ent {
    let mut e = Ent::new();
    for (i, line) in l.iter().enumerate() {
        for &(j, v) in line {
            e.entry((i, j)).or_default().push(v);
        }
    }
    e
}
pub fn ents_t(l: &[(usize, usize, V)]) -> Ent {
    let mut e = Ent::new();
    for &(i, j, v) in l {
        e.entry((i, j)).or_default().push(v);
    }
    e
}
pub fn swap(e: &Ent) -> Ent {
    e.iter().map(|(&(i, j), v)| ((j, i), v.clone())).collect()
}
pub type Dense = BTreeMap<(usize, usize), V>;
/// position -> nonzero sum
pub fn sums(e: &Ent) -> Dense {
    let mut d = Dense::new();
    for (&k, v) in e {
        let t = v.iter().fold((0, 0), |a, &b| vadd(a, b));
        if t != (0, 0) {
            d.insert(k, t);
        }
    }
    d
}
pub fn at(d: &Dense, i: usize, j: usize) -> V {
    d.get(&(i, j)).copied().unwrap_or((0, 0))
}
pub fn eq_dense(got: &Dense, want: &Dense) -> Res {
    if got == want {
        return Ok(());
    }
    for k in got.keys().chain(want.keys()) {
        let (g, w) = (at(got, k.0, k.1), at(want, k.0, k.1));
        if g != w {
            return f(format!("value at {:?} is {:?}, expected {:?}", k, g, w));
        }
    }
    Ok(())
}
pub fn eq_ents(got: &Ent, want: &Ent) -> Res {
    if got == want {
        return Ok(());
    }
    let e = vec![];
    for k in got.keys().chain(want.keys()) {
        let (g, w) = (got.get(k).unwrap_or(&e), want.get(k).unwrap_or(&e));
        if g != w {
            return f(format!("entries stored at {:?} are {:?}, expected {:?}", k, g, w));
        }
    }
    Ok(())
}
pub fn eq_lines(got: &Lines, want: &Lines) -> Res {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return f(format!("line {} holds {:?}, expected {:?}", i, g, w));
        }
    }
    if got.len() != want.len() {
        return f(format!("{} lines, expected {}", got.len(), want.len()));
    }
    Ok(())
}
pub fn sorted(l: &Lines) -> bool {
    l.iter().all(|v| v.windows(2).all(|w| w[0].0 <= w[1].0))
}
pub fn strict(l: &Lines) -> bool {
    l.iter().all(|v| v.windows(2).all(|w| w[0].0 < w[1].0))
}
pub fn nodup(l: &Lines) -> bool {
    ents(l).values().all(|v| v.len() == 1)
}
pub fn nozero(l: &Lines) -> bool {
    l.iter().all(|v| v.iter().all(|e| e.1 != (0, 0)))
}
pub fn want(b: bool, m: &str) -> Res {
    if b {
        Ok(())
    } else {
        f(m)
    }
}
pub fn dense_of<T: Nm>(d: &[Vec<T>], rows: usize, cols: usize) -> Result<Dense, Fail> {
    if d.len() != rows || d.iter().any(|r| r.len() != cols) {
        return s("dense array has the wrong dimensions");
    }
    let mut e = Dense::new();
    for i in 0..rows {
        for j in 0..cols {
            let v = d[i][j].to();
            if v != (0, 0) {
                e.insert((i, j), v);
            }
        }
    }
    Ok(e)
}
