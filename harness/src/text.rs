//! Text renderings, read back.
use crate::base::*;
use crate::case::*;
use num_complex::Complex;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::coo::Coo;
use sparsetools::dok::DoK;
use sparsetools::Scalar;

/// scalars whose printed form can be read back
pub trait Rd: Scalar {
    fn bits(&self) -> (u64, u64);
    fn read(t: &str) -> Option<Self>;
    fn read_cell(t: &str) -> Option<Self> {
        Self::read(t)
    }
    /// `self`, read from a table cell, is `o` rounded to six significant digits
    fn cell_of(&self, o: &Self) -> bool {
        self.bits() == o.bits()
    }
}
/// c has at most six significant digits and is as near to x as six digits allow
fn six(c: f64, x: f64) -> bool {
    if !x.is_finite() || x == 0.0 {
        return c.to_bits() == x.to_bits() || c == x || (c.is_nan() && x.is_nan());
    }
    let e = x.abs().log10().floor() as i32;
    let short: f64 = format!("{:.5e}", c).parse().unwrap();
    c.is_sign_negative() == x.is_sign_negative() && (short - c).abs() <= c.abs() * 1e-12 && (c - x).abs() <= 0.501e-5 * 10f64.powi(e)
}
/// the same for a single precision value: the text is what is compared
fn six32(c: f32, x: f32) -> bool {
    let d: f64 = format!("{}", c).parse().unwrap();
    six(d, x as f64)
}
impl Rd for f64 {
    fn cell_of(&self, o: &f64) -> bool {
        six(*self, *o)
    }
    fn bits(&self) -> (u64, u64) {
        ((self + 0.0).to_bits(), 0)
    }
    fn read(t: &str) -> Option<f64> {
        t.parse().ok()
    }
}
impl Rd for f32 {
    fn cell_of(&self, o: &f32) -> bool {
        six32(*self, *o)
    }
    fn bits(&self) -> (u64, u64) {
        ((self + 0.0).to_bits() as u64, 0)
    }
    fn read(t: &str) -> Option<f32> {
        t.parse().ok()
    }
}
impl Rd for i64 {
    fn bits(&self) -> (u64, u64) {
        (*self as u64, 0)
    }
    fn read(t: &str) -> Option<i64> {
        t.parse().ok()
    }
}
impl Rd for i32 {
    fn bits(&self) -> (u64, u64) {
        (*self as i64 as u64, 0)
    }
    fn read(t: &str) -> Option<i32> {
        t.parse().ok()
    }
}
macro_rules! rd_complex {
    ($f:ty, $six:ident) => {
        impl Rd for Complex<$f> {
            fn cell_of(&self, o: &Self) -> bool {
                $six(self.re, o.re) && $six(self.im, o.im)
            }
            fn bits(&self) -> (u64, u64) {
                (((self.re + 0.0) as f64).to_bits(), ((self.im + 0.0) as f64).to_bits())
            }
            fn read(t: &str) -> Option<Self> {
                t.parse().ok()
            }
            /// 1.5-j2.25
            fn read_cell(t: &str) -> Option<Self> {
                let k = t.find('j')?;
                let (re, im) = (&t[..k], &t[k + 1..]);
                let sign: $f = match re.chars().last()? {
                    '+' => 1.0,
                    '-' => -1.0,
                    _ => return None,
                };
                Some(Complex::new(re[..re.len() - 1].parse().ok()?, sign * im.parse::<$f>().ok()?))
            }
        }
    };
}
rd_complex!(f64, six);
rd_complex!(f32, six32);

fn lines<T: Rd>(t: &str) -> Result<Vec<(usize, usize, (u64, u64))>, Fail> {
    let mut out = vec![];
    for l in t.lines() {
        let e = || format!("line {:?} is not `(row, column) value`", l);
        if l.trim().is_empty() {
            continue;
        }
        let p = match l.trim().strip_prefix('(').and_then(|r| r.split_once(')')) {
            Some((ij, v)) => ij.split_once(',').and_then(|(i, j)| Some((i.trim().parse().ok()?, j.trim().parse().ok()?, T::read(v.trim())?.bits()))),
            None => None,
        };
        match p {
            Some(p) => out.push(p),
            None => return f(e()),
        }
    }
    out.sort();
    Ok(out)
}
fn same<T: Rd>(t: String, mut w: Vec<(usize, usize, (u64, u64))>) -> Res {
    w.sort();
    let g = lines::<T>(&t)?;
    if g != w {
        return f(format!("the text lists {} entries, {} are stored, or with other places or values:\n{}", g.len(), w.len(), t));
    }
    Ok(())
}
fn table<T: Rd>(t: String, rows: usize, cols: usize, w: Vec<(usize, usize, T)>) -> Res {
    if rows == 0 || cols == 0 {
        return if t.trim().is_empty() { Ok(()) } else { f(format!("table of an empty matrix: {:?}", t)) };
    }
    let ls: Vec<&str> = t.lines().collect();
    if ls.len() != rows {
        return f(format!("table has {} lines for {} rows:\n{}", ls.len(), rows, t));
    }
    let at: std::collections::HashMap<(usize, usize), T> = w.iter().map(|e| ((e.0, e.1), e.2)).collect();
    let mut n = 0;
    for (i, l) in ls.iter().enumerate() {
        let cs: Vec<&str> = l.split_whitespace().collect();
        if cs.len() != cols {
            return f(format!("table row {} has {} cells for {} columns: {:?}", i, cs.len(), cols, l));
        }
        for (j, c) in cs.iter().enumerate() {
            let e = at.get(&(i, j));
            match (e, *c) {
                (None, "-") => {}
                (Some(v), c) if T::read_cell(c).map_or(false, |x| x.cell_of(v)) => n += 1,
                _ => return f(format!("cell ({}, {}) shows {:?}, stored there: {}", i, j, c, e.is_some() as usize)),
            }
        }
    }
    if n != w.len() {
        return f(format!("{} entries shown, {} stored", n, w.len()));
    }
    Ok(())
}
fn distinct(m: &M) -> bool {
    (0..m.p.len() - 1).all(|i| {
        let mut l = m.j[m.p[i]..m.p[i + 1]].to_vec();
        l.sort();
        l.windows(2).all(|w| w[0] != w[1])
    })
}
/// values with a fraction
fn val<T: Nm>(v: V, k: i64) -> T {
    if k % 2 == 0 {
        T::of(v)
    } else if k % 5 == 3 {
        T::of(v) * T::of((1003, 0)) / T::of((7, 0))
    } else {
        T::of(v) * T::of((49, 0)) / T::of((4, 0))
    }
}
pub fn run<I: Ix, T: Nm + Rd>(c: &Case) -> Res {
    let m = &c.m[0];
    let k = c.k.first().copied().unwrap_or(0);
    let x: Vec<T> = m.x.iter().map(|&v| val::<T>(v, k)).collect();
    let at = |major: bool| -> Vec<(usize, usize, (u64, u64))> {
        (0..m.p.len() - 1).flat_map(|i| (m.p[i]..m.p[i + 1]).map(move |k| (i, k))).map(|(i, k)| if major { (i, m.j[k], x[k].bits()) } else { (m.j[k], i, x[k].bits()) }).collect()
    };
    match c.op.as_str() {
        "csr_to_string" => same::<T>(CSR::<I, T>::new(m.rows, m.cols, iv(&m.p), iv(&m.j), x.clone()).unwrap().to_string(), at(true)),
        "csc_to_string" => same::<T>(CSC::<I, T>::new(m.rows, m.cols, iv(&m.j), iv(&m.p), x.clone()).unwrap().to_string(), at(false)),
        "coo_to_string" => {
            let w = (0..m.x.len()).map(|k| (m.p[k], m.j[k], x[k].bits())).collect();
            same::<T>(Coo::<I, T>::new(m.rows, m.cols, iv(&m.p), iv(&m.j), x.clone()).unwrap().to_string(), w)
        }
        "dok_to_string" => {
            let mut d = DoK::<I, T>::new(m.rows, m.cols);
            let mut w = std::collections::BTreeMap::new();
            for k in 0..m.x.len() {
                d.set(I::of(m.p[k]), I::of(m.j[k]), x[k]).unwrap();
                w.insert((m.p[k], m.j[k]), x[k]);
            }
            let w = w.into_iter().filter(|e| !e.1.is_zero()).map(|e| (e.0 .0, e.0 .1, e.1.bits())).collect();
            same::<T>(d.to_string(), w)
        }
        _ => {
            let t = CSR::<I, T>::new(m.rows, m.cols, iv(&m.p), iv(&m.j), x.clone()).unwrap().to_table();
            if !distinct(m) {
                return Ok(()); // only that it comes back
            }
            let w = (0..m.p.len() - 1).flat_map(|i| (m.p[i]..m.p[i + 1]).map(move |k| (i, k))).map(|(i, k)| (i, m.j[k], x[k])).collect();
            table::<T>(t, m.rows, m.cols, w)
        }
    }
}
pub fn complex32<I: Ix>(c: &Case) -> Res {
    let m = &c.m[0];
    let q = if m.x.len() % 3 == 2 { 7.3 } else { 0.25 };
    let x: Vec<Complex<f32>> = m.x.iter().map(|&v| Complex::new(v.0 as f32 * q, v.1 as f32 * q)).collect();
    let t = CSR::<I, Complex<f32>>::new(m.rows, m.cols, iv(&m.p), iv(&m.j), x.clone()).unwrap().to_table();
    if !distinct(m) {
        return Ok(());
    }
    let w = (0..m.p.len() - 1).flat_map(|i| (m.p[i]..m.p[i + 1]).map(move |k| (i, k))).map(|(i, k)| (i, m.j[k], x[k])).collect();
    table::<Complex<f32>>(t, m.rows, m.cols, w)
}
