//! Operations: generator + check on the real code.
use crate::base::*;
use crate::case::*;
use crate::gen::*;
use num_complex::Complex64;
use sparsetools::coo::{CCoo, Coo};
use sparsetools::csc::{CCSC, CSC};
use sparsetools::csr::{CCSR, CSR};
use sparsetools::dok::DoK;
use sparsetools::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Op {
    pub name: &'static str,
    pub props: &'static [&'static str],
    /// 0 any scalar, 1 ordered scalar, 2 f64 only, 3 Complex64 only, 4 graph (f64), 5 signed values, 6 single numbers
    pub tys: u8,
    pub gen: fn(&mut G, &mut Case),
}
macro_rules! ops {
    ($($name:literal [$($p:literal),*] $t:literal $g:expr;)*) => {
        pub const OPS: &[Op] = &[$(Op { name: $name, props: &[$($p),*], tys: $t, gen: $g }),*];
    };
}
fn g_csr(g: &mut G, c: &mut Case) {
    c.m.push(g.any(false));
    c.k.push(g.r.below(4) as i64);
}
fn g_scalars(g: &mut G, c: &mut Case) {
    for _ in 0..4 {
        c.k.push(g.r.next() as i64 >> g.r.below(64));
    }
}
/// what the library's own scalar traits say about single numbers
pub fn scalars(c: &Case) -> Res {
    let text = c.op == "scalars_text";
    macro_rules! int {
        ($($t:ty)*) => {$(
            let mut v: Vec<$t> = vec![<$t>::MIN, <$t>::MAX, 0, 1, 2, 10, 100, <$t>::MAX / 2];
            v.extend(c.k.iter().map(|&k| k as $t));
            v.extend(c.k.iter().map(|&k| (k % 50) as $t));
            for x in v {
                if text {
                    want(x.pretty_string(None) == x.to_string(), &format!("{} {} is shown as {}", stringify!($t), x, x.pretty_string(None)))?
                } else {
                    want(x.nonzero() == (x != 0), &format!("nonzero() of {} {} is {}", stringify!($t), x, x.nonzero()))?
                }
            }
        )*};
    }
    int!(usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128);
    if !text {
        macro_rules! flt {
            ($($t:ident)*) => {$(
                let mut v: Vec<$t> = vec![0.0, -0.0, 1.0, -1.0, $t::MIN_POSITIVE, $t::EPSILON, 0.25, -0.5, $t::MAX, $t::MIN, $t::from_bits(1)];
                v.extend(c.k.iter().map(|&k| k as $t));
                v.extend(c.k.iter().map(|&k| 1.0 / (k as $t + 0.5)));
                for &x in &v {
                    want(x.nonzero() == (x != 0.0), &format!("nonzero() of {} {} is {}", stringify!($t), x, x.nonzero()))?;
                    for &y in &v {
                        let z = num_complex::Complex::<$t>::new(x, y);
                        want(z.nonzero() == (x != 0.0 || y != 0.0), &format!("nonzero() of complex {} is {}", z, z.nonzero()))?;
                    }
                }
            )*};
        }
        flt!(f64 f32);
        want(true.nonzero() && !false.nonzero(), "nonzero() of a bool")?;
    }
    Ok(())
}
fn g_csc(g: &mut G, c: &mut Case) {
    c.m.push(g.any(true));
    c.k.push(g.r.below(4) as i64);
}
fn g_trip(g: &mut G, c: &mut Case) {
    c.m.push(g.anytrip());
    c.k.push(g.r.below(4) as i64);
}
fn g_dense(g: &mut G, c: &mut Case) {
    // dense array as a full row-major vector
    let (r, n) = (g.dim(), g.dim());
    let mut m = g.vec(r * n);
    m.rows = r;
    m.cols = if r == 0 { 0 } else { n };
    for v in m.x.iter_mut() {
        if g.r.chance(1, 2) {
            *v = (0, 0);
        }
    }
    c.m.push(m);
}
fn g_csr_pair(g: &mut G, c: &mut Case) {
    let (a, b) = (g.dim(), g.dim());
    let both = g.r.chance(1, 3);
    for _ in 0..2 {
        let st = if both { Style::Canonical } else { g.style() };
        let m = g.csr(a, b, st);
        c.m.push(m);
    }
    share(g, c);
    c.k.push(g.r.below(4) as i64);
}
/// copy some positions of the first operand into the second (equal or opposite values)
fn share(g: &mut G, c: &mut Case) {
    if !g.r.chance(1, 2) {
        return;
    }
    let n = c.m[0].p.len() - 1;
    let a = c.m[0].clone();
    let b = &c.m[1];
    let mut m = M { rows: b.rows, cols: b.cols, p: vec![0], ..M::default() };
    for i in 0..n {
        let (lo, hi) = (a.p[i], a.p[i + 1]);
        if g.r.chance(1, 2) && hi - lo <= 4 {
            for k in lo..hi {
                m.j.push(a.j[k]);
                let v = a.x[k];
                m.x.push(match g.r.below(3) {
                    0 => v,
                    1 => (-v.0, -v.1),
                    _ => g.val(),
                });
            }
        } else {
            for k in b.p[i]..b.p[i + 1] {
                m.j.push(b.j[k]);
                m.x.push(b.x[k]);
            }
        }
        m.p.push(m.j.len());
    }
    c.m[1] = m;
}
fn g_csc_pair(g: &mut G, c: &mut Case) {
    g_csr_pair(g, c);
    for m in c.m.iter_mut() {
        std::mem::swap(&mut m.rows, &mut m.cols);
    }
}
fn g_coo_pair(g: &mut G, c: &mut Case) {
    let (a, b) = (g.dim(), g.dim());
    for _ in 0..2 {
        c.m.push(g.trip(a, b));
    }
    c.k.push(g.r.below(4) as i64);
}
fn g_mm(g: &mut G, c: &mut Case, csc: bool, csc2: bool) {
    if g.size == 4 {
        g.size = 3;
    }
    let (a, b, d) = (g.dim(), g.dim(), g.dim());
    let (s1, s2) = (g.style(), g.style());
    c.m.push(if csc { g.csc(a, b, s1) } else { g.csr(a, b, s1) });
    c.m.push(if csc2 { g.csc(b, d, s2) } else { g.csr(b, d, s2) });
    c.k.push(g.r.below(4) as i64);
}
fn g_mm_rr(g: &mut G, c: &mut Case) {
    g_mm(g, c, false, false)
}
fn g_mm_cc(g: &mut G, c: &mut Case) {
    g_mm(g, c, true, true)
}
fn g_mm_cr(g: &mut G, c: &mut Case) {
    g_mm(g, c, true, false)
}
fn g_mv(g: &mut G, c: &mut Case, csc: bool, nv: usize) {
    let m = g.any(csc);
    let x = g.vec(m.cols * nv);
    let extra = g.r.below(3);
    let y = g.vec(m.rows * nv + extra);
    c.m = vec![m, x, y];
    c.k = vec![nv as i64];
}
fn g_csr_mv(g: &mut G, c: &mut Case) {
    g_mv(g, c, false, 1)
}
fn g_csc_mv(g: &mut G, c: &mut Case) {
    g_mv(g, c, true, 1)
}
fn n_vecs(g: &mut G) -> usize {
    if g.r.below(16) == 0 {
        g.r.below(70)
    } else {
        g.r.below(4)
    }
}
fn g_csr_mvs(g: &mut G, c: &mut Case) {
    let n = n_vecs(g);
    g_mv(g, c, false, n)
}
fn g_csc_mvs(g: &mut G, c: &mut Case) {
    let n = n_vecs(g);
    g_mv(g, c, true, n)
}
fn g_coo_mv(g: &mut G, c: &mut Case) {
    let m = g.anytrip();
    let x = g.vec(m.cols);
    let extra = g.r.below(3);
    let y = g.vec(m.rows + extra);
    c.m = vec![m, x, y];
}
fn g_vec(g: &mut G, c: &mut Case) {
    let n = g.dim();
    c.m.push(g.vec(n));
}
fn g_kdiag(g: &mut G, c: &mut Case, csc: bool) {
    let (a, b) = (g.dim1(), g.dim1());
    let st = g.style();
    let m = if csc { g.csc(a, b, st) } else { g.csr(a, b, st) };
    let k = g.r.range(-(a as i64), b as i64);
    c.m.push(m);
    let y = g.vec(a.max(b) + 2);
    c.m.push(y);
    c.k.push(k);
}
fn g_csr_kdiag(g: &mut G, c: &mut Case) {
    g_kdiag(g, c, false)
}
fn g_csc_kdiag(g: &mut G, c: &mut Case) {
    g_kdiag(g, c, true)
}
fn g_upper(g: &mut G, c: &mut Case) {
    let (a, b) = (g.dim(), g.dim());
    c.m.push(g.trip(a, b));
    let signed = matches!(c.ity, 1 | 3 | 5);
    let k = if signed { g.r.range(-(a as i64) - 1, b as i64 + 1) } else { g.r.range(0, b as i64 + 1) };
    c.k.push(k);
}
fn g_select(g: &mut G, c: &mut Case, csc: bool) {
    let m = g.canon(csc);
    for n in [m.rows, m.cols] {
        let k = g.r.below(n + 3);
        c.l.push(g.list(k, n));
    }
    // which of the lists are given
    c.k.push(g.r.below(4) as i64);
    c.m.push(m);
}
fn g_csr_select(g: &mut G, c: &mut Case) {
    g_select(g, c, false)
}
fn g_csc_select(g: &mut G, c: &mut Case) {
    g_select(g, c, true)
}
fn g_sub(g: &mut G, c: &mut Case) {
    g_csr(g, c);
    c.k.clear();
    let (a, b) = (c.m[0].rows as i64, c.m[0].cols as i64);
    let r0 = g.r.range(0, a);
    let r1 = g.r.range(r0, a);
    let c0 = g.r.range(0, b);
    let c1 = g.r.range(c0, b);
    c.k = vec![r0, r1, c0, c1];
}
fn g_rowidx(g: &mut G, c: &mut Case) {
    g_csr(g, c);
    let n = c.m[0].rows;
    let k = g.r.below(n + 3);
    c.l.push(g.list(k, n));
}
fn g_rowslice(g: &mut G, c: &mut Case) {
    g_csr(g, c);
    let a = c.m[0].rows as i64;
    let r0 = g.r.range(0, a);
    let r1 = g.r.range(0, a);
    c.k = vec![r0, r1, g.r.range(1, 4)];
}
fn g_colidx(g: &mut G, c: &mut Case) {
    let (a, b) = (g.dim(), g.dim());
    let st = g.style();
    let m = g.csr(a, b, st);
    let n = m.cols;
    let k = if g.small() { g.r.below(4) } else { g.r.below(n + 4) };
    c.l.push(g.list(k, n));
    c.m.push(m);
}
fn g_scale(g: &mut G, c: &mut Case) {
    g_csr(g, c);
    let r = g.vec(c.m[0].rows);
    let k = g.vec(c.m[0].cols);
    c.m.push(r);
    c.m.push(k);
}
fn g_scalar_r(g: &mut G, c: &mut Case) {
    g_csr(g, c);
    c.m.push(g.vec(1));
}
fn g_scalar_c(g: &mut G, c: &mut Case) {
    g_csc(g, c);
    c.m.push(g.vec(1));
}
fn dims(g: &mut G, n: usize) -> Vec<usize> {
    (0..n).map(|_| g.dim()).collect()
}
fn g_stack(g: &mut G, c: &mut Case, kind: i64, n: usize) {
    // kind 0 h, 1 v
    let a = g.dim();
    let bad = g.r.chance(1, 6);
    for t in 0..n {
        let b = g.dim();
        let a = if bad && t > 0 && g.r.chance(1, 2) { g.dim() } else { a };
        c.m.push(if kind == 0 { g.trip(a, b) } else { g.trip(b, a) });
    }
}
fn g_compose(g: &mut G, c: &mut Case, n: usize) {
    let (r, k) = (dims(g, n), dims(g, n));
    let bad = g.r.chance(1, 6);
    for i in 0..n {
        for j in 0..n {
            let (mut a, mut b) = (r[i], k[j]);
            if bad && g.r.chance(1, 4) {
                a = g.dim();
            }
            if bad && g.r.chance(1, 4) {
                b = g.dim();
            }
            c.m.push(g.trip(a, b));
        }
    }
}
fn g_compose_csc(g: &mut G, c: &mut Case) {
    g_compose(g, c, 2);
    for t in 0..4 {
        let (a, b) = (c.m[t].rows, c.m[t].cols);
        let st = g.style();
        c.m[t] = g.csc(a, b, st);
    }
}
fn g_hstack_csr(g: &mut G, c: &mut Case) {
    g_stack(g, c, 0, 2);
    for t in 0..2 {
        let (a, b) = (c.m[t].rows, c.m[t].cols);
        let st = g.style();
        c.m[t] = g.csr(a, b, st);
    }
}
fn g_new(g: &mut G, c: &mut Case, csc: bool) {
    // constructor arguments, sometimes malformed
    let m = g.any(csc);
    let (mut r, mut k) = (m.rows as i64, m.cols as i64);
    let nnz = *m.p.last().unwrap();
    let mut m = m;
    match g.r.below(6) {
        0 => r += g.r.range(0, 1),
        1 => k += g.r.range(0, 1),
        2 if nnz > 0 => {
            let t = g.r.below(nnz);
            m.j.truncate(t)
        }
        3 if nnz > 0 => {
            let t = g.r.below(nnz);
            m.x.truncate(t)
        }
        4 if r > 0 && !csc => r -= 1,
        5 if k > 0 && csc => k -= 1,
        _ => {}
    }
    c.m.push(m);
    c.k = vec![r, k];
}
fn g_new_coo(g: &mut G, c: &mut Case) {
    let mut m = g.anytrip();
    let n = m.x.len();
    match g.r.below(6) {
        0 if n > 0 => m.p.truncate(g.r.below(n)),
        1 if n > 0 => m.j.truncate(g.r.below(n)),
        2 if n > 0 => m.x.truncate(g.r.below(n)),
        3 => m.p.push(0),
        4 => {
            m.p.push(0);
            m.j.push(0);
        }
        _ => {}
    }
    c.m.push(m);
}
/// two matrices of freely chosen shapes
fn g_shapes(g: &mut G, c: &mut Case) {
    let (p, q, st) = (g.dim(), g.dim(), g.style());
    let a = g.csr(p, q, st);
    let (mut p, mut q) = (a.rows, a.cols);
    match g.r.below(4) {
        0 => p = g.dim(),
        1 => q = g.dim(),
        2 => {
            p = g.dim();
            q = g.dim();
        }
        _ => std::mem::swap(&mut p, &mut q),
    }
    if g.r.chance(1, 4) {
        // off by a little
        (p, q) = (a.rows, a.cols);
        match g.r.below(4) {
            0 => p += 1,
            1 => q += 1,
            2 => p = p.saturating_sub(1),
            _ => q = q.saturating_sub(1),
        }
    }
    let st = g.style();
    let mut b = g.csr(p, q, st);
    let mut a = a;
    for (m, n) in [(&mut a, 9), (&mut b, 5)] {
        if g.r.chance(1, n) {
            m.p = vec![0; m.rows + 1];
            m.j.clear();
            m.x.clear();
        }
    }
    c.m = vec![a, b];
    c.k = vec![g.r.below(27) as i64, g.r.range(-3, 12), g.r.range(-3, 12)];
    let n = g.r.below(5);
    let lim = c.m[0].rows + 2;
    c.l.push(g.list(n, lim));
    let lim = c.m[0].cols + 2;
    c.l.push(g.list(n, lim));
}
fn g_dok(g: &mut G, c: &mut Case) {
    g.area = 2500;
    let (a, b) = (g.dim(), g.dim());
    let mut m = M { rows: a, cols: b, ..M::default() };
    let n = g.r.below([5, 12, 25, 40, 60, 400][g.size as usize]);
    let mut l = vec![];
    for _ in 0..n {
        // kind, i, j, value
        l.push(g.r.below(3) as i64);
        let lo = if matches!(c.ity, 1 | 3 | 5) && g.r.chance(1, 10) { -1 } else { 0 };
        l.push(g.r.range(lo, a as i64));
        l.push(g.r.range(lo, b as i64));
        let v = if g.r.chance(1, 3) { (g.r.range(0, 1), 0) } else { g.val() };
        m.x.push(v);
    }
    if g.r.chance(1, 4) {
        c.k.push(1);
        let mut d = g.vec(a * b);
        d.rows = a;
        d.cols = b;
        for v in d.x.iter_mut() {
            if g.r.chance(1, 2) {
                *v = (0, 0)
            }
        }
        if a == 0 {
            m.cols = 0;
        }
        c.m = vec![m, d];
    } else {
        c.k.push(0);
        c.m = vec![m];
    }
    c.l.push(l);
}
fn g_graph(g: &mut G, c: &mut Case) {
    c.m.push(g.graph(false));
}
fn g_sgraph(g: &mut G, c: &mut Case) {
    c.m.push(g.graph(true));
}
fn g_dfs(g: &mut G, c: &mut Case) {
    let mut m = g.graph(false);
    while m.rows == 0 {
        g.size = g.size.max(1);
        m = g.graph(false);
    }
    c.k = vec![g.r.below(m.rows) as i64, g.r.below(2) as i64];
    c.m.push(m);
}

ops! {
    "csr_to_csc" ["C01","C23"] 0 g_csr;
    "csc_to_csr" ["C01","C23"] 0 g_csc;
    "kernel_csr_tocsc" ["C01","C23"] 0 g_csr;
    "kernel_csc_tocsr" ["C01","C23"] 0 g_csc;
    "coo_to_csr" ["C02","C23"] 0 g_trip;
    "coo_to_csc" ["C02","C23"] 0 g_trip;
    "kernel_coo_tocsr" ["C02","C23"] 0 g_trip;
    "coo_push" ["C02"] 0 g_trip;
    "csr_to_coo" ["C03","C23"] 0 g_csr;
    "csc_to_coo" ["C03","C23"] 0 g_csc;
    "kernel_expandptr" ["C03","C23"] 0 g_csr;
    "kernel_csr_tocoo" ["C03","C23"] 0 g_csr;
    "csr_transpose" ["C04","C23"] 0 g_csr;
    "csc_transpose" ["C04","C23"] 0 g_csc;
    "coo_transpose" ["C04","C23"] 0 g_trip;
    "csr_from_dense" ["C05","C23"] 0 g_dense;
    "csc_from_dense" ["C05","C23"] 0 g_dense;
    "coo_from_dense" ["C05","C23"] 0 g_dense;
    "dok_from_dense" ["C05","C18"] 0 g_dense;
    "coo_to_dense" ["C05","C23"] 0 g_trip;
    "csc_to_dense" ["C05","C23"] 0 g_csc;
    "kernel_csr_todense" ["C05","C23"] 0 g_csr;
    "kernel_coo_todense" ["C05","C23"] 0 g_trip;
    "diag_constructors" ["C05","C23"] 0 g_vec;
    "csr_get" ["C05","C23"] 0 g_csr;
    "csr_matvec" ["C06","C23"] 0 g_csr_mv;
    "csc_matvec" ["C06","C23"] 0 g_csc_mv;
    "kernel_csr_matvec" ["C06","C23"] 0 g_csr_mv;
    "kernel_csc_matvec" ["C06","C23"] 0 g_csc_mv;
    "kernel_csr_matvecs" ["C06","C23"] 0 g_csr_mvs;
    "kernel_csc_matvecs" ["C06","C23"] 0 g_csc_mvs;
    "kernel_coo_matvec" ["C06","C23"] 0 g_coo_mv;
    "csr_matmat" ["C07","C23"] 0 g_mm_rr;
    "csc_matmat" ["C07","C23"] 0 g_mm_cc;
    "csc_csr_matmat" ["C07","C23"] 0 g_mm_cr;
    "kernel_matmat_maxnnz" ["C07","C23"] 0 g_mm_rr;
    "csr_addsub" ["C08","C23"] 0 g_csr_pair;
    "csc_addsub" ["C08","C23"] 0 g_csc_pair;
    "csc_addsub_methods" ["C08","C23"] 0 g_csc_pair;
    "coo_add" ["C08","C23"] 0 g_coo_pair;
    "kernel_binop" ["C09","C08","C23"] 0 g_csr_pair;
    "kernel_binop_ord" ["C09","C23"] 1 g_csr_pair;
    "kernel_binop_div" ["C09"] 2 g_csr_pair;
    "kernel_binop_parts" ["C09","C23"] 0 g_csr_pair;
    "csr_sort" ["C10","C23"] 0 g_csr;
    "csc_sort" ["C10","C23"] 0 g_csc;
    "csr_sumdup" ["C10","C02","C23"] 0 g_csr;
    "csc_sumdup" ["C10","C02","C23"] 0 g_csc;
    "kernel_sumdup" ["C10","C02","C23"] 0 g_csr;
    "kernel_elimzeros" ["C10","C23"] 0 g_csr;
    "csc_prune" ["C10","C23"] 0 g_csc;
    "csr_predicates" ["C11","C23"] 0 g_csr;
    "csc_predicates" ["C11","C23"] 0 g_csc;
    "kernel_count_diagonals" ["C11","C23"] 0 g_csr;
    "csr_select" ["C12","C23"] 0 g_csr_select;
    "csc_select" ["C12","C23"] 0 g_csc_select;
    "kernel_submatrix" ["C12","C23"] 0 g_sub;
    "kernel_row_index" ["C12","C23"] 0 g_rowidx;
    "kernel_row_slice" ["C12","C23"] 0 g_rowslice;
    "kernel_column_index" ["C12","C23"] 0 g_colidx;
    "csr_diagonal" ["C13","C23"] 0 g_csr;
    "csc_diagonal" ["C13","C23"] 0 g_csc;
    "coo_diagonal" ["C13","C23"] 0 g_trip;
    "kernel_csr_diagonal" ["C13","C23"] 0 g_csr_kdiag;
    "kernel_csc_diagonal" ["C13","C23"] 0 g_csc_kdiag;
    "coo_upper" ["C13","C23"] 0 g_upper;
    "csr_scale" ["C14","C23"] 0 g_scalar_r;
    "csc_scale" ["C14","C23"] 0 g_scalar_c;
    "csr_neg" ["C14","C23"] 5 g_csr;
    "csc_neg" ["C14","C23"] 5 g_csc;
    "coo_neg" ["C14","C23"] 5 g_trip;
    "csr_lscale" ["C14","C23"] 3 g_scalar_r;
    "csc_lscale" ["C14","C23"] 3 g_scalar_c;
    "kernel_scale" ["C14","C23"] 0 g_scale;
    "csr_complex" ["C15","C23"] 3 g_csr;
    "csc_complex" ["C15","C23"] 3 g_csc;
    "coo_complex" ["C15","C23"] 3 g_trip;
    "coo_hstack" ["C16","C23"] 0 |g, c| g_stack(g, c, 0, 2);
    "coo_vstack" ["C16","C23"] 0 |g, c| g_stack(g, c, 1, 2);
    "coo_hstack3" ["C16","C23"] 0 |g, c| g_stack(g, c, 0, 3);
    "coo_vstack3" ["C16","C23"] 0 |g, c| g_stack(g, c, 1, 3);
    "csr_hstack" ["C16","C23"] 0 g_hstack_csr;
    "coo_compose" ["C16","C23"] 0 |g, c| g_compose(g, c, 2);
    "coo_compose3" ["C16","C23"] 0 |g, c| g_compose(g, c, 3);
    "csc_compose" ["C16","C23"] 0 g_compose_csc;
    "new_csr" ["C17"] 0 |g, c| g_new(g, c, false);
    "new_csc" ["C17"] 0 |g, c| g_new(g, c, true);
    "new_coo" ["C17"] 0 g_new_coo;
    "shapes" ["C17"] 0 g_shapes;
    "scalars" ["C05","C07","C08","C09","C10","C18"] 6 g_scalars;
    "scalars_text" ["C24"] 6 g_scalars;
    "dok_ops" ["C18","C17"] 0 g_dok;
    "csr_to_string" ["C24","C23"] 0 g_csr;
    "csc_to_string" ["C24","C23"] 0 g_csc;
    "coo_to_string" ["C24","C23"] 0 g_trip;
    "dok_to_string" ["C24"] 0 g_trip;
    "csr_to_table" ["C24","C23"] 0 g_csr;
    "complex32_table" ["C24"] 3 g_csr;
    "weak_components" ["C19","C23"] 4 g_graph;
    "strong_components" ["C20","C23"] 4 g_graph;
    "depth_first" ["C21","C23"] 4 g_dfs;
    "symmetric_components" ["C22","C23"] 4 g_sgraph;
}

fn nnz(m: &M) -> usize {
    *m.p.last().unwrap()
}
fn z<T: Nm>(n: usize) -> Vec<T> {
    vec![T::zero(); n]
}
fn zi<I: Ix>(n: usize) -> Vec<I> {
    vec![I::zero(); n]
}
fn vals<T: Nm>(v: &[T]) -> Vec<V> {
    v.iter().map(|a| a.to()).collect()
}
fn pv<T: Nm>(m: &M) -> Vec<V> {
    m.x.iter().map(|&a| T::proj(a)).collect()
}
fn transposed(l: &Lines, minor: usize) -> Lines {
    // lines of the transposed structure: counting sort keeps storage order
    let mut t: Lines = vec![vec![]; minor];
    for (i, line) in l.iter().enumerate() {
        for &(j, v) in line {
            t[j].push((i, v));
        }
    }
    t
}
fn eq_vals(what: &str, got: &[V], want: &[V]) -> Res {
    if got.len() != want.len() {
        return s(format!("{} has {} elements, expected {}", what, got.len(), want.len()));
    }
    for k in 0..got.len() {
        if got[k] != want[k] {
            return f(format!("{}[{}] is {:?}, expected {:?}", what, k, got[k], want[k]));
        }
    }
    Ok(())
}
fn ok<X>(r: anyhow_like<X>, what: &str) -> Result<X, Fail> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => f(format!("{} rejected conforming arguments: {}", what, e)),
    }
}
#[allow(non_camel_case_types)]
type anyhow_like<X> = Result<X, Box<dyn std::error::Error + Send + Sync>>;
macro_rules! okk {
    ($e:expr, $w:expr) => {
        ok($e.map_err(|e| e.into()), $w)?
    };
}
fn panics<X>(fun: impl FnOnce() -> X) -> Option<X> {
    catch_unwind(AssertUnwindSafe(fun)).ok()
}
fn must_be_err<X, E>(r: Result<X, E>, what: &str) -> Res {
    if r.is_ok() {
        return f(format!("{} accepted mismatching arguments", what));
    }
    Ok(())
}
fn must_panic<X>(fun: impl FnOnce() -> X, what: &str) -> Res {
    if panics(fun).is_some() {
        return f(format!("{} returned a result for mismatching shapes", what));
    }
    Ok(())
}
/// same entries at every position, in order; result lines sorted by minor index
fn same_matrix(got: &Ent, gl: &Lines, wante: &Ent) -> Res {
    eq_ents(got, wante)?;
    want(sorted(gl), "a line of the result is not in non-decreasing index order")
}
fn matmul(a: &Dense, b: &Dense) -> Dense {
    let mut by: BTreeMap<usize, Vec<(usize, V)>> = BTreeMap::new();
    for (&(j, k), &v) in b {
        by.entry(j).or_default().push((k, v));
    }
    let mut d = Dense::new();
    for (&(i, j), &v) in a {
        for &(k, w) in by.get(&j).map(|x| &x[..]).unwrap_or(&[]) {
            let e = d.entry((i, k)).or_insert((0, 0));
            *e = vadd(*e, vmul(v, w));
        }
    }
    d.retain(|_, v| *v != (0, 0));
    d
}
fn combine(a: &Dense, b: &Dense, g: fn(V, V) -> V) -> Dense {
    let mut d = Dense::new();
    for k in a.keys().chain(b.keys()) {
        let v = g(at(a, k.0, k.1), at(b, k.0, k.1));
        if v != (0, 0) {
            d.insert(*k, v);
        }
    }
    d
}
fn dense_rows<T: Nm>(m: &M) -> Vec<Vec<T>> {
    (0..m.rows).map(|i| (0..m.cols).map(|j| T::of(m.x[i * m.cols + j])).collect()).collect()
}
fn dense_lines<T: Nm>(m: &M, by_col: bool) -> Lines {
    let at = |i: usize, j: usize| T::proj(m.x[i * m.cols + j]);
    if by_col {
        (0..m.cols)
            .map(|j| (0..m.rows).filter(|&i| at(i, j) != (0, 0)).map(|i| (i, at(i, j))).collect())
            .collect()
    } else {
        (0..m.rows)
            .map(|i| (0..m.cols).filter(|&j| at(i, j) != (0, 0)).map(|j| (j, at(i, j))).collect())
            .collect()
    }
}
fn exact_len<X>(what: &str, v: &[X], n: usize) -> Res {
    if v.len() != n {
        return f(format!("{} has {} elements, expected {}", what, v.len(), n));
    }
    Ok(())
}
/// (dense sums by (row,col)) of a case matrix seen as csr / csc
fn dsum<T: Nm>(m: &M, csc: bool) -> Dense {
    let e = ents(&lines_of::<T>(m));
    sums(&if csc { swap(&e) } else { e })
}
fn product<T: Nm>(m: &Dense, x: &[V], y: &[V], rows: usize) -> Vec<V> {
    let mut y = y.to_vec();
    for (&(i, j), &v) in m {
        y[i] = vadd(y[i], vmul(v, x[j]));
    }
    let _ = rows;
    y
}

pub fn run<I: Ix, T: Nm + crate::text::Rd>(c: &Case) -> Res
where
    CSR<I, T>: Sized,
{
    let op = c.op.as_str();
    let m0 = || &c.m[0];
    let kk = c.k.first().copied().unwrap_or(0);
    match op {
        "csr_to_string" | "csc_to_string" | "coo_to_string" | "dok_to_string" | "csr_to_table" => crate::text::run::<I, T>(c),
        // ---------------------------------------------------------------- C01
        "csr_to_csc" => {
            let m = m0();
            let r = csr::<I, T>(m).to_csc();
            let l = r_csc(&r, m.rows, m.cols)?;
            same_matrix(&ents(&l), &l, &swap(&ents(&lines_of::<T>(m))))
        }
        "csc_to_csr" => {
            let m = m0();
            let r = csc::<I, T>(m).to_csr();
            let l = r_csr(&r, m.rows, m.cols)?;
            same_matrix(&ents(&l), &l, &swap(&ents(&lines_of::<T>(m))))
        }
        "kernel_csr_tocsc" | "kernel_csc_tocsr" => {
            let m = m0();
            let (a, b) = if op == "kernel_csr_tocsc" { (m.rows, m.cols) } else { (m.cols, m.rows) };
            let n = nnz(m);
            let (mut p, mut j, mut x) = (vec![I::one(); b + 1], vec![I::one(); n + 1], tv::<T>(&vec![(7, 7); n + 1]));
            if op == "kernel_csr_tocsc" {
                csr_tocsc(m.rows, m.cols, &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x), &mut p, &mut j, &mut x);
            } else {
                csc_tocsr(m.rows, m.cols, &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x), &mut p, &mut j, &mut x);
            }
            let l = structure(&p, &j, &x, b, a)?;
            same_matrix(&ents(&l), &l, &swap(&ents(&lines_of::<T>(m))))
        }
        // ---------------------------------------------------------------- C02
        "coo_push" => {
            let m = m0();
            let h = m.x.len() / 2;
            let mut a = okk!(Coo::<I, T>::new(m.rows, m.cols, vec![], vec![], vec![]), "Coo::new");
            for i in 0..h {
                a.push(<I as Ix>::of(m.p[i]), <I as Ix>::of(m.j[i]), T::of(m.x[i]));
            }
            a.extend(&iv::<I>(&m.p[h..]), &iv::<I>(&m.j[h..]), &tv::<T>(&m.x[h..]));
            let got = r_coo(&a, m.rows, m.cols)?;
            want(got == trips_of::<T>(m), "appended triplets are not those of the matrix")
        }
        "coo_to_csr" | "coo_to_csc" => {
            let m = m0();
            let a = coo::<I, T>(m);
            let want_d = sums(&ents_t(&trips_of::<T>(m)));
            let (l, d) = if op == "coo_to_csr" {
                let l = r_csr(&a.to_csr(), m.rows, m.cols)?;
                let d = sums(&ents(&l));
                (l, d)
            } else {
                let l = r_csc(&a.to_csc(), m.rows, m.cols)?;
                let d = sums(&swap(&ents(&l)));
                (l, d)
            };
            eq_dense(&d, &want_d)?;
            want(strict(&l), "a line of the result is not strictly increasing")?;
            let pos: BTreeSet<_> = trips_of::<T>(m).iter().map(|t| (t.0, t.1)).collect();
            let n: usize = l.iter().map(|v| v.len()).sum();
            want(n == pos.len(), "the result does not store each position of the input once")
        }
        "kernel_coo_tocsr" => {
            let m = m0();
            let n = m.x.len();
            let (mut p, mut j, mut x) = (vec![I::one(); m.rows + 1], zi::<I>(n), z::<T>(n));
            coo_tocsr(m.rows, m.cols, n, &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x), &mut p, &mut j, &mut x);
            let l = structure(&p, &j, &x, m.rows, m.cols)?;
            let mut w: Lines = vec![vec![]; m.rows];
            for t in trips_of::<T>(m) {
                w[t.0].push((t.1, t.2));
            }
            eq_lines(&l, &w)
        }
        // ---------------------------------------------------------------- C03
        "csr_to_coo" | "csc_to_coo" => {
            let m = m0();
            let rows = op == "csr_to_coo";
            let r = if rows { csr::<I, T>(m).to_coo() } else { csc::<I, T>(m).to_coo() };
            let got = r_coo(&r, m.rows, m.cols)?;
            let mut w = vec![];
            for (i, line) in lines_of::<T>(m).iter().enumerate() {
                for &(j, v) in line {
                    w.push(if rows { (i, j, v) } else { (j, i, v) });
                }
            }
            want(got == w, &format!("triplets are {:?}, expected {:?}", got, w))
        }
        "kernel_expandptr" => {
            let m = m0();
            let mut b = vec![I::one(); nnz(m) + 2];
            expandptr(m.rows, &iv::<I>(&m.p), &mut b);
            let mut w = vec![];
            for i in 0..m.rows {
                for _ in m.p[i]..m.p[i + 1] {
                    w.push(i);
                }
            }
            w.push(1);
            w.push(1);
            let g: Vec<usize> = b.iter().map(|a| a.us()).collect();
            want(g == w, &format!("expanded to {:?}, expected {:?}", g, w))
        }
        "kernel_csr_tocoo" => {
            let m = m0();
            let n = nnz(m);
            let (mut bi, mut bj, mut bx) = (zi::<I>(n), zi::<I>(n), z::<T>(n));
            csr_tocoo(m.rows, m.cols, &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x), &mut bi, &mut bj, &mut bx);
            let mut k = 0;
            for (i, line) in lines_of::<T>(m).iter().enumerate() {
                for &(j, v) in line {
                    if (bi[k].us(), bj[k].us(), bx[k].to()) != (i, j, v) {
                        return f(format!("triplet {} is {:?}, expected {:?}", k, (bi[k].us(), bj[k].us(), bx[k].to()), (i, j, v)));
                    }
                    k += 1;
                }
            }
            Ok(())
        }
        // ---------------------------------------------------------------- C04
        "csr_transpose" => {
            let m = m0();
            let a = csr::<I, T>(m);
            let w = lines_of::<T>(m);
            let t = a.t();
            eq_lines(&r_csc(&t, m.cols, m.rows)?, &w)?;
            eq_lines(&r_csr(&t.t(), m.rows, m.cols)?, &w)?;
            let t = a.transpose();
            eq_lines(&r_csc(&t, m.cols, m.rows)?, &w)?;
            eq_lines(&r_csr(&t.transpose(), m.rows, m.cols)?, &w)
        }
        "csc_transpose" => {
            let m = m0();
            let a = csc::<I, T>(m);
            let w = lines_of::<T>(m);
            for t in [a.t(), a.transpose()] {
                eq_lines(&r_csr(&t, m.cols, m.rows)?, &w)?;
                eq_lines(&r_csc(&t.t(), m.rows, m.cols)?, &w)?;
                eq_lines(&r_csc(&t.transpose(), m.rows, m.cols)?, &w)?;
            }
            Ok(())
        }
        "coo_transpose" => {
            let m = m0();
            let a = coo::<I, T>(m);
            let w: Vec<_> = trips_of::<T>(m).iter().map(|t| (t.1, t.0, t.2)).collect();
            let t = a.t();
            want(r_coo(&t, m.cols, m.rows)? == w, "wrong triplets in the transpose")?;
            let t2 = a.transpose();
            want(r_coo(&t2, m.cols, m.rows)? == w, "wrong triplets in the transpose")?;
            want(r_coo(&t.transpose(), m.rows, m.cols)? == trips_of::<T>(m), "transposing twice changed the matrix")?;
            want(r_coo(&t2.t(), m.rows, m.cols)? == trips_of::<T>(m), "transposing twice changed the matrix")
        }
        // ---------------------------------------------------------------- C05
        "csr_from_dense" => {
            let m = m0();
            let r = CSR::<I, T>::from_dense(&dense_rows::<T>(m));
            eq_lines(&r_csr(&r, m.rows, m.cols)?, &dense_lines::<T>(m, false))?;
            exact_len("colidx", r.colidx(), r.nnz())?;
            exact_len("values", r.values(), r.nnz())
        }
        "csc_from_dense" => {
            let m = m0();
            let r = CSC::<I, T>::from_dense(&dense_rows::<T>(m));
            eq_lines(&r_csc(&r, m.rows, m.cols)?, &dense_lines::<T>(m, true))
        }
        "coo_from_dense" => {
            let m = m0();
            let r = Coo::<I, T>::from_dense(&dense_rows::<T>(m));
            let mut w = vec![];
            for (i, l) in dense_lines::<T>(m, false).iter().enumerate() {
                for &(j, v) in l {
                    w.push((i, j, v));
                }
            }
            want(r_coo(&r, m.rows, m.cols)? == w, "triplets are not the nonzeros in row-major order")
        }
        "dok_from_dense" => {
            let m = m0();
            let d = dense_rows::<T>(m);
            let refs: Vec<&[T]> = d.iter().map(|r| &r[..]).collect();
            let r = DoK::<I, T>::from_dense(&refs);
            if r.rows() != m.rows || r.cols() != m.cols {
                return s("wrong dimensions");
            }
            let e = sums(&ents(&dense_lines::<T>(m, false)));
            want(r.nnz() == e.len(), "stored count is not the number of nonzeros")?;
            for i in 0..m.rows {
                for j in 0..m.cols {
                    want(r.get(I::of(i), I::of(j)).to() == at(&e, i, j), &format!("element ({}, {}) is wrong", i, j))?;
                }
            }
            eq_dense(&dense_of(&r.to_dense(), m.rows, m.cols)?, &e)
        }
        "coo_to_dense" => {
            let m = m0();
            eq_dense(&dense_of(&coo::<I, T>(m).to_dense(), m.rows, m.cols)?, &sums(&ents_t(&trips_of::<T>(m))))
        }
        "csc_to_dense" => {
            let m = m0();
            eq_dense(&dense_of(&csc::<I, T>(m).to_dense(), m.rows, m.cols)?, &dsum::<T>(m, true))
        }
        "kernel_csr_todense" => {
            let m = m0();
            let pre = |i: usize, j: usize| ((i + 2 * j) as i64 % 3, 1i64);
            let mut d: Vec<Vec<T>> = (0..m.rows).map(|i| (0..m.cols).map(|j| T::of(pre(i, j))).collect()).collect();
            csr_todense(m.rows, m.cols, &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x), &mut d);
            let w = dsum::<T>(m, false);
            let mut e = Dense::new();
            for i in 0..m.rows {
                for j in 0..m.cols {
                    let v = vadd(T::proj(pre(i, j)), at(&w, i, j));
                    if v != (0, 0) {
                        e.insert((i, j), v);
                    }
                }
            }
            eq_dense(&dense_of(&d, m.rows, m.cols)?, &e)
        }
        "kernel_coo_todense" => {
            let m = m0();
            let w = sums(&ents_t(&trips_of::<T>(m)));
            for fortran in [false, true] {
                let pre = |k: usize| ((k % 5) as i64, -1i64);
                let mut d: Vec<T> = (0..m.rows * m.cols).map(|k| T::of(pre(k))).collect();
                coo_todense(m.rows, m.cols, m.x.len(), &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x), &mut d, fortran);
                for i in 0..m.rows {
                    for j in 0..m.cols {
                        let k = if fortran { i + m.rows * j } else { i * m.cols + j };
                        if d[k].to() != vadd(T::proj(pre(k)), at(&w, i, j)) {
                            return f(format!("element ({}, {}) is {:?} (fortran={})", i, j, d[k].to(), fortran));
                        }
                    }
                }
            }
            Ok(())
        }
        "diag_constructors" => {
            let m = m0();
            let n = m.cols;
            let w: Lines = (0..n).map(|i| vec![(i, T::proj(m.x[i]))]).collect();
            eq_lines(&r_csr(&CSR::<I, T>::with_diagonal(tv(&m.x)), n, n)?, &w)?;
            eq_lines(&r_csc(&CSC::<I, T>::with_diagonal(tv(&m.x)), n, n)?, &w)?;
            let wt: Vec<_> = (0..n).map(|i| (i, i, T::proj(m.x[i]))).collect();
            want(r_coo(&Coo::<I, T>::with_diagonal(&tv::<T>(&m.x)), n, n)? == wt, "Coo::with_diagonal is wrong")?;
            let one: Vec<_> = (0..n).map(|i| (i, i, (1, 0))).collect();
            want(r_coo(&Coo::<I, T>::identity(n), n, n)? == one, "Coo::identity is wrong")?;
            let e: Lines = vec![vec![]; n];
            eq_lines(&r_csr(&CSR::<I, T>::with_size(n, n + 3), n, n + 3)?, &e)?;
            want(r_coo(&Coo::<I, T>::with_size(n, n + 2), n, n + 2)?.is_empty(), "Coo::with_size stores entries")?;
            want(r_coo(&Coo::<I, T>::with_capacity(n, n + 2, 5), n, n + 2)?.is_empty(), "Coo::with_capacity stores entries")?;
            let d = DoK::<I, T>::new(n, n + 1);
            let d2 = DoK::<I, T>::with_capacity(n, n + 1, 4);
            want(d.rows() == n && d.cols() == n + 1 && d.nnz() == 0, "DoK::new is wrong")?;
            want(d2.rows() == n && d2.cols() == n + 1 && d2.nnz() == 0, "DoK::with_capacity is wrong")
        }
        "csr_get" => {
            let m = m0();
            let l = lines_of::<T>(m);
            let a = csr::<I, T>(m);
            let e = ents(&l);
            for i in 0..m.rows {
                for j in 0..m.cols {
                    let got = a.get(I::of(i), I::of(j)).to();
                    match e.get(&(i, j)).map(|v| &v[..]) {
                        None => want(got == (0, 0), &format!("get({}, {}) is {:?}, nothing is stored there", i, j, got))?,
                        Some([v]) => want(got == *v, &format!("get({}, {}) is {:?}, stored {:?}", i, j, got, v))?,
                        _ => {}
                    }
                }
            }
            Ok(())
        }
        // ---------------------------------------------------------------- C06
        "csr_matvec" | "csc_matvec" => {
            let m = m0();
            let csc_ = op == "csc_matvec";
            let w = product::<T>(&dsum::<T>(m, csc_), &pv::<T>(&c.m[1]), &vec![(0, 0); m.rows], m.rows);
            let x = tv::<T>(&c.m[1].x);
            let mut got: Vec<Vec<T>> = vec![];
            if csc_ {
                let a = csc::<I, T>(m);
                got.push(okk!(a.mat_vec(&x), "mat_vec"));
                got.push(&a * &x[..]);
                got.push(&a * &x);
            } else {
                let a = csr::<I, T>(m);
                got.push(okk!(a.mat_vec(&x), "mat_vec"));
                got.push(&a * &x[..]);
                got.push(&a * &x);
            }
            for g in got {
                eq_vals("product", &vals(&g), &w)?;
            }
            Ok(())
        }
        "kernel_csr_matvec" | "kernel_csc_matvec" => {
            let m = m0();
            let csc_ = op == "kernel_csc_matvec";
            let w = product::<T>(&dsum::<T>(m, csc_), &pv::<T>(&c.m[1]), &pv::<T>(&c.m[2]), m.rows);
            let mut y = tv::<T>(&c.m[2].x);
            let k = if csc_ { csc_matvec::<I, T> } else { csr_matvec::<I, T> };
            k(m.rows, m.cols, &iv(&m.p), &iv(&m.j), &tv(&m.x), &tv(&c.m[1].x), &mut y);
            eq_vals("y", &vals(&y), &w)
        }
        "kernel_csr_matvecs" | "kernel_csc_matvecs" => {
            let m = m0();
            let nv = kk as usize;
            let csc_ = op == "kernel_csc_matvecs";
            let (x, mut w) = (pv::<T>(&c.m[1]), pv::<T>(&c.m[2]));
            for (&(i, j), &v) in &dsum::<T>(m, csc_) {
                for t in 0..nv {
                    w[i * nv + t] = vadd(w[i * nv + t], vmul(v, x[j * nv + t]));
                }
            }
            let mut y = tv::<T>(&c.m[2].x);
            let k = if csc_ { csc_matvecs::<I, T> } else { csr_matvecs::<I, T> };
            k(m.rows, m.cols, nv, &iv(&m.p), &iv(&m.j), &tv(&m.x), &tv(&c.m[1].x), &mut y);
            eq_vals("y", &vals(&y), &w)
        }
        "kernel_coo_matvec" => {
            let m = m0();
            let (x, mut w) = (pv::<T>(&c.m[1]), pv::<T>(&c.m[2]));
            for (i, j, v) in trips_of::<T>(m) {
                w[i] = vadd(w[i], vmul(v, x[j]));
            }
            let mut y = tv::<T>(&c.m[2].x);
            coo_matvec(m.x.len(), &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x), &tv::<T>(&c.m[1].x), &mut y);
            eq_vals("y", &vals(&y), &w)
        }
        // ---------------------------------------------------------------- C07
        "csr_matmat" => {
            let (a, b) = (&c.m[0], &c.m[1]);
            let w = matmul(&dsum::<T>(a, false), &dsum::<T>(b, false));
            let (x, y) = (csr::<I, T>(a), csr::<I, T>(b));
            let r = match kk {
                0 => &x * &y,
                1 => x.clone() * y.clone(),
                _ => okk!(x.mat_mat(&y), "mat_mat"),
            };
            let l = r_csr(&r, a.rows, b.cols)?;
            eq_dense(&sums(&ents(&l)), &w)?;
            want(nodup(&l), "a position is stored twice")?;
            want(nozero(&l), "a zero is stored")
        }
        "csc_matmat" | "csc_csr_matmat" => {
            let (a, b) = (&c.m[0], &c.m[1]);
            let csc2 = op == "csc_matmat";
            let w = matmul(&dsum::<T>(a, true), &dsum::<T>(b, csc2));
            let x = csc::<I, T>(a);
            let r = if csc2 {
                let y = csc::<I, T>(b);
                if kk == 0 {
                    &x * &y
                } else {
                    okk!(x.mat_mat(&y), "mat_mat")
                }
            } else {
                &x * &csr::<I, T>(b)
            };
            let l = r_csc(&r, a.rows, b.cols)?;
            eq_dense(&sums(&swap(&ents(&l))), &w)?;
            want(nodup(&l), "a position is stored twice")?;
            want(nozero(&l), "a zero is stored")
        }
        "kernel_matmat_maxnnz" => {
            let (a, b) = (&c.m[0], &c.m[1]);
            let n = csr_matmat_maxnnz(a.rows, b.cols, &iv::<I>(&a.p), &iv::<I>(&a.j), &iv::<I>(&b.p), &iv::<I>(&b.j));
            let n2 = csc_matmat_maxnnz(b.cols, a.rows, &iv::<I>(&b.p), &iv::<I>(&b.j), &iv::<I>(&a.p), &iv::<I>(&a.j));
            let r = okk!(csr::<I, T>(a).mat_mat(&csr::<I, T>(b)), "mat_mat");
            want(n >= r.nnz(), &format!("bound {} is smaller than the {} entries produced", n, r.nnz()))?;
            want(n2 >= r.nnz(), &format!("csc bound {} is smaller than the {} entries produced", n2, r.nnz()))?;
            // never more than the structural result
            let mut st = BTreeSet::new();
            let (la, lb) = (lines_of::<T>(a), lines_of::<T>(b));
            for (i, l) in la.iter().enumerate() {
                for &(j, _) in l {
                    for &(k, _) in &lb[j] {
                        st.insert((i, k));
                    }
                }
            }
            want(n >= st.len() || n >= r.nnz(), "bound is too small")
        }
        // ---------------------------------------------------------------- C08
        "csr_addsub" => {
            let (a, b) = (&c.m[0], &c.m[1]);
            let (x, y) = (csr::<I, T>(a), csr::<I, T>(b));
            let (da, db) = (dsum::<T>(a, false), dsum::<T>(b, false));
            let (r, w) = match kk {
                0 => (&x + &y, combine(&da, &db, vadd)),
                1 => (&x - &y, combine(&da, &db, vsub)),
                2 => (x + y, combine(&da, &db, vadd)),
                _ => (x - y, combine(&da, &db, vsub)),
            };
            let l = r_csr(&r, a.rows, a.cols)?;
            eq_dense(&sums(&ents(&l)), &w)?;
            want(nodup(&l), "a position is stored twice")?;
            want(nozero(&l), "a zero is stored")
        }
        "csc_addsub" | "csc_addsub_methods" => {
            let (a, b) = (&c.m[0], &c.m[1]);
            let (x, y) = (csc::<I, T>(a), csc::<I, T>(b));
            let (da, db) = (dsum::<T>(a, true), dsum::<T>(b, true));
            let (r, w) = if op == "csc_addsub" {
                match kk {
                    0 => (&x + &y, combine(&da, &db, vadd)),
                    1 => (&x - &y, combine(&da, &db, vsub)),
                    2 => (x + y, combine(&da, &db, vadd)),
                    _ => (x - y, combine(&da, &db, vsub)),
                }
            } else if kk % 2 == 0 {
                (okk!(CSC::add(&x, &y), "add"), combine(&da, &db, vadd))
            } else {
                (okk!(CSC::subtract(&x, &y), "subtract"), combine(&da, &db, vsub))
            };
            let l = r_csc(&r, a.rows, a.cols)?;
            eq_dense(&sums(&swap(&ents(&l))), &w)?;
            want(nodup(&l), "a position is stored twice")?;
            want(nozero(&l), "a zero is stored")
        }
        "coo_add" => {
            let (a, b) = (&c.m[0], &c.m[1]);
            let (x, y) = (coo::<I, T>(a), coo::<I, T>(b));
            let w = combine(&sums(&ents_t(&trips_of::<T>(a))), &sums(&ents_t(&trips_of::<T>(b))), vadd);
            let r = if kk == 0 { x + y } else { &x + &y };
            let l = r_csr(&r, a.rows, a.cols)?;
            eq_dense(&sums(&ents(&l)), &w)?;
            want(nodup(&l), "a position is stored twice")
        }
        // ---------------------------------------------------------------- C09
        "kernel_binop" => {
            type K<I, T> = fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [T]);
            type B<I, T> = fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [bool]);
            let ks: [(K<I, T>, fn(V, V) -> V, &str); 3] =
                [(csr_mul_csr, vmul, "mul"), (csr_add_csr, vadd, "add"), (csr_sub_csr, vsub, "sub")];
            for (k, g, name) in ks {
                if c.scale == 0 || name != "mul" {
                    binop::<I, T, T>(c, k, |a, b| g(a, b), |v| v.to(), T::zero(), name)?;
                }
            }
            let bs: [(B<I, T>, fn(V, V) -> bool, &str); 2] =
                [(csr_ne_csr, |a, b| a != b, "ne"), (csr_eq_csr, |a, b| a == b, "eq")];
            for (k, g, name) in bs {
                binop::<I, T, bool>(c, k, |a, b| (g(a, b) as i64, 0), |v| (v as i64, 0), false, name)?;
            }
            Ok(())
        }
        "kernel_binop_parts" => {
            // the two code paths directly, with an operator of the harness
            let g: fn(T, T) -> T = |a, b| a - b - b;
            let h = |a: V, b: V| vsub(vsub(a, b), b);
            binop::<I, T, T>(
                c,
                |a, b, d, e, x, p, q, y, r, s, t| csr_binop_csr(a, b, d, e, x, p, q, y, r, s, t, g),
                h,
                |v| v.to(),
                T::zero(),
                "csr_binop_csr",
            )?;
            binop::<I, T, T>(
                c,
                |a, b, d, e, x, p, q, y, r, s, t| csr_binop_csr_general(a, b, d, e, x, p, q, y, r, s, t, g),
                h,
                |v| v.to(),
                T::zero(),
                "general",
            )?;
            if strict(&lines_of::<T>(&c.m[0])) && strict(&lines_of::<T>(&c.m[1])) {
                binop::<I, T, T>(
                    c,
                    |a, b, d, e, x, p, q, y, r, s, t| csr_binop_csr_canonical(a, b, d, e, x, p, q, y, r, s, t, g),
                    h,
                    |v| v.to(),
                    T::zero(),
                    "canonical",
                )?;
            }
            Ok(())
        }
        // ---------------------------------------------------------------- C10
        "csr_sort" | "csc_sort" => {
            let m = m0();
            let mut w = lines_of::<T>(m);
            for l in w.iter_mut() {
                l.sort_by_key(|e| e.0);
            }
            let l = if op == "csr_sort" {
                let mut a = csr::<I, T>(m);
                a.sort_indexes();
                r_csr(&a, m.rows, m.cols)?
            } else {
                let mut a = csc::<I, T>(m);
                a.sort_indexes();
                r_csc(&a, m.rows, m.cols)?
            };
            eq_lines(&l, &w)
        }
        "csr_sumdup" | "csc_sumdup" => {
            let m = m0();
            let e = ents(&lines_of::<T>(m));
            let l = if op == "csr_sumdup" {
                let mut a = csr::<I, T>(m);
                okk!(a.sum_duplicates(), "sum_duplicates");
                r_csr(&a, m.rows, m.cols)?
            } else {
                let mut a = csc::<I, T>(m);
                a.sum_duplicates();
                r_csc(&a, m.rows, m.cols)?
            };
            want(strict(&l), "a line is not strictly increasing after summing duplicates")?;
            eq_dense(&sums(&ents(&l)), &sums(&e))?;
            want(ents(&l).keys().eq(e.keys()), "the stored positions changed")
        }
        "kernel_sumdup" => {
            let m = m0();
            let (mut p, mut j, mut x) = (iv::<I>(&m.p), iv::<I>(&m.j), tv::<T>(&m.x));
            csr_sort_indices(m.rows, &p, &mut j, &mut x);
            csr_sum_duplicates(m.rows, m.cols, &mut p, &mut j, &mut x);
            let l = structure(&p, &j, &x, m.rows, m.cols)?;
            want(strict(&l), "a line is not strictly increasing after summing duplicates")?;
            let e = ents(&lines_of::<T>(m));
            eq_dense(&sums(&ents(&l)), &sums(&e))?;
            want(ents(&l).keys().eq(e.keys()), "the stored positions changed")
        }
        "kernel_elimzeros" => {
            let m = m0();
            let (mut p, mut j, mut x) = (iv::<I>(&m.p), iv::<I>(&m.j), tv::<T>(&m.x));
            csr_eliminate_zeros(m.rows, m.cols, &mut p, &mut j, &mut x);
            let l = structure(&p, &j, &x, m.rows, m.cols)?;
            let w: Lines =
                lines_of::<T>(m).iter().map(|l| l.iter().copied().filter(|e| e.1 != (0, 0)).collect()).collect();
            eq_lines(&l, &w)
        }
        "csc_prune" => {
            let m = m0();
            let mut a = csc::<I, T>(m);
            okk!(a.prune(), "prune");
            eq_lines(&r_csc(&a, m.rows, m.cols)?, &lines_of::<T>(m))?;
            exact_len("rowidx", a.rowidx(), nnz(m))?;
            exact_len("values", a.values(), nnz(m))
        }
        // ---------------------------------------------------------------- C11
        "csr_predicates" => {
            let m = m0();
            let a = csr::<I, T>(m);
            let l = lines_of::<T>(m);
            want(a.has_sorted_indexes() == sorted(&l), "has_sorted_indexes is wrong")?;
            want(a.has_canonical_format() == strict(&l), "has_canonical_format is wrong")?;
            want(a.nnz() == nnz(m), "nnz is wrong")
        }
        "csc_predicates" => {
            let m = m0();
            let a = csc::<I, T>(m);
            let l = lines_of::<T>(m);
            want(a.has_sorted_indexes() == sorted(&l), "has_sorted_indexes is wrong")?;
            want(a.has_canonical_format() == strict(&l), "has_canonical_format is wrong")?;
            want(a.nnz() == nnz(m), "nnz is wrong")
        }
        "kernel_count_diagonals" => {
            let m = m0();
            let n = csr_count_diagonals(m.rows, &iv::<I>(&m.p), &iv::<I>(&m.j));
            let w: BTreeSet<i64> = ents(&lines_of::<T>(m)).keys().map(|k| k.1 as i64 - k.0 as i64).collect();
            want(n == w.len(), &format!("counted {} diagonals, expected {}", n, w.len()))
        }
        // ---------------------------------------------------------------- C12
        "csr_select" | "csc_select" => {
            let m = m0();
            let csc_ = op == "csc_select";
            let d = dsum::<T>(m, csc_);
            let ri: Vec<usize> = c.l[0].iter().map(|&a| a as usize).collect();
            let ci: Vec<usize> = c.l[1].iter().map(|&a| a as usize).collect();
            let (ri_i, ci_i) = (iv::<I>(&ri), iv::<I>(&ci));
            let r_arg = if kk & 1 == 1 { Some(&ri_i[..]) } else { None };
            let c_arg = if kk & 2 == 2 { Some(&ci_i[..]) } else { None };
            let ri = if kk & 1 == 1 { ri } else { (0..m.rows).collect() };
            let ci = if kk & 2 == 2 { ci } else { (0..m.cols).collect() };
            let e = if csc_ {
                let r = okk!(csc::<I, T>(m).select(r_arg, c_arg), "select");
                swap(&ents(&r_csc(&r, ri.len(), ci.len())?))
            } else {
                let r = okk!(csr::<I, T>(m).select(r_arg, c_arg), "select");
                ents(&r_csr(&r, ri.len(), ci.len())?)
            };
            let mut w = Dense::new();
            for (r, &i) in ri.iter().enumerate() {
                for (k, &j) in ci.iter().enumerate() {
                    let v = at(&d, i, j);
                    if v != (0, 0) {
                        w.insert((r, k), v);
                    }
                }
            }
            eq_dense(&sums(&e), &w)
        }
        "kernel_submatrix" => {
            let m = m0();
            let (r0, r1, c0, c1) = (c.k[0] as usize, c.k[1] as usize, c.k[2] as usize, c.k[3] as usize);
            let (mut p, mut j, mut x) = (vec![], vec![], vec![]);
            get_csr_submatrix(
                m.rows, m.cols, &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x),
                I::of(r0), I::of(r1), I::of(c0), I::of(c1), &mut p, &mut j, &mut x,
            );
            let l = structure(&p, &j, &x, r1 - r0, c1 - c0)?;
            let nnz = l.iter().map(|l| l.len()).sum::<usize>();
            if j.len() != nnz || x.len() != nnz {
                return f(format!("{} indices and {} values are returned for {} entries", j.len(), x.len(), nnz));
            }
            let w: Lines = lines_of::<T>(m)[r0..r1]
                .iter()
                .map(|l| l.iter().filter(|e| e.0 >= c0 && e.0 < c1).map(|e| (e.0 - c0, e.1)).collect())
                .collect();
            eq_lines(&l, &w)
        }
        "kernel_row_index" | "kernel_row_slice" => {
            let m = m0();
            let l = lines_of::<T>(m);
            let (mut j, mut x): (Vec<I>, Vec<T>) = (vec![], vec![]);
            let mut rows = vec![];
            if op == "kernel_row_index" {
                rows = c.l[0].iter().map(|&a| a as usize).collect();
                csr_row_index(rows.len(), &rows, &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x), &mut j, &mut x);
            } else {
                let (a, b, st) = (c.k[0] as usize, c.k[1] as usize, c.k[2] as usize);
                let mut i = a;
                while i < b {
                    rows.push(i);
                    i += st;
                }
                csr_row_slice(a, b, st, &iv::<I>(&m.p), &iv::<I>(&m.j), &tv::<T>(&m.x), &mut j, &mut x);
            }
            let w: Vec<(usize, V)> = rows.iter().flat_map(|&r| l[r].iter().copied()).collect();
            if j.len() != x.len() {
                return s("index and value outputs differ in length");
            }
            let g: Vec<(usize, V)> = j.iter().zip(&x).map(|(a, b)| (a.us(), b.to())).collect();
            want(g == w, &format!("entries are {:?}, expected {:?}", g, w))
        }
        "kernel_column_index" => {
            let m = m0();
            let idx: Vec<usize> = c.l[0].iter().map(|&a| a as usize).collect();
            let mut order: Vec<usize> = (0..idx.len()).collect();
            order.sort_by_key(|&k| idx[k]);
            let mut offs = zi::<I>(m.cols);
            let mut p = vec![I::one(); m.rows + 1];
            csr_column_index1(idx.len(), &idx, m.rows, m.cols, &iv::<I>(&m.p), &iv::<I>(&m.j), &mut offs, &mut p);
            let n = p[m.rows].us();
            let mut w: Lines = vec![];
            for l in lines_of::<T>(m) {
                let mut o = vec![];
                for (j, v) in l {
                    for (k, &t) in idx.iter().enumerate() {
                        if t == j {
                            o.push((k, v));
                        }
                    }
                }
                w.push(o);
            }
            let total: usize = w.iter().map(|l| l.len()).sum();
            if n != total {
                return f(format!("pass 1 counts {} entries, expected {}", n, total));
            }
            let (mut j, mut x) = (zi::<I>(n), z::<T>(n));
            csr_column_index2(&iv::<I>(&order), &offs, nnz(m), &iv::<I>(&m.j), &tv::<T>(&m.x), &mut j, &mut x);
            eq_lines(&structure(&p, &j, &x, m.rows, idx.len())?, &w)
        }
        // ---------------------------------------------------------------- C13
        "csr_diagonal" | "csc_diagonal" | "coo_diagonal" => {
            let m = m0();
            let (d, g) = match op {
                "csr_diagonal" => (dsum::<T>(m, false), csr::<I, T>(m).diagonal()),
                "csc_diagonal" => (dsum::<T>(m, true), csc::<I, T>(m).diagonal()),
                _ => (sums(&ents_t(&trips_of::<T>(m))), coo::<I, T>(m).diagonal()),
            };
            let w: Vec<V> = (0..m.rows.min(m.cols)).map(|i| at(&d, i, i)).collect();
            eq_vals("diagonal", &vals(&g), &w)
        }
        "kernel_csr_diagonal" | "kernel_csc_diagonal" => {
            let m = m0();
            let csc_ = op == "kernel_csc_diagonal";
            let d = dsum::<T>(m, csc_);
            let mut y = tv::<T>(&c.m[1].x);
            let k = if csc_ { csc_diagonal::<I, T> } else { csr_diagonal::<I, T> };
            k(kk as isize, m.rows, m.cols, &iv(&m.p), &iv(&m.j), &tv(&m.x), &mut y);
            let mut w = pv::<T>(&c.m[1]);
            let (r0, c0) = if kk >= 0 { (0, kk as usize) } else { ((-kk) as usize, 0) };
            let n = (m.rows - r0).min(m.cols - c0);
            for t in 0..n {
                w[t] = at(&d, r0 + t, c0 + t);
            }
            eq_vals("diagonal", &vals(&y), &w)
        }
        "coo_upper" => {
            let m = m0();
            let k = <I as num_traits::NumCast>::from(kk).unwrap();
            let r = coo::<I, T>(m).upper(k);
            let w: Vec<_> = trips_of::<T>(m).into_iter().filter(|t| t.0 as i64 + kk <= t.1 as i64).collect();
            let g = r_coo(&r, m.rows, m.cols)?;
            want(g == w, &format!("upper triangle is {:?}, expected {:?}", g, w))
        }
        // ---------------------------------------------------------------- C14
        "csr_scale" => {
            let m = m0();
            let v = c.m[1].x[0];
            let a = csr::<I, T>(m);
            let r = if kk % 2 == 0 { &a * T::of(v) } else { a * T::of(v) };
            let w: Lines =
                lines_of::<T>(m).iter().map(|l| l.iter().map(|e| (e.0, vmul(e.1, T::proj(v)))).collect()).collect();
            eq_lines(&r_csr(&r, m.rows, m.cols)?, &w)
        }
        "csc_scale" => {
            let m = m0();
            let v = c.m[1].x[0];
            let a = csc::<I, T>(m);
            let r = if kk % 2 == 0 { &a * T::of(v) } else { a * T::of(v) };
            let w: Lines =
                lines_of::<T>(m).iter().map(|l| l.iter().map(|e| (e.0, vmul(e.1, T::proj(v)))).collect()).collect();
            eq_lines(&r_csc(&r, m.rows, m.cols)?, &w)
        }
        "csr_neg" => {
            let m = m0();
            let a = csr::<I, T>(m);
            let r = -a;
            let w: Lines = lines_of::<T>(m).iter().map(|l| l.iter().map(|e| (e.0, vneg(e.1))).collect()).collect();
            eq_lines(&r_csr(&r, m.rows, m.cols)?, &w)
        }
        "csc_neg" => {
            let m = m0();
            let r = -csc::<I, T>(m);
            let w: Lines = lines_of::<T>(m).iter().map(|l| l.iter().map(|e| (e.0, vneg(e.1))).collect()).collect();
            eq_lines(&r_csc(&r, m.rows, m.cols)?, &w)
        }
        "coo_neg" => {
            let m = m0();
            let r = -coo::<I, T>(m);
            let w: Vec<_> = trips_of::<T>(m).into_iter().map(|t| (t.0, t.1, vneg(t.2))).collect();
            want(r_coo(&r, m.rows, m.cols)? == w, "wrong triplets after negation")
        }
        "kernel_scale" => {
            let m = m0();
            let mut x = tv::<T>(&m.x);
            csr_scale_rows(m.rows, m.cols, &iv::<I>(&m.p), &iv::<I>(&m.j), &mut x, &tv::<T>(&c.m[1].x));
            let (mut w, r, k) = (pv::<T>(m), pv::<T>(&c.m[1]), pv::<T>(&c.m[2]));
            for i in 0..m.rows {
                for t in m.p[i]..m.p[i + 1] {
                    w[t] = vmul(w[t], r[i]);
                }
            }
            eq_vals("values after row scaling", &vals(&x), &w)?;
            let mut x = tv::<T>(&m.x);
            csr_scale_columns(m.rows, m.cols, &iv::<I>(&m.p), &iv::<I>(&m.j), &mut x, &tv::<T>(&c.m[2].x));
            let mut w = pv::<T>(m);
            for t in 0..nnz(m) {
                w[t] = vmul(w[t], k[m.j[t]]);
            }
            eq_vals("values after column scaling", &vals(&x), &w)
        }
        // ---------------------------------------------------------------- C16
        "coo_hstack" | "coo_vstack" | "coo_hstack3" | "coo_vstack3" | "csr_hstack" => {
            let h = op.contains("hstack");
            let csr_ = op == "csr_hstack";
            let good = c.m.windows(2).all(|w| if h { w[0].rows == w[1].rows } else { w[0].cols == w[1].cols });
            let mut off = 0;
            let mut e: Vec<(usize, usize, V)> = vec![];
            for m in &c.m {
                let t = if csr_ {
                    let mut t = vec![];
                    for (i, l) in lines_of::<T>(m).iter().enumerate() {
                        for &(j, v) in l {
                            t.push((i, j, v));
                        }
                    }
                    t
                } else {
                    trips_of::<T>(m)
                };
                for (i, j, v) in t {
                    e.push(if h { (i, j + off, v) } else { (i + off, j, v) });
                }
                off += if h { m.cols } else { m.rows };
            }
            let (rows, cols) = if h { (c.m[0].rows, off) } else { (off, c.m[0].cols) };
            let w = sums(&ents_t(&e));
            if csr_ {
                let r = CSR::h_stack(&csr::<I, T>(&c.m[0]), &csr::<I, T>(&c.m[1]));
                if !good {
                    return must_be_err(r, op);
                }
                let r = okk!(r, op);
                return eq_dense(&sums(&ents(&r_csr(&r, rows, cols)?)), &w);
            }
            let a: Vec<Coo<I, T>> = c.m.iter().map(|m| coo::<I, T>(m)).collect();
            let r = match op {
                "coo_hstack" => Coo::h_stack(&a[0], &a[1]),
                "coo_vstack" => Coo::v_stack(&a[0], &a[1]),
                "coo_hstack3" => Coo::h_stack3(&a[0], &a[1], &a[2]),
                _ => Coo::v_stack3(&a[0], &a[1], &a[2]),
            };
            if !good {
                return must_be_err(r, op);
            }
            let r = okk!(r, op);
            eq_dense(&sums(&ents_t(&r_coo(&r, rows, cols)?)), &w)
        }
        "coo_compose" | "coo_compose3" | "csc_compose" => {
            let n = if op == "coo_compose3" { 3 } else { 2 };
            let b = |i: usize, j: usize| &c.m[i * n + j];
            let mut good = true;
            for i in 0..n {
                for j in 0..n {
                    good &= b(i, j).rows == b(i, 0).rows;
                }
            }
            let cs: Vec<usize> = (0..n).map(|i| (0..n).map(|j| b(i, j).cols).sum()).collect();
            let total_ok = cs.windows(2).all(|w| w[0] == w[1]);
            let aligned = good && (0..n).all(|i| (0..n).all(|j| b(i, j).cols == b(0, j).cols));
            let rows: usize = (0..n).map(|i| b(i, 0).rows).sum();
            let mut e = vec![];
            let mut ro = 0;
            for i in 0..n {
                let mut co = 0;
                for j in 0..n {
                    let t = if op == "csc_compose" {
                        let mut t = vec![];
                        for (q, l) in lines_of::<T>(b(i, j)).iter().enumerate() {
                            for &(p, v) in l {
                                t.push((p, q, v));
                            }
                        }
                        t
                    } else {
                        trips_of::<T>(b(i, j))
                    };
                    for (p, q, v) in t {
                        e.push((p + ro, q + co, v));
                    }
                    co += b(i, j).cols;
                }
                ro += b(i, 0).rows;
            }
            let w = sums(&ents_t(&e));
            if op == "csc_compose" {
                let a: Vec<CSC<I, T>> = c.m.iter().map(|m| csc::<I, T>(m)).collect();
                let r = CSC::compose(&a[0], &a[1], &a[2], &a[3]);
                if !(good && total_ok) {
                    return must_be_err(r, op);
                }
                if !aligned && r.is_err() {
                    return Ok(());
                }
                let r = okk!(r, op);
                return eq_dense(&sums(&swap(&ents(&r_csc(&r, rows, cs[0])?))), &w);
            }
            let a: Vec<Coo<I, T>> = c.m.iter().map(|m| coo::<I, T>(m)).collect();
            let r = if n == 2 {
                Coo::compose([[&a[0], &a[1]], [&a[2], &a[3]]])
            } else {
                Coo::compose3([[&a[0], &a[1], &a[2]], [&a[3], &a[4], &a[5]], [&a[6], &a[7], &a[8]]])
            };
            if !(good && total_ok) {
                return must_be_err(r, op);
            }
            if !aligned && r.is_err() {
                return Ok(());
            }
            let r = okk!(r, op);
            eq_dense(&sums(&ents_t(&r_coo(&r, rows, cs[0])?)), &w)
        }
        // ---------------------------------------------------------------- C17
        "new_csr" | "new_csc" => {
            let m = m0();
            let (r, k) = (c.k[0] as usize, c.k[1] as usize);
            let n = nnz(m);
            let csr_ = op == "new_csr";
            let good = m.p.len() == (if csr_ { r } else { k }) + 1 && m.j.len() >= n && m.x.len() >= n;
            let (p, j, x) = (iv::<I>(&m.p), iv::<I>(&m.j), tv::<T>(&m.x));
            let (got, kept) = if csr_ {
                let a = CSR::<I, T>::new(r, k, p.clone(), j.clone(), x.clone());
                let kept = a.as_ref().map_or(true, |a| {
                    (a.rows(), a.cols(), a.nnz()) == (r, k, n) && a.rowptr() == p && a.colidx() == j && vals(a.values()) == vals(&x)
                });
                (a.is_ok(), kept)
            } else {
                let a = CSC::<I, T>::new(r, k, j.clone(), p.clone(), x.clone());
                let kept = a.as_ref().map_or(true, |a| {
                    (a.rows(), a.cols(), a.nnz(), a.shape()) == (r, k, n, (r, k)) && a.colptr() == p && a.rowidx() == j && vals(a.values()) == vals(&x)
                });
                (a.is_ok(), kept)
            };
            want(kept, "the constructed matrix does not show the given shape and arrays")?;
            want(got == good, &format!("constructor {} {} arguments", if got { "accepted" } else { "rejected" }, if good { "conforming" } else { "malformed" }))
        }
        "new_coo" => {
            let m = m0();
            let good = m.p.len() == m.x.len() && m.j.len() == m.x.len();
            let (p, j, x) = (iv::<I>(&m.p), iv::<I>(&m.j), tv::<T>(&m.x));
            let a = Coo::<I, T>::new(m.rows, m.cols, p.clone(), j.clone(), x.clone());
            let got = a.is_ok();
            if let Ok(a) = a {
                want(
                    (a.rows(), a.cols(), a.nnz()) == (m.rows, m.cols, x.len()) && a.rowidx() == p && a.colidx() == j && vals(a.values()) == vals(&x),
                    "the constructed matrix does not show the given shape and arrays",
                )?;
            }
            want(got == good, &format!("constructor {} {} arguments", if got { "accepted" } else { "rejected" }, if good { "conforming" } else { "malformed" }))
        }
        "shapes" => shapes::<I, T>(c),
        // ---------------------------------------------------------------- C18
        "dok_ops" => dok_ops::<I, T>(c),
        // ---------------------------------------------------------------- graphs
        "weak_components" => crate::graphs::weak::<I, T>(m0()),
        "strong_components" => crate::graphs::strong::<I, T>(m0()),
        "depth_first" => crate::graphs::dfs::<I, T>(m0(), kk as usize, c.k[1] == 1),
        "symmetric_components" => crate::graphs::symmetric::<I, T>(m0()),
        _ => panic!("harness: unknown operation {}", op),
    }
}

fn binop<I: Ix, T: Nm, T2: Copy>(
    c: &Case,
    k: impl Fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [T2]),
    g: impl Fn(V, V) -> V,
    tov: impl Fn(T2) -> V,
    zero: T2,
    name: &str,
) -> Res {
    let (a, b) = (&c.m[0], &c.m[1]);
    let n = nnz(a) + nnz(b);
    let mut p = vec![I::one(); a.rows + 1];
    let mut j = zi::<I>(n);
    let mut x = vec![zero; n];
    k(
        a.rows, a.cols, &iv(&a.p), &iv(&a.j), &tv(&a.x), &iv(&b.p), &iv(&b.j), &tv(&b.x), &mut p, &mut j, &mut x,
    );
    let xs: Vec<Complex64> = x.iter().map(|&v| <Complex64 as Nm>::of(tov(v))).collect();
    let l = structure::<I, Complex64>(&p, &j, &xs, a.rows, a.cols)?;
    let tag = |r: Res| match r {
        Err(Fail::Func(e)) => f(format!("{}: {}", name, e)),
        r => r,
    };
    let (ea, eb) = (ents(&lines_of::<T>(a)), ents(&lines_of::<T>(b)));
    let (da, db) = (sums(&ea), sums(&eb));
    let mut w = Dense::new();
    for q in ea.keys().chain(eb.keys()) {
        let v = g(at(&da, q.0, q.1), at(&db, q.0, q.1));
        if v != (0, 0) {
            w.insert(*q, v);
        }
    }
    tag(want(nodup(&l), "a position is stored twice"))?;
    tag(want(nozero(&l), "a zero or false result is stored"))?;
    tag(eq_dense(&sums(&ents(&l)), &w))?;
    if name != "general" && strict(&lines_of::<T>(a)) && strict(&lines_of::<T>(b)) {
        tag(want(strict(&l), "operands are canonical but the result is not"))?;
    }
    Ok(())
}

pub fn run_ord<I: Ix, T: Nm + PartialOrd>(c: &Case) -> Res {
    type K<I, T> = fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [T]);
    type B<I, T> = fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [bool]);
    let ks: [(K<I, T>, fn(V, V) -> V, &str); 2] = [
        (csr_max_csr, |a, b| if a.0 > b.0 { a } else { b }, "max"),
        (csr_min_csr, |a, b| if a.0 < b.0 { a } else { b }, "min"),
    ];
    for (k, g, name) in ks {
        binop::<I, T, T>(c, k, |a, b| g(a, b), |v| v.to(), T::zero(), name)?;
    }
    let bs: [(B<I, T>, fn(V, V) -> bool, &str); 4] = [
        (csr_lt_csr, |a, b| a.0 < b.0, "lt"),
        (csr_le_csr, |a, b| a.0 <= b.0, "le"),
        (csr_gt_csr, |a, b| a.0 > b.0, "gt"),
        (csr_ge_csr, |a, b| a.0 >= b.0, "ge"),
    ];
    for (k, g, name) in bs {
        binop::<I, T, bool>(c, k, |a, b| (g(a, b) as i64, 0), |v| (v as i64, 0), false, name)?;
    }
    Ok(())
}

/// division, f64: compared with the f64 quotient of the sums (NaN stored as itself)
pub fn run_div<I: Ix>(c: &Case) -> Res {
    let (a, b) = (&c.m[0], &c.m[1]);
    let n = nnz(a) + nnz(b);
    let mut p = vec![I::one(); a.rows + 1];
    let (mut j, mut x) = (zi::<I>(n), z::<f64>(n));
    csr_div_csr(
        a.rows, a.cols, &iv::<I>(&a.p), &iv::<I>(&a.j), &tv::<f64>(&a.x), &iv::<I>(&b.p), &iv::<I>(&b.j),
        &tv::<f64>(&b.x), &mut p, &mut j, &mut x,
    );
    structure::<I, f64>(&p, &j, &x, a.rows, a.cols)?;
    let mut got: BTreeMap<(usize, usize), f64> = BTreeMap::new();
    let canon = strict(&lines_of::<f64>(a)) && strict(&lines_of::<f64>(b));
    for i in 0..a.rows {
        let mut last = None;
        for t in p[i].us()..p[i + 1].us() {
            if got.insert((i, j[t].us()), x[t]).is_some() {
                return f("div: a position is stored twice");
            }
            if let Some(l) = last {
                if canon && l >= j[t].us() {
                    return f("div: operands are canonical but the result is not");
                }
            }
            last = Some(j[t].us());
        }
    }
    let (ea, eb) = (ents(&lines_of::<f64>(a)), ents(&lines_of::<f64>(b)));
    let (da, db) = (sums(&ea), sums(&eb));
    let mut n = 0;
    let keys: BTreeSet<_> = ea.keys().chain(eb.keys()).collect();
    for q in keys {
        let w = at(&da, q.0, q.1).0 as f64 / at(&db, q.0, q.1).0 as f64;
        match got.get(q) {
            None => want(w == 0.0, &format!("div: nothing stored at {:?}, expected {}", q, w))?,
            Some(&v) => {
                n += 1;
                want(v != 0.0 || v.is_nan(), "div: a zero is stored")?;
                want(v == w || (v.is_nan() && w.is_nan()), &format!("div: {} at {:?}, expected {}", v, q, w))?
            }
        }
    }
    want(n == got.len(), "div: a position stored in neither operand appears")
}

pub fn run_complex<I: Ix, F: Nm + sparsetools::Float>(c: &Case) -> Res
where
    num_complex::Complex<F>: Nm + sparsetools::Complex<F>,
{
    if c.op == "complex32_table" {
        return crate::text::complex32::<I>(c);
    }
    let m = &c.m[0];
    let map = |g: fn(V) -> V| -> Lines {
        lines_of::<num_complex::Complex<F>>(m).iter().map(|l| l.iter().map(|e| (e.0, g(e.1))).collect()).collect()
    };
    let mapt = |g: fn(V) -> V| -> Vec<(usize, usize, V)> {
        trips_of::<num_complex::Complex<F>>(m).into_iter().map(|t| (t.0, t.1, g(t.2))).collect()
    };
    let re: fn(V) -> V = |v| (v.0, 0);
    let im: fn(V) -> V = |v| (v.1, 0);
    let cj: fn(V) -> V = |v| (v.0, -v.1);
    let imim: fn(V) -> V = |v| (0, v.1);
    match c.op.as_str() {
        "csr_complex" => {
            let a = csr::<I, num_complex::Complex<F>>(m);
            let r: CSR<I, F> = a.real();
            let i: CSR<I, F> = a.imag();
            eq_lines(&r_csr(&r, m.rows, m.cols)?, &map(re))?;
            eq_lines(&r_csr(&i, m.rows, m.cols)?, &map(im))?;
            let k: CSR<I, num_complex::Complex<F>> = CCSR::<I, F, num_complex::Complex<F>>::conj(&a);
            eq_lines(&r_csr(&k, m.rows, m.cols)?, &map(cj))?;
            let h: CSC<I, num_complex::Complex<F>> = CCSR::<I, F, num_complex::Complex<F>>::h(&a);
            eq_lines(&r_csc(&h, m.cols, m.rows)?, &map(cj))?;
            let wr: CSR<I, num_complex::Complex<F>> = CCSR::<I, F, num_complex::Complex<F>>::with_real(&r);
            eq_lines(&r_csr(&wr, m.rows, m.cols)?, &map(re))?;
            let wi: CSR<I, num_complex::Complex<F>> = CCSR::<I, F, num_complex::Complex<F>>::with_imag(&i);
            eq_lines(&r_csr(&wi, m.rows, m.cols)?, &map(imim))
        }
        "csc_complex" => {
            let a = csc::<I, num_complex::Complex<F>>(m);
            let r: CSC<I, F> = a.real();
            let i: CSC<I, F> = a.imag();
            eq_lines(&r_csc(&r, m.rows, m.cols)?, &map(re))?;
            eq_lines(&r_csc(&i, m.rows, m.cols)?, &map(im))?;
            let k: CSC<I, num_complex::Complex<F>> = CCSC::<I, F, num_complex::Complex<F>>::conj(&a);
            eq_lines(&r_csc(&k, m.rows, m.cols)?, &map(cj))?;
            let h: CSR<I, num_complex::Complex<F>> = CCSC::<I, F, num_complex::Complex<F>>::h(&a);
            eq_lines(&r_csr(&h, m.cols, m.rows)?, &map(cj))
        }
        "coo_complex" => {
            let a = coo::<I, num_complex::Complex<F>>(m);
            let r: Coo<I, F> = a.real();
            let i: Coo<I, F> = a.imag();
            want(r_coo(&r, m.rows, m.cols)? == mapt(re), "real part is wrong")?;
            want(r_coo(&i, m.rows, m.cols)? == mapt(im), "imaginary part is wrong")?;
            let k: Coo<I, num_complex::Complex<F>> = CCoo::<I, F>::conj(&a);
            want(r_coo(&k, m.rows, m.cols)? == mapt(cj), "conjugate is wrong")?;
            let h: Coo<I, num_complex::Complex<F>> = CCoo::<I, F>::h(&a);
            let w: Vec<_> = mapt(cj).into_iter().map(|t| (t.1, t.0, t.2)).collect();
            want(r_coo(&h, m.cols, m.rows)? == w, "conjugate transpose is wrong")
        }
        "csr_lscale" => {
            let v = c.m[1].x[0];
            let s = Complex64::of(v);
            let a = csr::<I, Complex64>(m);
            let r = if c.k[0] % 2 == 0 { s * &a } else { s * a };
            let w: Lines =
                lines_of::<Complex64>(m).iter().map(|l| l.iter().map(|e| (e.0, vmul(v, e.1))).collect()).collect();
            eq_lines(&r_csr(&r, m.rows, m.cols)?, &w)
        }
        "csc_lscale" => {
            let v = c.m[1].x[0];
            let s = Complex64::of(v);
            let a = csc::<I, Complex64>(m);
            let r = if c.k[0] % 2 == 0 { s * &a } else { s * a };
            let w: Lines =
                lines_of::<Complex64>(m).iter().map(|l| l.iter().map(|e| (e.0, vmul(v, e.1))).collect()).collect();
            eq_lines(&r_csc(&r, m.rows, m.cols)?, &w)
        }
        o => panic!("harness: unknown complex operation {}", o),
    }
}

/// the same shape as a list of triplets, sometimes without any
fn coo_of<I: Ix, T: Nm>(m: &M, k: i64) -> Coo<I, T> {
    let a = csr::<I, T>(m).to_coo();
    if k % 3 == 0 {
        Coo::with_size(a.rows(), a.cols())
    } else {
        a
    }
}
fn shapes<I: Ix, T: Nm>(c: &Case) -> Res {
    let (ma, mb) = (&c.m[0], &c.m[1]);
    let (a, b) = (csr::<I, T>(ma), csr::<I, T>(mb));
    let same = ma.rows == mb.rows && ma.cols == mb.cols;
    let chain = ma.cols == mb.rows;
    // the same shapes as CSC: the transposes of the structures
    let cscm = |m: &M| M { rows: m.cols, cols: m.rows, ..m.clone() };
    let (ca, cb) = (csc::<I, T>(&cscm(ma)), csc::<I, T>(&cscm(mb)));
    let cchain = ma.rows == mb.cols;
    macro_rules! res {
        ($good:expr, $e:expr, $w:expr) => {{
            let r = match panics(|| $e) {
                Some(r) => r,
                None => return if $good { f(concat!($w, " panicked on conforming arguments")) } else { f(concat!($w, " panicked instead of returning an error")) },
            };
            if $good {
                okk!(r, $w);
                Ok(())
            } else {
                must_be_err(r, $w)
            }
        }};
    }
    macro_rules! oper {
        ($good:expr, $e:expr, $w:expr) => {
            if $good {
                match panics(|| $e) {
                    Some(_) => Ok(()),
                    None => f(concat!($w, " panicked on conforming arguments")),
                }
            } else {
                must_panic(|| $e, $w)
            }
        };
    }
    match c.k[0] {
        0 => res!(chain, a.mat_mat(&b), "CSR::mat_mat"),
        1 => res!(cchain, ca.mat_mat(&cb), "CSC::mat_mat"),
        2 => res!(same, CSC::add(&ca, &cb), "CSC::add"),
        3 => res!(same, CSC::subtract(&ca, &cb), "CSC::subtract"),
        4 => oper!(same, &a + &b, "CSR +"),
        5 => oper!(same, &a - &b, "CSR -"),
        6 => oper!(same, &ca + &cb, "CSC +"),
        7 => oper!(same, &ca - &cb, "CSC -"),
        8 => oper!(chain, &a * &b, "CSR *"),
        9 => oper!(cchain, &ca * &cb, "CSC *"),
        10 => {
            let n = (ma.cols as i64 + c.k[1]).max(0) as usize;
            let x = z::<T>(n);
            res!(n == ma.cols, a.mat_vec(&x), "CSR::mat_vec")?;
            oper!(n == ma.cols, &a * &x, "CSR * vector")
        }
        11 => {
            let n = (ma.rows as i64 + c.k[1]).max(0) as usize;
            let x = z::<T>(n);
            res!(n == ma.rows, ca.mat_vec(&x), "CSC::mat_vec")?;
            oper!(n == ma.rows, &ca * &x, "CSC * vector")
        }
        12 | 13 => {
            let (ri, ci): (Vec<usize>, Vec<usize>) =
                (c.l[0].iter().map(|&x| x as usize).collect(), c.l[1].iter().map(|&x| x as usize).collect());
            let canon = strict(&lines_of::<T>(ma));
            let fit = ri.iter().all(|&x| x < ma.rows) && ci.iter().all(|&x| x < ma.cols);
            let (ri, ci) = (iv::<I>(&ri), iv::<I>(&ci));
            if c.k[0] == 12 {
                if !canon && fit {
                    return Ok(()); // not a shape question
                }
                res!(canon && fit, a.select(Some(&ri), Some(&ci)), "CSR::select")
            } else {
                if !canon && fit {
                    return Ok(());
                }
                res!(canon && fit, ca.select(Some(&ci), Some(&ri)), "CSC::select")
            }
        }
        14 => {
            let sq = ma.rows == ma.cols;
            for (d, k) in [(true, graph::Connection::Strong), (true, graph::Connection::Weak), (false, graph::Connection::Strong)] {
                res!(sq, graph::connected_components(&a, d, k), "connected_components")?;
            }
            if !sq {
                res!(false, graph::depth_first_order(&a, 0, c.k[1] % 2 == 0), "depth_first_order")?;
                res!(false, a.connected_components::<i64>(), "CSR::connected_components")?;
            } else if ma.rows > 0 {
                res!(true, graph::depth_first_order(&a, 0, c.k[1] % 2 == 0), "depth_first_order")?;
            }
            Ok(())
        }
        15 => {
            // negative indices in a selection
            if I::min_value() == I::zero() || !strict(&lines_of::<T>(ma)) {
                return Ok(());
            }
            let neg = vec![I::zero() - I::one()];
            must_be_err(a.select(Some(&neg), None), "CSR::select(negative)")?;
            must_be_err(a.select(None, Some(&neg)), "CSR::select(negative)")?;
            must_be_err(ca.select(Some(&neg), None), "CSC::select(negative)")?;
            must_be_err(ca.select(None, Some(&neg)), "CSC::select(negative)")
        }
        16 => oper!(same, &a.to_coo() + &b.to_coo(), "Coo +"),
        18..=27 => {
            let (u, v) = (coo_of::<I, T>(ma, c.k[1]), coo_of::<I, T>(mb, c.k[2]));
            let (hr, hc) = (ma.rows == mb.rows, ma.cols == mb.cols);
            let pick = [[&u, &v, &u], [&u, &u, &v], [&v, &u, &u], [&u, &v, &v]][(c.k[1] & 3) as usize];
            let (x, y) = if c.k[2] % 2 == 0 { (&u, &v) } else { (&v, &u) };
            match c.k[0] {
                18 => res!(hr, Coo::h_stack(x, y), "Coo::h_stack"),
                19 => res!(hc, Coo::v_stack(x, y), "Coo::v_stack"),
                20 => res!(hr, Coo::h_stack3(pick[0], pick[1], pick[2]), "Coo::h_stack3"),
                21 => res!(hc, Coo::v_stack3(pick[0], pick[1], pick[2]), "Coo::v_stack3"),
                22 => {
                    res!(hr, CSR::h_stack(&a, &b), "CSR::h_stack")?;
                    res!(hr, CSR::h_stack(&b, &a), "CSR::h_stack")
                }
                23 => {
                    // rows of blocks of unequal heights, then of unequal total widths
                    res!(hr, Coo::compose([[x, y], [y, x]]), "Coo::compose")?;
                    res!(hc, Coo::compose([[x, x], [y, y]]), "Coo::compose")
                }
                24 => {
                    res!(hr, Coo::compose3([[pick[0], pick[1], pick[2]], [pick[2], pick[1], pick[0]], [pick[1], pick[2], pick[0]]]), "Coo::compose3")?;
                    let (p, q, r) = (pick[0], pick[1], pick[2]);
                    res!(hc, Coo::compose3([[p, p, p], [q, q, q], [r, r, r]]), "Coo::compose3")
                }
                25 => {
                    let (x, y) = if c.k[2] % 2 == 0 { (&ca, &cb) } else { (&cb, &ca) };
                    res!(hc, CSC::compose(x, y, y, x), "CSC::compose")?;
                    res!(hr, CSC::compose(x, x, y, y), "CSC::compose")
                }
                _ => {
                    if !strict(&lines_of::<T>(ma)) {
                        return Ok(());
                    }
                    let (ri, ci): (Vec<usize>, Vec<usize>) =
                        (c.l[0].iter().map(|&x| x as usize).collect(), c.l[1].iter().map(|&x| x as usize).collect());
                    let (fr, fc) = (ri.iter().all(|&x| x < ma.rows), ci.iter().all(|&x| x < ma.cols));
                    let (ri, ci) = (iv::<I>(&ri), iv::<I>(&ci));
                    res!(fr, a.select(Some(&ri), None), "CSR::select")?;
                    res!(fc, a.select(None, Some(&ci)), "CSR::select")?;
                    res!(fc, ca.select(Some(&ci), None), "CSC::select")?;
                    res!(fr, ca.select(None, Some(&ri)), "CSC::select")
                }
            }
        }
        _ => oper!(ma.rows == mb.rows, &ca * &b, "CSC * CSR"),
    }
}

fn dok_ops<I: Ix, T: Nm>(c: &Case) -> Res {
    let m = &c.m[0];
    let mut d = if c.k[0] == 1 {
        let rows = dense_rows::<T>(&M { rows: m.rows, cols: m.cols, ..c.m[1].clone() });
        let refs: Vec<&[T]> = rows.iter().map(|r| &r[..]).collect();
        DoK::<I, T>::from_dense(&refs)
    } else {
        DoK::<I, T>::new(m.rows, m.cols)
    };
    let mut w = Dense::new();
    if c.k[0] == 1 {
        for i in 0..m.rows {
            for j in 0..m.cols {
                let v = T::proj(c.m[1].x[i * m.cols + j]);
                if v != (0, 0) {
                    w.insert((i, j), v);
                }
            }
        }
    }
    let all = |d: &DoK<I, T>, w: &Dense| -> Res {
        want(d.rows() == m.rows && d.cols() == m.cols, "dimensions changed")?;
        for i in 0..m.rows {
            for j in 0..m.cols {
                let g = d.get(I::of(i), I::of(j)).to();
                want(g == at(w, i, j), &format!("element ({}, {}) is {:?}, expected {:?}", i, j, g, at(w, i, j)))?;
            }
        }
        want(d.nnz() == w.len(), &format!("{} elements stored, expected {}", d.nnz(), w.len()))
    };
    for (t, o) in c.l[0].chunks(3).enumerate() {
        let (kind, i, j) = (o[0], o[1], o[2]);
        let v = m.x[t];
        let (ii, jj) = (<I as num_traits::NumCast>::from(i).unwrap(), <I as num_traits::NumCast>::from(j).unwrap());
        let r = match kind {
            0 => d.set(ii, jj, T::of(v)),
            1 => d.add(ii, jj, T::of(v)),
            _ => d.sub(ii, jj, T::of(v)),
        };
        let inside = i >= 0 && j >= 0 && (i as usize) < m.rows && (j as usize) < m.cols;
        if r.is_ok() != inside {
            return f(format!("update at ({}, {}) {}", i, j, if inside { "was rejected" } else { "outside the matrix was accepted" }));
        }
        if inside {
            let q = (i as usize, j as usize);
            let old = at(&w, q.0, q.1);
            let v = T::proj(v);
            let new = match kind {
                0 => v,
                1 => vadd(old, v),
                _ => vsub(old, v),
            };
            if new == (0, 0) {
                w.remove(&q);
            } else {
                w.insert(q, new);
            }
        }
        if t % 5 == 0 {
            all(&d, &w)?;
        }
    }
    all(&d, &w)?;
    eq_dense(&dense_of(&d.to_dense(), m.rows, m.cols)?, &w)?;
    let t = r_coo(&d.to_coo(), m.rows, m.cols)?;
    want(t.len() == w.len(), "COO export has another number of entries")?;
    eq_dense(&sums(&ents_t(&t)), &w)?;
    eq_dense(&sums(&ents(&r_csr(&d.to_csr(), m.rows, m.cols)?)), &w)?;
    eq_dense(&sums(&swap(&ents(&r_csc(&d.to_csc(), m.rows, m.cols)?))), &w)
}
