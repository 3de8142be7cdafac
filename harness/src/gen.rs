//! Input generators.
use crate::case::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Canonical,
    SortedDups,
    Arbitrary,
    NoDup,
}
pub struct G<'a> {
    pub r: &'a mut Rng,
    pub ity: u8,
    pub size: u8,
    /// cells still allowed (bounds the product of large dimensions)
    pub area: usize,
    /// values beyond the products a single-precision scalar holds exactly are allowed
    pub big: bool,
}
/// largest value of the index type, capped
pub fn cap_of(ity: u8) -> usize {
    match ity {
        4 => 255,
        5 => 127,
        _ => usize::MAX,
    }
}
impl<'a> G<'a> {
    pub fn small(&self) -> bool {
        cap_of(self.ity) < 1000
    }
    pub fn dim(&mut self) -> usize {
        if self.size >= 3 && !self.small() && self.r.chance(1, 6) {
            // next to a power of two
            let d = [[8, 16, 32, 16], [16, 32, 64, 64], [64, 128, 256, 512]][self.size as usize - 3][self.r.below(4)] + self.r.below(3) - 1;
            if self.size < 5 {
                return d;
            }
            if d <= self.area {
                self.area /= d;
                return d;
            }
        }
        if self.size >= 5 && !self.small() {
            let m = [4, 40, 300, 1100][self.r.below(4)];
            let d = self.r.below(m.min(self.area).max(8) + 1);
            self.area /= d.max(1);
            return d;
        }
        let m = if self.small() {
            [2, 4, 4, 4, 4, 4][self.size as usize]
        } else {
            [2, 4, 9, 24, 60][self.size as usize]
        };
        self.r.below(m + 1)
    }
    pub fn dim1(&mut self) -> usize {
        self.dim().max(1)
    }
    pub fn linelen(&mut self) -> usize {
        let m = if self.small() {
            3
        } else {
            match self.size {
                0 => 2,
                1 => 3,
                2 => 6,
                3 => {
                    if self.r.chance(1, 3) {
                        50
                    } else {
                        5
                    }
                }
                5 => {
                    if self.r.chance(1, 12) {
                        500
                    } else {
                        3
                    }
                }
                _ => {
                    if self.r.chance(1, 8) {
                        60
                    } else {
                        4
                    }
                }
            }
        };
        if self.r.chance(1, 4) {
            0
        } else {
            self.r.below(m + 1)
        }
    }
    pub fn val(&mut self) -> (i64, i64) {
        let m = if self.size < 2 || self.r.chance(1, 2) { 3 } else if self.big && self.r.chance(1, 6) { 1 << 18 } else { 40 };
        if self.r.chance(1, 8) {
            return (0, 0);
        }
        let re = self.r.range(-m, m);
        let im = if self.r.chance(1, 3) { 0 } else { self.r.range(-m, m) };
        (re, im)
    }
    pub fn nzval(&mut self) -> (i64, i64) {
        let v = self.val();
        if v.0 == 0 {
            (1, v.1)
        } else {
            v
        }
    }
    pub fn style(&mut self) -> Style {
        match self.r.below(4) {
            0 => Style::Canonical,
            1 => Style::SortedDups,
            2 => Style::NoDup,
            _ => Style::Arbitrary,
        }
    }
    /// an index, the first and last ones more often
    fn place(&mut self, below: usize) -> usize {
        if below > 8 && self.r.chance(1, 10) {
            if self.r.chance(1, 3) { 0 } else { below - 1 }
        } else {
            self.r.below(below)
        }
    }
    /// the lines of a matrix with a recognisable pattern
    fn pattern(&mut self, lines: usize, minor: usize) -> Option<Vec<Vec<usize>>> {
        if lines == 0 || minor == 0 {
            return None;
        }
        let (c, l, w) = (self.r.below(minor), self.r.below(lines), 1 + self.r.below(4));
        let kind = self.r.below(14);
        if matches!(kind, 2..=4 | 9) && lines * minor > 2500 {
            return None;
        }
        let shift = self.r.below(minor);
        let off = if self.r.chance(1, 2) { self.r.below(minor.max(lines)) } else { 1 << self.r.below(8) };
        Some(
            (0..lines)
                .map(|i| {
                    (0..minor)
                        .filter(|&j| match kind {
                            0 => i == j,
                            1 => i <= j + 1 && j <= i + 1,
                            2 => i <= j,
                            3 => i >= j,
                            4 => true,
                            5 => j + i % minor + 1 == minor,
                            6 => j == (i + shift) % minor,
                            7 => i == l,
                            8 => j == c,
                            9 => i / w == j / w,
                            10 => i + 1 == lines && j + 1 == minor,
                            11 => i == j + off || j == i + off,
                            12 => (i == 0 && j + 1 == minor) || (j == 0 && i + 1 == lines),
                            _ => i == j || i == l || j == c,
                        })
                        .collect()
                })
                .collect(),
        )
    }
    /// few entries, repeated in the same column some power of two lines further on
    fn echo(&mut self, lines: usize, minor: usize) -> Option<Vec<Vec<usize>>> {
        if lines == 0 || minor == 0 {
            return None;
        }
        let mut v: Vec<Vec<usize>> = vec![vec![]; lines];
        for _ in 0..1 + self.r.below(4) {
            let step = if self.r.chance(1, 3) && lines > 256 { 256 } else { 1usize << self.r.below(10) };
            let step = if self.r.chance(1, 5) { step + self.r.below(3) - 1 } else { step };
            let (i, j) = (self.r.below(lines - (step + 1).min(lines) + 1).min(lines - 1), self.place(minor));
            for t in [i, i + step] {
                if t < lines && !v[t].contains(&j) {
                    v[t].push(j);
                }
            }
        }
        v.iter_mut().for_each(|l| l.sort());
        Some(v)
    }
    /// a sorted line with one flaw, more often at a round place
    fn flaw(&mut self, l: &mut [usize]) {
        if l.len() < 2 {
            return;
        }
        let mut k = 1 + self.r.below(l.len() - 1);
        if l.len() > 8 && self.r.chance(1, 2) {
            k = [8, 16, 32, 32, 64, 128][self.r.below(6)] * (1 + self.r.below(3));
            if k >= l.len() {
                k = l.len() - 1;
            }
        }
        if self.r.chance(1, 2) {
            l.swap(k - 1, k);
        } else {
            l[k] = l[k - 1];
        }
    }
    fn line(&mut self, minor: usize, n: usize, st: Style) -> Vec<usize> {
        if minor == 0 {
            return vec![];
        }
        match st {
            Style::Canonical | Style::NoDup => {
                let n = n.min(minor);
                let mut all: Vec<usize> = vec![];
                while all.len() < n {
                    let j = self.place(minor);
                    if !all.contains(&j) {
                        all.push(j);
                    }
                }
                if st == Style::Canonical {
                    all.sort();
                }
                all
            }
            Style::SortedDups => {
                let mut v: Vec<usize> = (0..n).map(|_| self.place(minor)).collect();
                v.sort();
                v
            }
            Style::Arbitrary => {
                // few distinct columns, so that runs of duplicates are long
                let k = 1 + self.r.below(minor);
                (0..n).map(|_| self.r.below(k)).collect()
            }
        }
    }
    /// compressed matrix of `lines` lines; rows/cols are set by the caller
    pub fn mat(&mut self, lines: usize, minor: usize, st: Style) -> M {
        let mut m = M { p: vec![0], ..M::default() };
        let far = self.size >= 5 && lines > 64 && self.r.chance(1, 4);
        let mut pat = if far {
            self.echo(lines, minor)
        } else if self.r.chance(1, 7) {
            self.pattern(lines, minor)
        } else {
            None
        };
        // arbitrary, but nearly canonical
        let flawed = st == Style::Arbitrary && !self.small() && self.r.chance(1, 4);
        let wide = if flawed && self.r.chance(1, 2) { 20 + self.r.below(180) } else { 0 };
        let flawrow = self.r.below(lines.max(1));
        let st = if flawed { Style::Canonical } else { st };
        let plain = self.r.chance(1, 3);
        let holes = self.r.below(6);
        for i in 0..lines {
            let n = match (holes, self.linelen()) {
                (0, n) if self.r.chance(1, 8) => n,
                (0, _) => 0,
                (1, n) => n.max(1),
                (_, n) => n,
            };
            let js = match &mut pat {
                Some(p) => {
                    let mut l = std::mem::take(&mut p[i]);
                    if matches!(st, Style::SortedDups | Style::Arbitrary) && !l.is_empty() && !self.small() && self.r.chance(1, 3) {
                        let k = self.r.below(l.len());
                        l.insert(k, l[k]);
                    }
                    if matches!(st, Style::NoDup | Style::Arbitrary) && self.r.chance(1, 2) {
                        for k in (1..l.len()).rev() {
                            let t = self.r.below(k + 1);
                            l.swap(k, t);
                        }
                    }
                    l
                }
                None => self.line(minor, if i == flawrow && wide > 0 { wide } else { n }, st),
            };
            let mut js = js;
            if flawed && i == flawrow {
                self.flaw(&mut js);
            }
            let mut prev: Option<(usize, (i64, i64))> = None;
            for j in js {
                let v = match prev {
                    // cancelling duplicates
                    Some((pj, pv)) if pj == j && self.r.chance(1, 3) => (-pv.0, -pv.1),
                    _ if plain && pat.is_some() => (1, 0),
                    _ => self.val(),
                };
                prev = Some((j, v));
                m.j.push(j);
                m.x.push(v);
            }
            m.p.push(m.j.len());
        }
        self.spare(&mut m, minor);
        m
    }
    fn spare(&mut self, m: &mut M, minor: usize) {
        if self.r.chance(1, 3) {
            let (a, b) = (self.r.below(4), self.r.below(4));
            for _ in 0..a {
                let top = if self.r.chance(1, 2) { minor } else { minor + 3 };
                let v = self.r.below(top + 1);
                m.j.push(v);
            }
            for _ in 0..b {
                let v = self.nzval();
                m.x.push(v);
            }
        }
    }
    pub fn csr(&mut self, rows: usize, cols: usize, st: Style) -> M {
        let mut m = self.mat(rows, cols, st);
        m.rows = rows;
        m.cols = cols;
        m
    }
    pub fn csc(&mut self, rows: usize, cols: usize, st: Style) -> M {
        let mut m = self.mat(cols, rows, st);
        m.rows = rows;
        m.cols = cols;
        m
    }
    /// matrix whose stored count is exactly the largest value of a small index type
    pub fn full(&mut self, csc: bool) -> M {
        let cap = cap_of(self.ity);
        let (lines, minor) = (20usize, 7 + self.r.below(20));
        let mut m = M { p: vec![0], ..M::default() };
        for i in 0..lines {
            let left = cap - m.j.len();
            let n = if i + 2 == lines { left } else { self.r.below(2 * cap / lines).min(left) };
            let n = if i + 1 == lines { 0 } else { n };
            let mut v: Vec<usize> = (0..n).map(|_| self.r.below(minor)).collect();
            if self.r.chance(1, 2) {
                v.sort();
            }
            for j in v {
                m.j.push(j);
                let v = self.val();
                m.x.push(v);
            }
            m.p.push(m.j.len());
        }
        if csc {
            m.rows = minor;
            m.cols = lines;
        } else {
            m.rows = lines;
            m.cols = minor;
        }
        m
    }
    /// dimensions at the largest value of a small index type, few entries, many of them at the border
    pub fn edge(&mut self, csc: bool) -> M {
        let cap = cap_of(self.ity);
        let pick = |r: &mut Rng| [cap, cap, cap - 1, cap / 2 + 1, cap / 2, 1, 3][r.below(7)];
        let (lines, minor) = (pick(self.r), pick(self.r));
        let mut rows: Vec<Vec<usize>> = vec![vec![]; lines];
        for _ in 0..self.r.below(14) {
            let (i, j) = (self.place(lines), self.place(minor));
            rows[i].push(j);
        }
        let sorted = self.r.chance(1, 2);
        let mut m = M { p: vec![0], ..M::default() };
        for mut l in rows {
            if sorted {
                l.sort();
                l.dedup();
            }
            for j in l {
                m.j.push(j);
                let v = self.val();
                m.x.push(v);
            }
            m.p.push(m.j.len());
        }
        (m.rows, m.cols) = if csc { (minor, lines) } else { (lines, minor) };
        m
    }
    /// one matrix of any style and size
    pub fn any(&mut self, csc: bool) -> M {
        if self.small() && self.size >= 2 && self.r.chance(1, 6) {
            return self.full(csc);
        }
        if self.small() && self.size >= 2 && self.r.chance(1, 5) {
            return self.edge(csc);
        }
        let (a, b) = (self.dim(), self.dim());
        let st = self.style();
        if csc {
            self.csc(a, b, st)
        } else {
            self.csr(a, b, st)
        }
    }
    pub fn canon(&mut self, csc: bool) -> M {
        let (a, b) = (self.dim(), self.dim());
        if csc {
            self.csc(a, b, Style::Canonical)
        } else {
            self.csr(a, b, Style::Canonical)
        }
    }
    pub fn trip(&mut self, rows: usize, cols: usize) -> M {
        let mut m = M { rows, cols, ..M::default() };
        if rows == 0 || cols == 0 {
            return m;
        }
        let n = if self.small() {
            self.r.below(13)
        } else {
            let t = [4, 8, 25, 80, 150, 1500][self.size as usize];
            self.r.below(t + 1)
        };
        let mode = self.r.below(4);
        for k in 0..n {
            let (mut i, mut j) = (self.place(rows), self.place(cols));
            if mode == 0 && k > 0 && self.r.chance(1, 2) {
                // repeat an earlier position
                let t = self.r.below(k);
                i = m.p[t];
                j = m.j[t];
            }
            if mode == 1 {
                i = self.r.below(1 + rows / 8);
            }
            m.p.push(i);
            m.j.push(j);
            let v = match (k.saturating_sub(200)..k).rev().find(|&t| m.p[t] == i && m.j[t] == j) {
                Some(t) if self.r.chance(1, 3) => (-m.x[t].0, -m.x[t].1),
                _ => self.val(),
            };
            m.x.push(v);
        }
        self.reorder(&mut m);
        m
    }
    /// triplets in one of the customary orders
    fn reorder(&mut self, m: &mut M) {
        let mut t: Vec<(usize, usize, (i64, i64))> = (0..m.x.len()).map(|k| (m.p[k], m.j[k], m.x[k])).collect();
        match self.r.below(10) {
            0 => t.sort_by_key(|e| (e.0, e.1)),
            1 => t.sort_by_key(|e| (e.1, e.0)),
            2 => t.sort_by_key(|e| e.0),
            3 => {
                t.sort_by_key(|e| (e.0, e.1));
                t.reverse();
            }
            4 => {
                // no position twice
                t.sort_by_key(|e| (e.0, e.1));
                t.dedup_by_key(|e| (e.0, e.1));
            }
            _ => return,
        }
        m.p = t.iter().map(|e| e.0).collect();
        m.j = t.iter().map(|e| e.1).collect();
        m.x = t.iter().map(|e| e.2).collect();
    }
    pub fn anytrip(&mut self) -> M {
        if self.small() && self.size >= 2 && self.r.chance(1, 6) {
            let (a, b) = (5 + self.r.below(20), 5 + self.r.below(20));
            let mut m = M { rows: a, cols: b, ..M::default() };
            for _ in 0..cap_of(self.ity) {
                m.p.push(self.r.below(a));
                m.j.push(self.r.below(b));
                let v = self.val();
                m.x.push(v);
            }
            return m;
        }
        let (a, b) = (self.dim(), self.dim());
        self.trip(a, b)
    }
    /// vector stored as a 1-line matrix
    pub fn vec(&mut self, n: usize) -> M {
        M { rows: 1, cols: n, p: vec![], j: vec![], x: (0..n).map(|_| self.val()).collect() }
    }
    /// square graph
    pub fn graph(&mut self, symmetric: bool) -> M {
        let kind = self.r.below(16);
        let n = match self.size {
            0 => self.r.below(4),
            1 => self.r.below(6),
            2 => self.r.below(10),
            3 => self.r.below(16),
            _ => {
                if self.small() {
                    self.r.below(20)
                } else if self.size >= 5 {
                    let top = if self.r.chance(1, 4) { 1400 } else { 400 };
                    self.r.below(top)
                } else if self.r.chance(1, 4) {
                    self.r.below(200)
                } else {
                    self.r.below(40)
                }
            }
        };
        let n = if self.small() { n.min(if symmetric { 9 } else { 12 }) } else { n };
        let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
        if n > 0 {
            let maxe = if self.small() { if symmetric { 25 } else { 50 } } else { 4 * n + 4 };
            match kind {
                0 => {
                    for i in 0..n {
                        adj[i].push((i + 1) % n);
                    }
                    for _ in 0..self.r.below(3) {
                        let (a, b) = (self.r.below(n), self.r.below(n));
                        adj[a].push(b);
                    }
                }
                1 => {
                    for i in 1..n {
                        let p = self.r.below(i);
                        if self.r.chance(1, 2) {
                            adj[p].push(i)
                        } else {
                            adj[i].push(p)
                        }
                    }
                    for _ in 0..self.r.below(4) {
                        let (a, b) = (self.r.below(n), self.r.below(n));
                        adj[a].push(b);
                    }
                }
                10 => {
                    // star
                    let c = self.r.below(n);
                    let way = self.r.below(3);
                    for i in 0..n {
                        if i != c && way != 1 {
                            adj[c].push(i);
                        }
                        if i != c && way != 0 {
                            adj[i].push(c);
                        }
                    }
                }
                11 => {
                    // path, in one direction or both, with a chord
                    let both = self.r.chance(1, 2);
                    for i in 1..n {
                        if both || self.r.chance(9, 10) {
                            adj[i - 1].push(i);
                        }
                        if both {
                            adj[i].push(i - 1);
                        }
                    }
                    let (a, b) = (self.r.below(n), self.r.below(n));
                    adj[a].push(b);
                }
                12 => {
                    // grid
                    let w = 1 + self.r.below(8);
                    let both = self.r.chance(1, 2);
                    for i in 0..n {
                        if i + w < n {
                            adj[i].push(i + w);
                            if both && !self.small() {
                                adj[i + w].push(i);
                            }
                        }
                        if (i + 1) % w != 0 && i + 1 < n {
                            adj[i].push(i + 1);
                            if both && !self.small() {
                                adj[i + 1].push(i);
                            }
                        }
                    }
                }
                13 => {
                    // complete on the first few, a tail behind
                    let k = n.min(if self.small() { 6 } else { 30 });
                    for i in 0..k {
                        for j in 0..k {
                            if i != j {
                                adj[i].push(j);
                            }
                        }
                    }
                    for i in k.max(1)..n {
                        if self.r.chance(1, 2) {
                            adj[i - 1].push(i)
                        } else {
                            adj[i].push(i - 1)
                        }
                    }
                }
                14 => {
                    // layers with edges to the next one, sometimes back
                    let w = 1 + self.r.below(5);
                    for i in 0..n {
                        for _ in 0..2 {
                            let t = i + w + self.r.below(w);
                            if t < n {
                                adj[i].push(t);
                            }
                        }
                    }
                    let (a, b) = (self.r.below(n), self.r.below(n));
                    adj[a].push(b);
                }
                2 => {
                    // small cycles linked together
                    let mut i = 0;
                    while i < n {
                        let k = (1 + self.r.below(4)).min(n - i);
                        for t in 0..k {
                            adj[i + t].push(i + (t + 1) % k);
                        }
                        if i > 0 && self.r.chance(2, 3) {
                            let (a, b) = (self.r.below(i), i + self.r.below(k));
                            if self.r.chance(1, 2) {
                                adj[a].push(b)
                            } else {
                                adj[b].push(a)
                            }
                        }
                        i += k;
                    }
                }
                _ => {
                    let e = match kind {
                        3 => 0,
                        4..=5 => self.r.below(n + 1),
                        6..=7 => self.r.below(2 * n + 1),
                        _ => self.r.below(maxe),
                    };
                    for _ in 0..e.min(maxe) {
                        let (a, b) = (self.r.below(n), self.r.below(n));
                        adj[a].push(b);
                    }
                }
            }
            // relabel
            let mut perm: Vec<usize> = (0..n).collect();
            if self.r.chance(2, 3) {
                for i in (1..n).rev() {
                    let k = self.r.below(i + 1);
                    perm.swap(i, k);
                }
            }
            let mut b: Vec<Vec<usize>> = vec![vec![]; n];
            for i in 0..n {
                for &j in &adj[i] {
                    b[perm[i]].push(perm[j]);
                }
            }
            adj = b;
            if symmetric {
                let mut b = adj.clone();
                for i in 0..n {
                    for &j in &adj[i] {
                        if !b[j].contains(&i) {
                            b[j].push(i);
                        }
                    }
                }
                adj = b;
            }
            for l in adj.iter_mut() {
                match self.r.below(3) {
                    0 => l.sort(),
                    1 => {
                        for i in (1..l.len()).rev() {
                            let k = self.r.below(i + 1);
                            l.swap(i, k);
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut m = M { rows: n, cols: n, p: vec![0], ..M::default() };
        for l in &adj {
            for &j in l {
                m.j.push(j);
                let v = self.val();
                m.x.push(v);
            }
            m.p.push(m.j.len());
        }
        self.spare(&mut m, n);
        m
    }
    pub fn list(&mut self, n: usize, below: usize) -> Vec<i64> {
        if below == 0 {
            return vec![];
        }
        (0..n).map(|_| self.r.below(below) as i64).collect()
    }
}
