//! A test case: plain data, printable and parseable, so that a failing case is its own replay file.
use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct M {
    pub rows: usize,
    pub cols: usize,
    /// pointer array (compressed) or row indices (triplets)
    pub p: Vec<usize>,
    /// minor indices (compressed) or column indices (triplets)
    pub j: Vec<usize>,
    /// values (re, im)
    pub x: Vec<(i64, i64)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub op: String,
    pub ity: u8,
    pub tty: u8,
    pub m: Vec<M>,
    pub k: Vec<i64>,
    pub l: Vec<Vec<i64>>,
    /// floating-point values are multiplied by 2^scale
    pub scale: i32,
}

fn nums<T: std::fmt::Display>(v: &[T]) -> String {
    v.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")
}

impl Case {
    pub fn show(&self) -> String {
        let mut s = String::new();
        writeln!(s, "op {}", self.op).unwrap();
        writeln!(s, "types {} {}", ITY[self.ity as usize], TTY[self.tty as usize]).unwrap();
        if self.scale != 0 {
            writeln!(s, "scale {}", self.scale).unwrap();
        }
        for m in &self.m {
            writeln!(
                s,
                "matrix {} {} | {} | {} | {}",
                m.rows,
                m.cols,
                nums(&m.p),
                nums(&m.j),
                m.x.iter().map(|a| format!("{}:{}", a.0, a.1)).collect::<Vec<_>>().join(",")
            )
            .unwrap();
        }
        for l in &self.l {
            writeln!(s, "list {}", nums(l)).unwrap();
        }
        writeln!(s, "ints {}", nums(&self.k)).unwrap();
        s
    }
    pub fn parse(s: &str) -> Case {
        let mut c = Case::default();
        fn ns<T: std::str::FromStr>(s: &str) -> Vec<T> {
            s.split(',').map(|t| t.trim()).filter(|t| !t.is_empty()).filter_map(|t| t.parse().ok()).collect()
        }
        for line in s.lines() {
            let line = line.trim_end();
            let (w, rest) = line.split_once(' ').unwrap_or((line, ""));
            match w {
                "op" => c.op = rest.trim().to_string(),
                "types" => {
                    let v: Vec<&str> = rest.split_whitespace().collect();
                    c.ity = ITY.iter().position(|a| *a == v[0]).unwrap() as u8;
                    c.tty = TTY.iter().position(|a| *a == v[1]).unwrap() as u8;
                }
                "matrix" => {
                    let parts: Vec<&str> = rest.split('|').collect();
                    let d: Vec<usize> = parts[0].split_whitespace().map(|t| t.parse().unwrap()).collect();
                    c.m.push(M {
                        rows: d[0],
                        cols: d[1],
                        p: ns(parts[1]),
                        j: ns(parts[2]),
                        x: parts[3]
                            .split(',')
                            .map(|t| t.trim())
                            .filter(|t| !t.is_empty())
                            .map(|t| {
                                let (a, b) = t.split_once(':').unwrap();
                                (a.parse().unwrap(), b.parse().unwrap())
                            })
                            .collect(),
                    });
                }
                "scale" => c.scale = rest.trim().parse().unwrap(),
                "list" => c.l.push(ns(rest)),
                "ints" => c.k = ns(rest),
                _ => {}
            }
        }
        c
    }
}

pub const ITY: [&str; 6] = ["usize", "i32", "u32", "i64", "u8", "i8"];
pub const TTY: [&str; 6] = ["f64", "i64", "Complex64", "f32", "i32", "Complex32"];

/// xorshift64*
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            ((self.next() >> 33) as usize) % n
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}
