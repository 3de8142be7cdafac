//! vh check --props C01,.. --n N [--ops a,b] [--seed S] [--safety] [--exh4] [--out FILE] [--trace FILE] [--secs S]
//! vh replay FILE
mod base;
mod case;
mod gen;
mod graphs;
mod ops;
mod text;
use base::*;
use case::*;
use gen::*;
use num_complex::Complex64;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const COMBOS: [(u8, u8); 8] = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 1), (5, 0), (0, 4), (0, 5)];

/// operations whose results scale with the values
const SCALED: &[&str] = &["kernel_binop", "kernel_binop_ord", "kernel_binop_parts", "csr_to_csc", "csc_to_csr", "kernel_csr_tocsc", "kernel_csc_tocsr", "coo_to_csr", "coo_to_csc", "kernel_coo_tocsr", "coo_push", "csr_to_coo", "csc_to_coo", "kernel_csr_tocoo", "csr_transpose", "csc_transpose", "coo_transpose", "csr_from_dense", "csc_from_dense", "coo_from_dense", "dok_from_dense", "coo_to_dense", "csc_to_dense", "kernel_csr_todense", "kernel_coo_todense", "csr_get", "csr_addsub", "csc_addsub", "csc_addsub_methods", "coo_add", "csr_sort", "csc_sort", "csr_sumdup", "csc_sumdup", "kernel_sumdup", "kernel_elimzeros", "csc_prune", "csr_select", "csc_select", "kernel_submatrix", "kernel_row_index", "kernel_row_slice", "kernel_column_index", "csr_diagonal", "csc_diagonal", "coo_diagonal", "kernel_csr_diagonal", "kernel_csc_diagonal", "coo_upper", "csr_neg", "csc_neg", "coo_neg", "csr_complex", "csc_complex", "coo_complex", "coo_hstack", "coo_vstack", "coo_hstack3", "coo_vstack3", "csr_hstack", "coo_compose", "coo_compose3", "csc_compose", "dok_ops", "csr_to_string", "csc_to_string", "coo_to_string", "dok_to_string"];
/// operations whose results scale with the square of the values
const SCALED2: &[&str] = &["csr_matvec", "csc_matvec", "csr_matmat", "csc_matmat", "csc_csr_matmat", "csr_scale", "csc_scale", "csr_lscale", "csc_lscale"];

fn run(c: &Case) -> Res {
    set_scale(c.scale, c.scale * if SCALED2.contains(&c.op.as_str()) { 2 } else { 1 });
    let sum = |m: &M| m.rows + 3 * m.cols + 5 * m.j.iter().sum::<usize>() + m.x.len();
    let vast = c.m.iter().any(|m| m.rows > 1 << 15 || m.cols > 1 << 15);
    set_age(if vast { 0 } else { c.m.iter().map(sum).sum::<usize>() % 9 % 7 });
    let tys = ops::OPS.iter().find(|o| o.name == c.op).map(|o| o.tys).unwrap_or(0);
    macro_rules! go {
        ($i:ty) => {
            match tys {
                2 => ops::run_div::<$i>(c),
                3 => ops::run_complex::<$i, f64>(c),
                1 => match c.tty {
                    0 => ops::run_ord::<$i, f64>(c),
                    1 => ops::run_ord::<$i, i64>(c),
                    _ => ops::run_ord::<$i, f32>(c),
                },
                _ => match c.tty {
                    0 => ops::run::<$i, f64>(c),
                    1 => ops::run::<$i, i64>(c),
                    2 => ops::run::<$i, Complex64>(c),
                    _ => ops::run::<$i, f32>(c),
                },
            }
        };
    }
    if tys == 6 {
        return ops::scalars(c);
    }
    match (tys, c.tty) {
        (3, 5) => return ops::run_complex::<usize, f32>(c),
        (1, 4) => return ops::run_ord::<usize, i32>(c),
        (0, 4) => return ops::run::<usize, i32>(c),
        (0, 5) => return ops::run::<usize, num_complex::Complex<f32>>(c),
        _ => {}
    }
    match c.ity {
        0 => go!(usize),
        1 => go!(i32),
        2 => go!(u32),
        3 => go!(i64),
        4 => go!(u8),
        _ => go!(i8),
    }
}
thread_local! { static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn guarded(c: &Case) -> Res {
    match catch_unwind(AssertUnwindSafe(|| run(c))) {
        Ok(r) => r,
        Err(_) => s(format!("panic: {}", MSG.with(|m| m.borrow().clone()))),
    }
}
/// operations whose cost does not depend on the extent of the second index: it may be astronomically large
const VAST: &[&str] = &["coo_to_csr", "kernel_coo_tocsr", "coo_push", "csr_to_coo", "csc_to_coo", "kernel_csr_tocoo", "csr_transpose", "csc_transpose", "coo_transpose", "coo_add", "csr_sort", "csc_sort", "csr_sumdup", "csc_sumdup", "kernel_sumdup", "kernel_elimzeros", "csr_predicates", "csc_predicates", "kernel_count_diagonals", "kernel_row_index", "kernel_row_slice", "csr_diagonal", "csc_diagonal", "coo_diagonal", "csr_neg", "csc_neg", "coo_neg", "coo_hstack", "coo_vstack", "coo_hstack3", "coo_vstack3", "csr_to_string", "csc_to_string", "coo_to_string"];
fn vast(c: &mut Case) {
    let shift = match c.ity {
        0 | 3 => [16, 31, 32, 33, 40, 48][(c.m[0].j.len() + c.m[0].rows) % 6],
        _ => [8, 15, 16, 20][(c.m[0].j.len() + c.m[0].rows) % 4],
    };
    for m in c.m.iter_mut() {
        let by_col = c.op.starts_with("csc");
        let n = if by_col { &mut m.rows } else { &mut m.cols };
        if *n > 600 {
            return;
        }
        *n <<= shift;
        for j in m.j.iter_mut() {
            // equal indices stay equal, the order is kept
            *j = (*j << shift) + *j % 3;
        }
    }
}
fn small_graph(mut idx: usize, max_n: usize) -> Option<M> {
    for n in 0..=max_n {
        let cnt = 1usize << (n * n);
        if idx < cnt {
            let mut m = M { rows: n, cols: n, p: vec![0], ..M::default() };
            for i in 0..n {
                for j in 0..n {
                    if idx >> (i * n + j) & 1 == 1 {
                        m.j.push(j);
                        m.x.push((1, 0));
                    }
                }
                m.p.push(m.j.len());
            }
            return Some(m);
        }
        idx -= cnt;
    }
    None
}
fn make(op: &ops::Op, seed: u64, idx: usize, n: usize, exh: usize) -> Option<Case> {
    let h = op.name.bytes().fold(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xABCDEF, |a, b| (a ^ b as u64).wrapping_mul(0x100000001B3));
    let mut r = Rng((h ^ (idx as u64 + 1).wrapping_mul(0xD1342543DE82EF95)) | 1);
    for _ in 0..4 {
        r.next();
    }
    let (ity, tty) = match op.tys {
        2 => (COMBOS[r.below(6)].0, 0),
        3 if op.name.ends_with("lscale") || r.chance(3, 4) => (COMBOS[r.below(6)].0, 2),
        3 => (0, 5),
        4 => (COMBOS[r.below(6)].0, 0),
        1 => {
            let c = COMBOS[r.below(7)];
            (c.0, if c.1 == 2 { 0 } else { c.1 })
        }
        5 | 6 => COMBOS[r.below(6)],
        _ => COMBOS[r.below(8)],
    };
    let frac = idx * 100 / n.max(1);
    // small inputs first, then a mixture
    let size = if frac < 8 { 0 } else if frac < 30 { 1 } else { [2, 2, 2, 2, 3, 3, 3, 3, 4, 4][r.below(10)] };
    let size = if frac >= 30 && r.chance(1, 80) { 5 } else { size };
    let mut c = Case { op: op.name.to_string(), ity, tty, ..Case::default() };
    if op.tys == 4 {
        // exhaustive small graphs first
        if let Some(m) = small_graph(idx, exh) {
            if op.name == "symmetric_components" && !(0..m.rows).all(|i| (0..m.rows).all(|j| {
                let has = |a: usize, b: usize| m.j[m.p[a]..m.p[a + 1]].contains(&b);
                has(i, j) == has(j, i)
            })) {
                return None;
            }
            if op.name == "depth_first" {
                if m.rows == 0 {
                    return None;
                }
                c.k = vec![(idx % m.rows) as i64, (idx / 7 % 2) as i64];
            }
            c.m.push(m);
            return Some(c);
        }
    }
    let mut g = G { r: &mut r, ity, size, area: 60000, big: tty < 3 && !op.name.ends_with("table") };
    (op.gen)(&mut g, &mut c);
    if (c.tty == 0 || c.tty == 2) && (SCALED.contains(&op.name) || SCALED2.contains(&op.name)) && h.wrapping_add(idx as u64) % 5 == 0 {
        c.scale = [-60, -1, 130, -300][idx / 5 % 4];
    }
    if VAST.contains(&op.name) && size < 5 && ity < 4 && h.wrapping_add(idx as u64) % 16 == 3 {
        vast(&mut c);
    }
    Some(c)
}
/// processor time of a thread in ms (0 where the system does not tell)
fn cpu(stat: &str) -> u64 {
    let t = std::fs::read_to_string(stat).unwrap_or_default();
    let f: Vec<u64> = t.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
    if f.len() > 12 { (f[11] + f[12]) * 10 } else { 0 }
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        MSG.with(|x| *x.borrow_mut() = format!("{} at {}", m.lines().next().unwrap_or(""), loc));
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let has = |k: &str| a.iter().any(|x| x == k);
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let body = t.split("---- case ----").nth(1).unwrap_or(&t).to_string();
            let c = Case::parse(&body);
            match guarded(&c) {
                Ok(()) => println!("PASS {}", c.op),
                Err(Fail::Safety(m)) => {
                    println!("FAIL safety {}: {}", c.op, m);
                    std::process::exit(1)
                }
                Err(Fail::Func(m)) => {
                    println!("FAIL func {}: {}", c.op, m);
                    std::process::exit(1)
                }
            }
        }
        Some("list") => {
            for o in ops::OPS {
                println!("{} {}", o.name, o.props.join(","));
            }
        }
        Some("check") => {
            let props: Vec<String> = opt("--props").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
            let only: Option<Vec<String>> = opt("--ops").map(|s| s.split(',').map(|s| s.to_string()).collect());
            let n: usize = opt("--n").map(|s| s.parse().unwrap()).unwrap_or(2000);
            let seed: u64 = opt("--seed").map(|s| s.parse().unwrap_or(1)).unwrap_or(1);
            let exh: usize = if has("--exh4") { 4 } else { 3 };
            let safety = has("--safety");
            let all = has("--all");
            let trace = opt("--trace");
            let hang = Duration::from_secs(opt("--hang").map(|s| s.parse().unwrap()).unwrap_or(20));
            let sel: Vec<&ops::Op> = ops::OPS
                .iter()
                .filter(|o| o.props.iter().any(|p| props.iter().any(|q| q == p)))
                .filter(|o| only.as_ref().map(|l| l.iter().any(|x| x == o.name)).unwrap_or(true))
                .collect();
            let extra = if exh == 4 { 70000 } else { 600 };
            let begun = Instant::now();
            let secs = Duration::from_secs(opt("--secs").map(|s| s.parse().unwrap()).unwrap_or(100000));
            let work: Vec<(usize, usize)> = {
                // interleave so that early (small) cases of every op run first
                let mut w = vec![];
                let tot: Vec<usize> = sel.iter().map(|o| if o.tys == 4 { n + extra } else { n }).collect();
                let mx = tot.iter().copied().max().unwrap_or(0);
                let step = 50;
                let mut b = 0;
                while b < mx {
                    for (k, &t) in tot.iter().enumerate() {
                        if b < t {
                            w.push((k, b));
                        }
                    }
                    b += step;
                }
                w
            };
            let next = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            let done: Vec<AtomicU64> = sel.iter().map(|_| AtomicU64::new(0)).collect();
            let fails: Mutex<Vec<(String, String, Case)>> = Mutex::new(vec![]);
            let threads = if trace.is_some() { 1 } else { opt("--threads").map(|s| s.parse().unwrap()).unwrap_or(8) };
            let cur: Vec<Mutex<Option<(Instant, Case)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
            let tasks: Vec<Mutex<String>> = (0..threads).map(|_| Mutex::new(String::new())).collect();
            let outf = opt("--out");
            let emit = |fs: &[(String, String, Case)]| {
                if let (Some(o), Some((k, m, c))) = (&outf, fs.first()) {
                    std::fs::write(o, format!("kind {}\nmessage {}\n---- case ----\n{}", k, m, c.show())).unwrap();
                }
                for (k, m, c) in fs {
                    println!("FAIL {} {} {}", k, c.op, m);
                }
            };
            let finished = AtomicUsize::new(0);
            std::thread::scope(|sc| {
                for t in 0..threads {
                    let (next, stop, done, fails, cur, sel, work, trace, finished, tasks) =
                        (&next, &stop, &done, &fails, &cur, &sel, &work, &trace, &finished, &tasks);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        if let Ok(p) = std::fs::read_link("/proc/thread-self") {
                            *tasks[t].lock().unwrap() = format!("/proc/{}/stat", p.display());
                        }
                        while !stop.load(Ordering::Relaxed) {
                            let w = next.fetch_add(1, Ordering::Relaxed);
                            if w >= work.len() {
                                break;
                            }
                            let (k, b) = work[w];
                            let op = sel[k];
                            let tot = if op.tys == 4 { n + extra } else { n };
                            for idx in b..(b + 50).min(tot) {
                                if begun.elapsed() > secs {
                                    stop.store(true, Ordering::Relaxed);
                                }
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let c = match make(op, seed, idx, tot, exh) {
                                    Some(c) => c,
                                    None => continue,
                                };
                                if let Some(tf) = trace {
                                    std::fs::write(tf, c.show()).unwrap();
                                }
                                *cur[t].lock().unwrap() = Some((Instant::now(), c.clone()));
                                let r = guarded(&c);
                                *cur[t].lock().unwrap() = None;
                                done[k].fetch_add(1, Ordering::Relaxed);
                                let (kind, m) = match r {
                                    Ok(()) => continue,
                                    Err(Fail::Safety(m)) => ("safety", m),
                                    Err(Fail::Func(m)) => ("func", m),
                                };
                                if safety && kind == "func" {
                                    continue;
                                }
                                let mut f = fails.lock().unwrap();
                                if all {
                                    if !f.iter().any(|(_, _, d)| d.op == c.op) {
                                        f.push((kind.into(), m, c));
                                    }
                                } else {
                                    f.push((kind.into(), m, c));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        finished.fetch_add(1, Ordering::SeqCst);
                    }).unwrap();
                }
                // watchdog: a case hangs when it has used that much processor time (waiting for a processor does not count)
                let mut seen: Vec<Option<(Instant, u64)>> = vec![None; threads];
                loop {
                    std::thread::sleep(Duration::from_millis(50));
                    if finished.load(Ordering::SeqCst) == threads {
                        break;
                    }
                    for (i, q) in cur.iter().enumerate() {
                        let g = q.lock().unwrap();
                        if let Some((t, c)) = &*g {
                            if seen[i].map(|s| s.0) != Some(*t) {
                                if t.elapsed() > Duration::from_millis(500) {
                                    seen[i] = Some((*t, cpu(&tasks[i].lock().unwrap())));
                                }
                                continue;
                            }
                            let used = cpu(&tasks[i].lock().unwrap()).saturating_sub(seen[i].unwrap().1);
                            if t.elapsed() > hang && (used * 10 > hang.as_millis() as u64 * 9 || t.elapsed() > hang * 20) {
                                emit(&[("safety".into(), format!("no result after {} s", hang.as_secs()), c.clone())]);
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            let mut per: BTreeMap<&str, u64> = BTreeMap::new();
            for (k, o) in sel.iter().enumerate() {
                per.insert(o.name, done[k].load(Ordering::Relaxed));
            }
            println!("CASES {}", per.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "));
            let mut f = fails.into_inner().unwrap();
            f.sort_by_key(|x| x.2.show().len());
            emit(&f);
            if !f.is_empty() {
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: vh check|replay|list");
            std::process::exit(2)
        }
    }
}
