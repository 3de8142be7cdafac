//! Graph queries against simple oracles.
use crate::base::*;
use crate::case::*;
use sparsetools::graph::*;

fn adj(m: &M) -> Vec<Vec<usize>> {
    (0..m.rows).map(|i| m.j[m.p[i]..m.p[i + 1]].to_vec()).collect()
}
fn undirected(a: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let mut u = a.to_vec();
    for (i, l) in a.iter().enumerate() {
        for &j in l {
            u[j].push(i);
        }
    }
    u
}
fn reach(a: &[Vec<usize>], s: usize) -> Vec<bool> {
    let mut seen = vec![false; a.len()];
    let mut st = vec![s];
    seen[s] = true;
    while let Some(v) = st.pop() {
        for &w in &a[v] {
            if !seen[w] {
                seen[w] = true;
                st.push(w);
            }
        }
    }
    seen
}
fn partition(n: usize, k: usize, labels: &[usize], same: impl Fn(usize, usize) -> bool) -> Res {
    if labels.len() != n {
        return s(format!("{} labels for {} nodes", labels.len(), n));
    }
    let mut used = vec![false; k];
    for &l in labels {
        if l >= k {
            return f(format!("label {} with {} components", l, k));
        }
        used[l] = true;
    }
    want(used.iter().all(|&u| u), "a label below the component count is unused")?;
    for a in 0..n {
        for b in 0..n {
            if (labels[a] == labels[b]) != same(a, b) {
                return f(format!("nodes {} and {} {} the same label", a, b, if labels[a] == labels[b] { "wrongly share" } else { "do not get" }));
            }
        }
    }
    Ok(())
}
fn cc<X, E: std::fmt::Display>(r: Result<X, E>) -> Result<X, Fail> {
    r.or_else(|e| f(format!("a valid graph was rejected: {}", e)))
}
pub fn weak<I: Ix, T: Nm>(m: &M) -> Res {
    let a = csr::<I, T>(m);
    let u = undirected(&adj(m));
    let r: Vec<Vec<bool>> = (0..m.rows).map(|i| reach(&u, i)).collect();
    for (d, c) in [(true, Connection::Weak), (false, Connection::Strong), (false, Connection::Weak)] {
        let (k, l) = cc(connected_components(&a, d, c))?;
        partition(m.rows, k, &l, |x, y| r[x][y])?;
    }
    Ok(())
}
pub fn strong<I: Ix, T: Nm>(m: &M) -> Res {
    let a = csr::<I, T>(m);
    let d = adj(m);
    let r: Vec<Vec<bool>> = (0..m.rows).map(|i| reach(&d, i)).collect();
    let (k, l) = cc(connected_components(&a, true, Connection::Strong))?;
    partition(m.rows, k, &l, |x, y| r[x][y] && r[y][x])
}
pub fn dfs<I: Ix, T: Nm>(m: &M, start: usize, directed: bool) -> Res {
    let a = csr::<I, T>(m);
    let d = adj(m);
    let g = if directed { d } else { undirected(&d) };
    let (nodes, pred) = cc(depth_first_order(&a, start, directed))?;
    if pred.len() != m.rows {
        return s("predecessor list has the wrong length");
    }
    let r = reach(&g, start);
    want(nodes.len() == r.iter().filter(|&&b| b).count(), "not every reachable node is listed exactly once")?;
    want(nodes.first() == Some(&start), "the start node is not first")?;
    let mut seen = vec![false; m.rows];
    let mut stack: Vec<usize> = vec![];
    for &v in &nodes {
        if v >= m.rows || seen[v] || !r[v] {
            return f(format!("node {} is listed twice or is not reachable", v));
        }
        if v != start {
            // backtrack: every node popped must have no unvisited neighbour
            let p = match pred[v] {
                Some(p) => p,
                None => return f(format!("listed node {} has no predecessor", v)),
            };
            while let Some(&t) = stack.last() {
                if t == p {
                    break;
                }
                if let Some(w) = g[t].iter().find(|&&w| !seen[w]) {
                    return f(format!("left node {} although its neighbour {} was unvisited", t, w));
                }
                stack.pop();
            }
            want(stack.last() == Some(&p), &format!("predecessor {} of {} is not on the current path", p, v))?;
            want(g[p].contains(&v), &format!("no edge from predecessor {} to {}", p, v))?;
        }
        seen[v] = true;
        stack.push(v);
    }
    for v in 0..m.rows {
        if (!seen[v] || v == start) && pred[v].is_some() {
            return f(format!("node {} has a predecessor", v));
        }
    }
    Ok(())
}
pub fn symmetric<I: Ix, T: Nm>(m: &M) -> Res {
    let a = csr::<I, T>(m);
    let d = adj(m);
    let r: Vec<Vec<bool>> = (0..m.rows).map(|i| reach(&d, i)).collect();
    macro_rules! go {
        ($f:ty) => {{
            let (k, fl) = cc(a.connected_components::<$f>())?;
            if fl.len() != m.rows {
                return s("wrong number of flags");
            }
            let on: Vec<usize> = (0..m.rows).filter(|&i| !d[i].is_empty()).collect();
            for i in 0..m.rows {
                want((fl[i] < 0) == d[i].is_empty(), &format!("flag of node {} is {} with {} stored entries", i, fl[i], d[i].len()))?;
            }
            let l: Vec<usize> = on.iter().map(|&i| fl[i] as usize).collect();
            partition(on.len(), k.us(), &l, |x, y| r[on[x]][on[y]])?;
        }};
    }
    go!(i64);
    if m.rows < 100 {
        go!(i8);
    }
    Ok(())
}
