//! G17: ordered-graph reachability. Position = index in 0..n.

use crate::gb::*;
use crate::util::*;
use graphbench::algorithms::*;
use graphbench::degengraph::*;
use graphbench::graph::*;
use graphbench::ordgraph::*;

/// Distances from i inside the vertices >= i: out[t][i][j] = "reachable in at most t steps".
pub fn right_within(n: usize, a: &Mat, rmax: usize) -> [Mat; N] {
    let mut out = [[[false; N]; N]; N];
    out[0] = ident(n);
    for t in 1..=rmax {
        for i in 0..n {
            for j in i..n {
                let mut x = out[t - 1][i][j];
                for k in i..n {
                    x = x | (out[t - 1][i][k] & a[k][j]);
                }
                out[t][i][j] = x;
            }
        }
    }
    out
}

fn setup_degen() -> (usize, usize, Mat, DegenGraph) {
    let n = param(0) as usize;
    let r = param(1) as usize;
    order(n as u32);
    let a = sym_graph(n as u32, 0);
    let g = edit(n, &a);
    let og = DegenGraph::with_ordering(&g, labs(n).iter());
    (n, r, a, og)
}
fn setup() -> (usize, usize, Mat, OrdGraph) {
    let n = param(0) as usize;
    let r = param(1) as usize;
    order(n as u32);
    let a = sym_graph(n as u32, 0);
    let g = edit(n, &a);
    let og = OrdGraph::with_ordering(&g, labs(n).iter());
    (n, r, a, og)
}

#[no_mangle]
pub fn h_wreach() {
    let (n, r, a, og) = setup();
    wreach(n, r, a, &og);
}
/// The same on the other ordered representation.
#[no_mangle]
pub fn h_wreach_degen() {
    let (n, r, a, og) = setup_degen();
    wreach(n, r, a, &og);
}
fn wreach<L: LinearGraph>(n: usize, r: usize, a: Mat, og: &L) {
    let w = og.wreach_sets(r as u32);
    let sz = og.wreach_sizes(r as u32);
    let d = right_within(n, &a, r);
    check(w.len() == n, 1);
    check(sz.len() == n, 2);
    for j in 0..n {
        let s = w.get(&lab(j as u32)).unwrap();
        let mut members = 0;
        for i in 0..n {
            let v = s.get(&lab(i as u32)).copied().unwrap_or(0);
            let m = (i < j) & d[r][i][j];
            check(s.contains_key(&lab(i as u32)) == m, 3);
            members += m as u32;
            for t in 1..=r {
                check((v == t as u32) == (m & d[t][i][j] & !d[t - 1][i][j]), 4);
            }
            cover(m & (v as usize == r), 1);
        }
        check(s.len() as u32 == members, 5);
        check(sz.get(&lab(j as u32)) == Some(&members), 6);
    }
}

#[no_mangle]
pub fn h_sreach() {
    let (n, r, a, og) = setup();
    sreach(n, r, a, &og);
}
/// The same on the other ordered representation.
#[no_mangle]
pub fn h_sreach_degen() {
    let (n, r, a, og) = setup_degen();
    sreach(n, r, a, &og);
}
fn sreach<L: LinearGraph>(n: usize, r: usize, a: Mat, og: &L) {
    let w = og.sreach_sets(r as u32);
    let sz = og.sreach_sizes(r as u32);
    let d = right_within(n, &a, r);
    check(w.len() == n, 1);
    check(sz.len() == n, 2);
    for j in 0..n {
        let s = w.get(&lab(j as u32)).unwrap();
        let single = og.sreach_set(&lab(j as u32), r as u32);
        let mut members = 0;
        for i in 0..n {
            let v = s.get(&lab(i as u32)).copied().unwrap_or(0);
            let v1 = single.get(&lab(i as u32)).copied().unwrap_or(0);
            // within t steps: t-1 steps right of j, then one step to i
            let mut le = [false; N + 1];
            if i < j {
                for t in 1..=r {
                    let mut x = false;
                    for k in j..n {
                        x = x | (d[t - 1][j][k] & a[k][i]);
                    }
                    le[t] = x;
                }
            }
            check(s.contains_key(&lab(i as u32)) == le[r], 3);
            check(single.contains_key(&lab(i as u32)) == le[r], 7);
            members += le[r] as u32;
            for t in 1..=r {
                check((v == t as u32) == (le[t] & !le[t - 1]), 4);
                check((v1 == t as u32) == (le[t] & !le[t - 1]), 8);
            }
            cover(le[r] & (v as usize == r), 1);
        }
        check(s.len() as u32 == members, 5);
        check(single.len() as u32 == members, 9);
        check(sz.get(&lab(j as u32)) == Some(&members), 6);
    }
}

#[no_mangle]
pub fn h_right_bfs() {
    let (n, r, a, og) = setup();
    right_bfs(n, r, a, &og);
}
/// The same on the other ordered representation.
#[no_mangle]
pub fn h_right_bfs_degen() {
    let (n, r, a, og) = setup_degen();
    right_bfs(n, r, a, &og);
}
fn right_bfs<L: LinearGraph>(n: usize, r: usize, a: Mat, og: &L) {
    let d = right_within(n, &a, r);
    for i in 0..n {
        let l = og.right_bfs(&lab(i as u32), r as u32);
        check(l.len() == r + 1, 1);
        for t in 0..=r {
            let mut m = [false; N];
            for j in 0..n {
                m[j] = d[t][i][j];
                if t > 0 {
                    m[j] = m[j] & !d[t - 1][i][j];
                }
            }
            check(same_set(n, &l[t], &m), 2);
            cover(l[t].len() > 1, 1);
        }
    }
}
