//! G03: named generators. The size arguments are symbolic up to the stated maximum.
use crate::gb::*;
use graphbench::editdigraph::*;
use graphbench::editgraph::*;
use graphbench::graph::*;

const M: usize = 40;
type Big = [[bool; M]; M];
fn und(g: &EditGraph, n: usize, a: &Big, id: u32) {
    let mut m = 0;
    check(g.num_vertices() == n, id);
    for i in 0..M {
        check(g.contains(&(i as u32)) == (i < n), id + 1);
        for j in 0..M {
            let e = a[i][j] | a[j][i];
            check(g.adjacent(&(i as u32), &(j as u32)) == e, id + 2);
            m += ((j >= i) & e) as usize;
        }
    }
    check(g.num_edges() == m, id + 3);
    cover(n > 2, 1);
}
fn dir(g: &EditDigraph, n: usize, a: &Big, id: u32) {
    let mut m = 0;
    check(g.num_vertices() == n, id);
    for i in 0..M {
        check(g.contains(&(i as u32)) == (i < n), id + 1);
        for j in 0..M {
            check(g.has_arc(&(i as u32), &(j as u32)) == a[i][j], id + 2);
            m += a[i][j] as usize;
        }
    }
    check(g.num_edges() == m, id + 3);
    cover(n > 2, 1);
}
/// A symbolic size as a case split: the callee sees a constant on each path.
fn size(id: u32, max: u32) -> usize {
    let c = choice(id, max + 1);
    let mut r = 0;
    for i in 0..=max {
        if c == i {
            r = i;
        }
    }
    r as usize
}
fn none() -> Big {
    [[false; M]; M]
}
fn path(n: usize) -> Big {
    let mut a = none();
    for i in 1..M {
        if i < n {
            a[i - 1][i] = true;
        }
    }
    a
}
fn bic(s: usize, t: usize) -> Big {
    let mut a = none();
    for i in 0..M {
        for j in 0..M {
            a[i][j] = (i < s) & (j >= s) & (j < s + t);
        }
    }
    a
}
fn clique(n: usize) -> Big {
    let mut a = none();
    for i in 0..M {
        for j in i + 1..M {
            a[i][j] = j < n;
        }
    }
    a
}
fn cycle(n: usize) -> Big {
    let mut a = path(n);
    for i in 0..M {
        if i + 1 == n {
            a[i][0] = true;
        }
    }
    a
}
fn matching(n: usize) -> Big {
    let mut a = none();
    for i in 0..M {
        for j in 0..M {
            a[i][j] = (i < n) & (j == i + n);
        }
    }
    a
}
fn grid(s: usize, t: usize) -> Big {
    let mut a = none();
    for i in 0..M {
        for j in 0..M {
            if t > 0 && i < s * t && j < s * t {
                let (y, x) = (i / t, i % t);
                let (v, u) = (j / t, j % t);
                a[i][j] = ((y == v) & (u == x + 1)) | ((x == u) & (v == y + 1));
            }
        }
    }
    a
}
#[no_mangle]
pub fn h_gen_path() {
    let n = size(0, 6 + param(0));
    und(&EditGraph::path(n as u32), n, &path(n), 10);
    dir(&EditDigraph::path(n as u32), n, &path(n), 20);
}
#[no_mangle]
pub fn h_gen_cycle() {
    let n = size(0, 6 + param(0));
    und(&EditGraph::cycle(n as u32), n, &cycle(n), 10);
    dir(&EditDigraph::cycle(n as u32), n, &cycle(n), 20);
}
#[no_mangle]
pub fn h_gen_matching() {
    let n = size(0, 5 + param(0));
    und(&EditGraph::matching(n as u32), 2 * n, &matching(n), 10);
    dir(&EditDigraph::matching(n as u32), 2 * n, &matching(n), 20);
}
#[no_mangle]
pub fn h_gen_star() {
    let n = size(0, 6 + param(0));
    und(&EditGraph::star(n as u32), n + 1, &bic(1, n), 10);
    dir(&EditDigraph::star(n as u32), n + 1, &bic(1, n), 20);
}
#[no_mangle]
pub fn h_gen_clique() {
    let n = size(0, 6 + param(0));
    und(&EditGraph::clique(n as u32), n, &clique(n), 10);
    dir(&EditDigraph::clique(n as u32), n, &clique(n), 20);
    und(&EditGraph::independent(n as u32), n, &none(), 30);
    dir(&EditDigraph::independent(n as u32), n, &none(), 40);
}
#[no_mangle]
pub fn h_gen_biclique() {
    let s = size(0, 4 + param(0));
    let t = size(1, 4 + param(0));
    und(&EditGraph::biclique(s as u32, t as u32), s + t, &bic(s, t), 10);
    dir(&EditDigraph::biclique(s as u32, t as u32), s + t, &bic(s, t), 20);
}
#[no_mangle]
pub fn h_gen_grid() {
    let s = size(0, 3 + param(0));
    let t = size(1, 4 + param(1));
    und(&EditGraph::grid(s as u32, t as u32), s * t, &grid(s, t), 10);
    dir(&EditDigraph::grid(s as u32, t as u32), s * t, &grid(s, t), 20);
}
/// Up to p0 parts (at most 6) of up to p1 vertices each, at most 40 vertices in total.
#[no_mangle]
pub fn h_gen_kpartite() {
    let (maxk, maxs) = (param(0), param(1));
    let k = size(9, maxk);
    let mut sz = Vec::with_capacity(6);
    let mut part = [9usize; M];
    let mut n = 0;
    for p in 0..maxk as usize {
        let x = size(p as u32, maxs);
        if p < k {
            sz.push(x as u32);
            for i in 0..M {
                if i >= n && i < n + x {
                    part[i] = p;
                }
            }
            n += x;
        }
    }
    let mut a = none();
    for i in 0..M {
        for j in 0..M {
            a[i][j] = (i < n) & (j < n) & (part[i] != part[j]);
        }
    }
    und(&EditGraph::complete_kpartite(sz.iter()), n, &a, 10);
}
