//! Reference definitions over adjacency matrices, written without data-dependent branches.
use crate::gb::*;
use graphbench::editdigraph::*;
use graphbench::editgraph::*;
use graphbench::graph::*;

pub type Row = [bool; N];

/// The graph with vertices lab(0)..lab(n-1) and the edges of `a`.
pub fn edit(n: usize, a: &Mat) -> EditGraph {
    let mut g = EditGraph::new();
    for i in 0..n {
        g.add_vertex(&lab(i as u32));
    }
    for i in 0..n {
        for j in i..n {
            if a[i][j] {
                g.add_edge(&lab(i as u32), &lab(j as u32));
            }
        }
    }
    g
}
pub fn editdi(n: usize, a: &Mat) -> EditDigraph {
    let mut g = EditDigraph::new();
    for i in 0..n {
        g.add_vertex(&lab(i as u32));
    }
    for i in 0..n {
        for j in 0..n {
            if a[i][j] {
                g.add_arc(&lab(i as u32), &lab(j as u32));
            }
        }
    }
    g
}
pub fn labs(n: usize) -> Vec<Vertex> {
    let mut v = Vec::with_capacity(N);
    for i in 0..n {
        v.push(lab(i as u32));
    }
    v
}
/// A symbolic subset of 0..n.
pub fn sym_set(n: usize, base: u32) -> Row {
    let mut s = [false; N];
    for i in 0..n {
        s[i] = bool_(base + i as u32);
    }
    s
}
pub fn vset(n: usize, s: &Row) -> VertexSet {
    let mut r = VertexSet::default();
    for i in 0..n {
        if s[i] {
            r.insert(lab(i as u32));
        }
    }
    r
}
/// one more step: out[i][j] = reach[i][j] or some k with reach[i][k], a[k][j], allowed(k,j)
pub fn step(n: usize, reach: &Mat, a: &Mat) -> Mat {
    let mut o = *reach;
    for i in 0..n {
        for j in 0..n {
            let mut x = reach[i][j];
            for k in 0..n {
                x = x | (reach[i][k] & a[k][j]);
            }
            o[i][j] = x;
        }
    }
    o
}
pub fn ident(n: usize) -> Mat {
    let mut o = [[false; N]; N];
    for i in 0..n {
        o[i][i] = true;
    }
    o
}
/// reach within distance r
pub fn within(n: usize, a: &Mat, r: usize) -> Mat {
    let mut o = ident(n);
    let mut t = 0;
    while t < r && t < n {
        o = step(n, &o, a);
        t += 1;
    }
    o
}
pub fn count(n: usize, s: &Row) -> u32 {
    let mut c = 0;
    for i in 0..n {
        c += s[i] as u32;
    }
    c
}
/// `s` as a set equals exactly the labels with m[i].
pub fn same_set(n: usize, s: &VertexSet, m: &Row) -> bool {
    let mut ok = s.len() as u32 == count(n, m);
    for i in 0..n {
        ok = ok & (s.contains(&lab(i as u32)) == m[i]);
    }
    ok
}
/// Position of a label in 0..n, or n.
pub fn pos(n: usize, v: &Vertex) -> usize {
    for i in 0..n {
        if lab(i as u32) == *v {
            return i;
        }
    }
    n
}
pub fn has(l: &[Vertex], v: u32) -> bool {
    let mut r = false;
    for x in l {
        r = r | (*x == v);
    }
    r
}
