//! G01: undirected graph under edit histories.
use crate::gb::*;
use crate::util::*;
use graphbench::editgraph::*;
use graphbench::graph::*;

pub struct St {
    pub n: usize,
    pub p: Row,
    pub a: Mat,
}
/// Number of edges (loops count once).
pub fn edges(s: &St) -> u32 {
    let mut m = 0;
    for i in 0..s.n {
        for j in i..s.n {
            m += s.a[i][j] as u32;
        }
    }
    m
}
/// A loop counts twice.
pub fn deg(s: &St, i: usize) -> u32 {
    let mut d = s.a[i][i] as u32;
    for j in 0..s.n {
        d += s.a[i][j] as u32;
    }
    d
}
/// Every query agrees with the reference.
pub fn agree(g: &EditGraph, s: &St, id: u32) {
    let n = s.n;
    let nv = count(n, &s.p);
    check(g.num_vertices() as u32 == nv, id);
    check(g.len() as u32 == nv, id);
    check(g.is_empty() == (nv == 0), id);
    check(g.num_edges() as u32 == edges(s), id + 1);
    let degs = g.degrees();
    check(degs.len() as u32 == nv, id + 3);
    let mut seen = [0u32; N];
    let mut tot = 0;
    for v in g.vertices() {
        tot += 1;
        for i in 0..n {
            seen[i] += (*v == lab(i as u32)) as u32;
        }
    }
    check(tot == nv, id + 5);
    for i in 0..n {
        let li = lab(i as u32);
        check(g.contains(&li) == s.p[i], id);
        check(seen[i] == s.p[i] as u32, id + 5);
        let d = deg(s, i);
        check(g.degree(&li) == d, id + 3);
        check(degs.get(&li).copied().unwrap_or(99) == if s.p[i] { d } else { 99 }, id + 3);
        for j in 0..n {
            check(g.adjacent(&li, &lab(j as u32)) == s.a[i][j], id + 2);
        }
        if s.p[i] {
            let mut c = [0u32; N];
            let mut tot = 0;
            for v in g.neighbours(&li) {
                tot += 1;
                for j in 0..n {
                    c[j] += (*v == lab(j as u32)) as u32;
                }
            }
            check(tot == count(n, &s.a[i]), id + 4);
            for j in 0..n {
                check(c[j] == s.a[i][j] as u32, id + 4);
            }
        }
    }
}
/// Symbolic graph with symbolic vertex set and loops; edges only between present vertices.
pub fn sym_state(n: usize, base: u32) -> St {
    let mut s = St { n, p: [false; N], a: [[false; N]; N] };
    let mut id = base;
    for i in 0..n {
        s.p[i] = param(97) != 0 || bool_(id);
        id += 1;
    }
    for i in 0..n {
        for j in i..n {
            let b = pair(n, i, j, id) & s.p[i] & s.p[j];
            id += 1;
            s.a[i][j] = b;
            s.a[j][i] = b;
        }
    }
    s
}
pub fn build(s: &St) -> EditGraph {
    let mut g = EditGraph::with_capacity(s.n);
    for i in 0..s.n {
        if s.p[i] {
            g.add_vertex(&lab(i as u32));
        }
    }
    for i in 0..s.n {
        for j in i..s.n {
            if s.a[i][j] {
                g.add_edge(&lab(j as u32), &lab(i as u32));
            }
        }
    }
    g
}
fn m_add(s: &mut St, u: usize, v: usize) -> bool {
    let r = !s.a[u][v];
    s.p[u] = true;
    s.p[v] = true;
    s.a[u][v] = true;
    s.a[v][u] = true;
    r
}
fn m_rem_vertex(s: &mut St, u: usize) -> bool {
    let r = s.p[u];
    s.p[u] = false;
    for j in 0..s.n {
        s.a[u][j] = false;
        s.a[j][u] = false;
    }
    r
}
/// Number of different single edits on n vertices.
pub fn nops(n: u32) -> u32 {
    2 * n + 2 * n * n + 2
}
/// Applies edit `sel` to graph and reference; true if something changed according to the reference.
pub fn apply(g: &mut EditGraph, s: &mut St, sel: u32, id: u32) -> bool {
    let n = s.n;
    let mut k = 0;
    let mut ch = false;
    for u in 0..n {
        if sel == k {
            let r = !s.p[u];
            s.p[u] = true;
            check(g.add_vertex(&lab(u as u32)) == r, id);
            ch = r;
        }
        if sel == k + 1 {
            let r = m_rem_vertex(s, u);
            check(g.remove_vertex(&lab(u as u32)) == r, id + 1);
            ch = r;
        }
        k += 2;
    }
    for u in 0..n {
        for v in 0..n {
            if sel == k {
                let before = s.p[u] & s.p[v];
                let r = m_add(s, u, v);
                check(g.add_edge(&lab(u as u32), &lab(v as u32)) == r, id + 2);
                ch = r | !before;
            }
            if sel == k + 1 {
                let r = s.a[u][v];
                s.a[u][v] = false;
                s.a[v][u] = false;
                check(g.remove_edge(&lab(u as u32), &lab(v as u32)) == r, id + 3);
                ch = r;
            }
            k += 2;
        }
    }
    if sel == k {
        let mut c = 0;
        for i in 0..n {
            c += s.a[i][i] as usize;
            s.a[i][i] = false;
        }
        check(g.remove_loops() == c, id + 4);
        ch = c > 0;
    }
    if sel == k + 1 {
        let mut c = 0;
        for i in 0..n {
            let iso = s.p[i] & (deg(s, i) == 0);
            c += iso as usize;
            s.p[i] = s.p[i] & !iso;
        }
        check(g.remove_isolates() == c, id + 5);
        ch = c > 0;
    }
    ch
}
/// Any graph, then p1 arbitrary edits; everything is checked after each.
#[no_mangle]
pub fn h_edit() {
    let n = param(0);
    let k = param(1);
    order(n);
    let mut s = sym_state(n as usize, 0);
    let mut g = build(&s);
    agree(&g, &s, 10);
    for t in 0..k {
        let sel = choice(t, nops(n));
        let ch = apply(&mut g, &mut s, sel, 20);
        cover(ch, 1);
        cover(!ch, 2);
        if t + 1 == k {
            agree(&g, &s, 30);
            let h = build(&s);
            check(g == h, 40);
            check(h == g, 40);
            agree(&h, &s, 50);
        }
    }
}
/// Clone: equal, independent; equality notices every change.
#[no_mangle]
pub fn h_edit_clone() {
    let n = param(0);
    order(n);
    let mut s = sym_state(n as usize, 0);
    let g = build(&s);
    let mut h = g.clone();
    check(g == h, 1);
    let s0 = St { n: s.n, p: s.p, a: s.a };
    agree(&h, &s, 10);
    let sel = choice(0, nops(n));
    let ch = apply(&mut h, &mut s, sel, 20);
    agree(&g, &s0, 30);
    agree(&h, &s, 40);
    check((g == h) == !ch, 2);
    check((h == g) == !ch, 3);
    check((g != h) == ch, 4);
    cover(ch, 1);
    cover(!ch, 2);
}
/// Equality of two arbitrary graphs.
#[no_mangle]
pub fn h_edit_eq() {
    let n = param(0);
    order(n);
    let s = sym_state(n as usize, 0);
    let t = sym_state(n as usize, 100);
    let g = build(&s);
    let h = build(&t);
    let mut same = true;
    for i in 0..n as usize {
        same = same & (s.p[i] == t.p[i]);
        for j in 0..n as usize {
            same = same & (s.a[i][j] == t.a[i][j]);
        }
    }
    check((g == h) == same, 1);
    cover(same, 1);
    cover(!same, 2);
}
/// Bulk edits: sequences with repetitions, collected from an iterator.
#[no_mangle]
pub fn h_edit_bulk() {
    let n = param(0);
    let k = param(1);
    order(n);
    let mut s = sym_state(n as usize, 0);
    let mut g = build(&s);
    let mut vs = Vec::with_capacity(4);
    let mut es = Vec::with_capacity(4);
    let mut cv = 0;
    for t in 0..k {
        let u = choice(t, n);
        let b = bool_(200 + t);
        for i in 0..n as usize {
            if b & (u == i as u32) {
                vs.push(lab(i as u32));
                cv += !s.p[i] as u32;
                s.p[i] = true;
            }
        }
    }
    check(g.add_vertices(vs.iter()) == cv, 1);
    agree(&g, &s, 10);
    let mut ce = 0;
    for t in 0..k {
        let e = choice(50 + t, n * n);
        let mut x = 0;
        for i in 0..n as usize {
            for j in 0..n as usize {
                if e == x {
                    es.push((lab(i as u32), lab(j as u32)));
                    ce += m_add(&mut s, i, j) as u32;
                }
                x += 1;
            }
        }
    }
    check(g.add_edges(es.iter()) == ce, 2);
    agree(&g, &s, 20);
    // from an iterator of edges: exactly these edges and their endpoints
    let mut f = St { n: n as usize, p: [false; N], a: [[false; N]; N] };
    for t in 0..k {
        let e = choice(50 + t, n * n);
        let mut x = 0;
        for i in 0..n as usize {
            for j in 0..n as usize {
                if e == x {
                    m_add(&mut f, i, j);
                }
                x += 1;
            }
        }
    }
    let h: EditGraph = es.into_iter().collect();
    agree(&h, &f, 30);
    cover(ce > 1, 1);
}
