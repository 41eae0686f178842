//! G02: directed graph under edit histories.
use crate::gb::*;
use crate::util::*;
use graphbench::editdigraph::*;
use graphbench::graph::*;

pub struct DSt {
    pub n: usize,
    pub p: Row,
    /// a[i][j]: arc i -> j
    pub a: Mat,
}
pub fn col(s: &DSt, j: usize) -> Row {
    let mut r = [false; N];
    for i in 0..s.n {
        r[i] = s.a[i][j];
    }
    r
}
pub fn arcs(s: &DSt) -> u32 {
    let mut m = 0;
    for i in 0..s.n {
        m += count(s.n, &s.a[i]);
    }
    m
}
fn tally<'a>(n: usize, it: impl Iterator<Item = &'a Vertex>) -> ([u32; N], u32) {
    let mut c = [0u32; N];
    let mut tot = 0;
    for v in it {
        tot += 1;
        for j in 0..n {
            c[j] += (*v == lab(j as u32)) as u32;
        }
    }
    (c, tot)
}
pub fn agree(g: &EditDigraph, s: &DSt, id: u32) {
    let n = s.n;
    let nv = count(n, &s.p);
    check(g.num_vertices() as u32 == nv, id);
    check(g.is_empty() == (nv == 0), id);
    check(g.num_edges() as u32 == arcs(s), id + 1);
    let (c, tot) = tally(n, g.vertices());
    check(tot == nv, id + 5);
    let ind = g.in_degrees();
    let outd = g.out_degrees();
    let degs = g.degrees();
    check((ind.len() as u32 == nv) & (outd.len() as u32 == nv) & (degs.len() as u32 == nv), id + 3);
    for i in 0..n {
        let li = lab(i as u32);
        check(g.contains(&li) == s.p[i], id);
        check(c[i] == s.p[i] as u32, id + 5);
        for j in 0..n {
            let lj = lab(j as u32);
            check(g.has_arc(&li, &lj) == s.a[i][j], id + 2);
            check(g.adjacent(&li, &lj) == (s.a[i][j] | s.a[j][i]), id + 6);
        }
        let ci = col(s, i);
        let (di, do_) = (count(n, &ci), count(n, &s.a[i]));
        check(g.degree(&li) == di + do_, id + 3);
        if s.p[i] {
            check(g.in_degree(&li) == di, id + 3);
            check(g.out_degree(&li) == do_, id + 3);
            check((ind.get(&li) == Some(&di)) & (outd.get(&li) == Some(&do_)) & (degs.get(&li) == Some(&(di + do_))), id + 3);
            let (co, to) = tally(n, g.out_neighbours(&li));
            let (cc, ti) = tally(n, g.in_neighbours(&li));
            // both traits offer `neighbours`
            let (cu, _) = tally(n, <EditDigraph as Graph>::neighbours(g, &li));
            let (cv, _) = tally(n, <EditDigraph as Digraph>::neighbours(g, &li));
            check((to == do_) & (ti == di), id + 4);
            for j in 0..n {
                check((co[j] == s.a[i][j] as u32) & (cc[j] == s.a[j][i] as u32), id + 4);
                let k = s.a[i][j] as u32 + s.a[j][i] as u32;
                check((cu[j] <= k) & ((cu[j] > 0) == (k > 0)), id + 7);
                check((cv[j] <= k) & ((cv[j] > 0) == (k > 0)), id + 7);
            }
        }
    }
}
pub fn sym_state(n: usize, base: u32) -> DSt {
    let mut s = DSt { n, p: [false; N], a: [[false; N]; N] };
    let mut id = base;
    for i in 0..n {
        s.p[i] = param(97) != 0 || bool_(id);
        id += 1;
    }
    for i in 0..n {
        for j in 0..n {
            s.a[i][j] = arc(n, i, j, id) & s.p[i] & s.p[j];
            id += 1;
        }
    }
    s
}
pub fn build(s: &DSt) -> EditDigraph {
    let mut g = EditDigraph::with_capacity(s.n);
    for i in 0..s.n {
        if s.p[i] {
            g.add_vertex(&lab(i as u32));
        }
    }
    for i in 0..s.n {
        for j in 0..s.n {
            if s.a[i][j] {
                g.add_arc(&lab(i as u32), &lab(j as u32));
            }
        }
    }
    g
}
pub fn nops(n: u32) -> u32 {
    2 * n + 2 * n * n + 2
}
pub fn apply(g: &mut EditDigraph, s: &mut DSt, sel: u32, id: u32) -> bool {
    let n = s.n;
    let mut k = 0;
    let mut ch = false;
    for u in 0..n {
        if sel == k {
            let r = !s.p[u];
            s.p[u] = true;
            check(g.add_vertex(&lab(u as u32)) == r, id);
            ch = r;
        }
        if sel == k + 1 {
            let r = s.p[u];
            s.p[u] = false;
            for j in 0..n {
                s.a[u][j] = false;
                s.a[j][u] = false;
            }
            check(g.remove_vertex(&lab(u as u32)) == r, id + 1);
            ch = r;
        }
        k += 2;
    }
    for u in 0..n {
        for v in 0..n {
            if sel == k {
                let before = s.p[u] & s.p[v];
                let r = !s.a[u][v];
                s.p[u] = true;
                s.p[v] = true;
                s.a[u][v] = true;
                check(g.add_arc(&lab(u as u32), &lab(v as u32)) == r, id + 2);
                ch = r | !before;
            }
            if sel == k + 1 {
                let r = s.a[u][v];
                s.a[u][v] = false;
                check(g.remove_arc(&lab(u as u32), &lab(v as u32)) == r, id + 3);
                ch = r;
            }
            k += 2;
        }
    }
    if sel == k {
        let mut c = 0;
        for i in 0..n {
            c += s.a[i][i] as usize;
            s.a[i][i] = false;
        }
        check(g.remove_loops() == c, id + 4);
        ch = c > 0;
    }
    if sel == k + 1 {
        let mut c = 0;
        let mut iso = [false; N];
        for i in 0..n {
            iso[i] = s.p[i] & (count(n, &s.a[i]) + count(n, &col(s, i)) == 0);
        }
        for i in 0..n {
            c += iso[i] as usize;
            s.p[i] = s.p[i] & !iso[i];
        }
        check(g.remove_isolates() == c, id + 5);
        ch = c > 0;
    }
    ch
}
#[no_mangle]
pub fn h_di_edit() {
    let n = param(0);
    let k = param(1);
    order(n);
    let mut s = sym_state(n as usize, 0);
    let mut g = build(&s);
    agree(&g, &s, 10);
    for t in 0..k {
        let sel = choice(t, nops(n));
        let ch = apply(&mut g, &mut s, sel, 20);
        cover(ch, 1);
        cover(!ch, 2);
        if t + 1 == k {
            agree(&g, &s, 30);
            let h = build(&s);
            check(g == h, 40);
            check(h == g, 40);
        }
    }
}
#[no_mangle]
pub fn h_di_clone() {
    let n = param(0);
    order(n);
    let mut s = sym_state(n as usize, 0);
    let g = build(&s);
    let mut h = g.clone();
    check(g == h, 1);
    let s0 = DSt { n: s.n, p: s.p, a: s.a };
    agree(&h, &s, 10);
    let sel = choice(0, nops(n));
    let ch = apply(&mut h, &mut s, sel, 20);
    agree(&g, &s0, 30);
    agree(&h, &s, 40);
    check((g == h) == !ch, 2);
    check((h == g) == !ch, 3);
    cover(ch, 1);
    cover(!ch, 2);
}
#[no_mangle]
pub fn h_di_eq() {
    let n = param(0);
    order(n);
    let s = sym_state(n as usize, 0);
    let t = sym_state(n as usize, 100);
    let g = build(&s);
    let h = build(&t);
    let mut same = true;
    for i in 0..n as usize {
        same = same & (s.p[i] == t.p[i]);
        for j in 0..n as usize {
            same = same & (s.a[i][j] == t.a[i][j]);
        }
    }
    check((g == h) == same, 1);
    cover(same, 1);
    cover(!same, 2);
}
/// Bulk additions with repetitions, and collecting from arcs.
#[no_mangle]
pub fn h_di_bulk() {
    let n = param(0);
    let k = param(1);
    order(n);
    let mut s = sym_state(n as usize, 0);
    let mut g = build(&s);
    let mut vs = Vec::with_capacity(4);
    let mut es = Vec::with_capacity(4);
    let mut cv = 0;
    for t in 0..k {
        let u = choice(t, n);
        let b = bool_(200 + t);
        for i in 0..n as usize {
            if b & (u == i as u32) {
                vs.push(lab(i as u32));
                cv += !s.p[i] as u32;
                s.p[i] = true;
            }
        }
    }
    check(g.add_vertices(vs.iter()) == cv, 1);
    agree(&g, &s, 10);
    let mut ce = 0;
    let mut f = DSt { n: n as usize, p: [false; N], a: [[false; N]; N] };
    for t in 0..k {
        let e = choice(50 + t, n * n);
        let mut x = 0;
        for i in 0..n as usize {
            for j in 0..n as usize {
                if e == x {
                    es.push((lab(i as u32), lab(j as u32)));
                    ce += !s.a[i][j] as u32;
                    for r in [&mut s, &mut f] {
                        r.p[i] = true;
                        r.p[j] = true;
                        r.a[i][j] = true;
                    }
                }
                x += 1;
            }
        }
    }
    check(g.add_arcs(es.iter()) == ce, 2);
    agree(&g, &s, 20);
    let h: EditDigraph = es.into_iter().collect();
    agree(&h, &f, 30);
    cover(ce > 1, 1);
}
