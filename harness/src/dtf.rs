//! G22-G24: transitive-fraternal augmentations.
use crate::edit::{agree, build, St};
use crate::gb::*;
use crate::ops::full_state;
use crate::util::*;
use graphbench::dtfgraph::*;
use graphbench::editgraph::*;
use graphbench::graph::*;

const D: usize = 4;
type Cube = [Mat; D];

fn l(i: usize) -> u32 {
    lab(i as u32)
}
/// Number of set entries in row/column i.
fn cnt_in(n: usize, a: &Mat, v: usize) -> u32 {
    let mut c = 0;
    for u in 0..n {
        c += a[u][v] as u32;
    }
    c
}
fn cnt_out(n: usize, a: &Mat, u: usize) -> u32 {
    let mut c = 0;
    for v in 0..n {
        c += a[u][v] as u32;
    }
    c
}
/// A multiset of vertices against expected multiplicities.
fn same<'a>(n: usize, it: impl Iterator<Item = &'a Vertex>, want: &[u32; N], id: u32) {
    let mut c = [0u32; N];
    let mut tot = 0;
    for v in it {
        tot += 1;
        for i in 0..n {
            c[i] += (*v == l(i)) as u32;
        }
    }
    let mut w = 0;
    for i in 0..n {
        w += want[i];
        check(c[i] == want[i], id);
    }
    check(tot == w, id);
}
fn same_arcs(n: usize, it: impl Iterator<Item = (Vertex, Vertex)>, want: &[[u32; N]; N], id: u32) {
    let mut c = [[0u32; N]; N];
    let mut tot = 0;
    for (u, v) in it {
        tot += 1;
        for i in 0..n {
            for j in 0..n {
                c[i][j] += ((u == l(i)) & (v == l(j))) as u32;
            }
        }
    }
    let mut w = 0;
    for i in 0..n {
        for j in 0..n {
            w += want[i][j];
            check(c[i][j] == want[i][j], id);
        }
    }
    check(tot == w, id);
}
/// Every vertex comes once, with the vertices u of want[u][v] as often as said.
fn same_hoods<'a>(n: usize, p: &Row, it: impl Iterator<Item = (Vertex, Box<dyn Iterator<Item = &'a Vertex> + 'a>)>, want: &[[u32; N]; N], id: u32) {
    let mut c = [0u32; N];
    for (v, us) in it {
        let mut s = [0u32; N];
        let mut t = 0;
        for u in us {
            t += 1;
            for i in 0..n {
                s[i] += (*u == l(i)) as u32;
            }
        }
        for i in 0..n {
            if v == l(i) {
                c[i] += 1;
                let mut w = 0;
                for j in 0..n {
                    w += want[j][i];
                    check(s[j] == want[j][i], id);
                }
                check(t == w, id);
            }
        }
    }
    for i in 0..n {
        check(c[i] == p[i] as u32, id);
    }
}
/// Every query agrees with the arcs `a[d-1][u][v]` over the vertices `p`.
fn dtf_agree(h: &mut DTFGraph, n: usize, p: &Row, a: &Cube, depth: usize) {
    let nv = count(n, p);
    check(h.num_vertices() as u32 == nv, 1);
    check(h.get_depth() == depth, 2);
    let mut want = [0u32; N];
    for i in 0..n {
        want[i] = p[i] as u32;
        check(h.contains(&l(i)) == p[i], 1);
    }
    same(n, h.vertices(), &want, 3);
    let mut all = [[0u32; N]; N];
    for d in 0..D {
        let mut m = 0;
        for i in 0..n {
            for j in 0..n {
                all[i][j] += a[d][i][j] as u32;
                m += a[d][i][j] as u32;
                check(h.has_arc_at(&l(i), &l(j), d + 1) == a[d][i][j], 4);
            }
        }
        check(h.num_arcs_at_depth(d + 1) as u32 == m, 5);
    }
    for i in 0..n {
        for j in 0..n {
            check(h.has_arc(&l(i), &l(j)) == (all[i][j] > 0), 6);
            check(h.adjacent(&l(i), &l(j)) == ((all[i][j] > 0) | (all[j][i] > 0)), 7);
        }
        if p[i] {
            let mut ind = 0;
            let mut outd = 0;
            let mut want = [0u32; N];
            for j in 0..n {
                ind += all[j][i];
                outd += all[i][j];
                want[j] = all[j][i];
                let mut w = 99;
                let mut d = D;
                while d > 0 {
                    d -= 1;
                    w = if a[d][j][i] { d as u32 + 1 } else { w };
                }
                check(h.get_arc_depth(&l(j), &l(i)).unwrap_or(99) == w, 8);
            }
            check(h.in_degree(&l(i)) == ind, 9);
            check(h.out_degree(&l(i)) == outd, 10);
            check(h.degree(&l(i)) == ind + outd, 11);
            same(n, h.in_neighbours(&l(i)), &want, 12);
            for d in 0..depth {
                for j in 0..n {
                    want[j] = a[d][j][i] as u32;
                }
                same(n, h.in_neighbours_at(&l(i), d + 1), &want, 13);
            }
            let ws = h.in_neighbours_with_weights(&l(i));
            let mut len = 0;
            for j in 0..n {
                len += (all[j][i] > 0) as u32;
                let w = ws.get(&l(j)).copied().unwrap_or(0);
                check((w > 0) == (all[j][i] > 0), 14);
                let mut ok = w == 0;
                for d in 0..D {
                    ok = ok | ((w == d as u32 + 1) & a[d][j][i]);
                }
                check(ok, 14);
            }
            check(ws.len() as u32 == len, 14);
        }
    }
    same_arcs(n, h.arcs(), &all, 15);
    same_hoods(n, p, h.in_neighbourhoods_iter(), &all, 16);
    for d in 0..depth {
        let mut w = [[0u32; N]; N];
        for i in 0..n {
            for j in 0..n {
                w[i][j] = a[d][i][j] as u32;
            }
        }
        same_arcs(n, h.arcs_at(d + 1), &w, 17);
        same_hoods(n, p, h.in_neighbourhoods_iter_at(d + 1), &w, 18);
    }
    let und: EditGraph = h.to_undirected();
    let mut s = St { n, p: *p, a: [[false; N]; N] };
    for i in 0..n {
        for j in 0..n {
            s.a[i][j] = (all[i][j] > 0) | (all[j][i] > 0);
        }
    }
    agree(&und, &s, 20);
}
fn layers_agree(h: &mut DTFGraph, n: usize, p: &Row, a: &Cube) {
    let nv = count(n, p);
    for d in 0..D {
        let depth = h.get_depth();
        {
            let y = h.layer(d + 1);
            let mut m = 0;
            check(y.num_vertices() as u32 == nv, 30);
            let mut want = [0u32; N];
            for i in 0..n {
                want[i] = p[i] as u32;
                check(y.contains(&l(i)) == p[i], 30);
                for j in 0..n {
                    m += a[d][i][j] as u32;
                    check(y.has_arc(&l(i), &l(j)) == a[d][i][j], 31);
                    check(y.adjacent(&l(i), &l(j)) == (a[d][i][j] | a[d][j][i]), 32);
                }
            }
            same(n, y.vertices(), &want, 30);
            check(y.num_edges() as u32 == m, 33);
            for i in 0..n {
                if p[i] {
                    let (ci, co) = (cnt_in(n, &a[d], i), cnt_out(n, &a[d], i));
                    check(y.in_degree(&l(i)) == ci, 34);
                    check(y.out_degree(&l(i)) == co, 35);
                    check(Graph::degree(&y, &l(i)) == ci + co, 36);
                    for j in 0..n {
                        want[j] = a[d][j][i] as u32;
                    }
                    same(n, y.in_neighbours(&l(i)), &want, 37);
                }
            }
        }
        check(h.get_depth() == depth, 38);
    }
}
/// A DTF graph with symbolic vertices and symbolic arcs at depths 1..=dd, inserted in either order of the depths.
fn dtf_state(n: usize, dd: usize, loops: bool, down: bool) -> (DTFGraph, Row, Cube, usize) {
    let mut h = DTFGraph::orient(&EditGraph::new());
    let mut p = [false; N];
    let mut a = [[[false; N]; N]; D];
    let mut depth = 1;
    let mut id = 0;
    for i in 0..n {
        p[i] = bool_(id);
        id += 1;
        if p[i] {
            h.add_vertex(l(i));
        }
    }
    for k in 0..dd {
        let d = if down { dd - 1 - k } else { k };
        for i in 0..n {
            for j in 0..n {
                if i != j || loops {
                    a[d][i][j] = bool_(id);
                    if a[d][i][j] {
                        h.add_arc(&l(i), &l(j), d + 1);
                        depth = if depth < d + 1 { d + 1 } else { depth };
                    }
                    p[i] = p[i] | a[d][i][j];
                    p[j] = p[j] | a[d][i][j];
                }
                id += 1;
            }
        }
    }
    (h, p, a, depth)
}

// ---------------------------------------------------------------- G23
/// p0 = vertices, p1 = depths, p2 = insertion from high to low depths, p3 = loops
#[no_mangle]
pub fn h_dtf_state() {
    let n = param(0) as usize;
    order(n as u32);
    let (mut h, p, a, depth) = dtf_state(n, param(1) as usize, param(3) == 1, param(2) == 1);
    dtf_agree(&mut h, n, &p, &a, depth);
    cover(a[0][0][n - 1] & a[0][n - 1][0], 1);
    cover(a[param(1) as usize - 1][0][n - 1] & (depth as u32 == param(1)), 2);
}
#[no_mangle]
pub fn h_dtf_layers() {
    let n = param(0) as usize;
    order(n as u32);
    let (mut h, p, a, depth) = dtf_state(n, param(1) as usize, param(3) == 1, param(2) == 1);
    layers_agree(&mut h, n, &p, &a);
    check(h.get_depth() == depth, 39);
    dtf_agree(&mut h, n, &p, &a, depth);
    cover(a[0][0][n - 1], 1);
}
/// p1 arbitrary edits of an empty augmentation: add a vertex or an arc (again) at some depth, or look at a layer.
#[no_mangle]
pub fn h_dtf_hist() {
    let n = param(0) as usize;
    let dd = param(2) as usize;
    order(n as u32);
    let mut h = DTFGraph::orient(&EditGraph::new());
    let mut p = [false; N];
    let mut a = [[[false; N]; N]; D];
    let mut depth = 1;
    let mut again = false;
    for t in 0..param(1) {
        let u = choice(3 * t, n as u32) as usize;
        let v = choice(3 * t + 1, n as u32) as usize;
        let op = choice(3 * t + 2, 1 + dd as u32) as usize;
        // choices become concrete before they reach the library
        for i in 0..n {
            if u == i {
                if op == 0 {
                    h.add_vertex(l(i));
                    p[i] = true;
                } else {
                    for j in 0..n {
                        if v == j {
                            for d in 0..dd {
                                if op == d + 1 {
                                    h.add_arc(&l(i), &l(j), d + 1);
                                    again = again | a[d][i][j];
                                    a[d][i][j] = true;
                                    p[i] = true;
                                    p[j] = true;
                                    depth = if depth < d + 1 { d + 1 } else { depth };
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    dtf_agree(&mut h, n, &p, &a, depth);
    cover(again, 1);
}
/// Orienting a simple graph orders every edge exactly once; p1 = depth of the lookahead (0: plain `orient`).
#[no_mangle]
pub fn h_dtf_orient() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let mut h = if param(1) == 0 { DTFGraph::orient(&g) } else { DTFGraph::orient_deep(&g, param(1) as usize) };
    let mut a = [[[false; N]; N]; D];
    for i in 0..n {
        for j in 0..n {
            a[0][i][j] = h.has_arc(&l(i), &l(j));
        }
    }
    for i in 0..n {
        check(!a[0][i][i], 50);
        for j in 0..i {
            check((a[0][i][j] | a[0][j][i]) == s.a[i][j], 51);
            check(!(a[0][i][j] & a[0][j][i]), 52);
        }
    }
    dtf_agree(&mut h, n, &s.p, &a, 1);
    agree(&g, &s, 60);
    cover(a[0][0][n - 1], 1);
    cover(a[0][n - 1][0], 2);
}
/// The restriction to a set of edges keeps exactly the arcs (of any depth) over those edges, as arcs of depth 1.
#[no_mangle]
pub fn h_dtf_sub() {
    let n = param(0) as usize;
    order(n as u32);
    let (h, p, a, _) = dtf_state(n, param(1) as usize, false, false);
    let mut list = Vec::with_capacity(30);
    let mut b = [[[false; N]; N]; D];
    let mut id = 200;
    for i in 0..n {
        for j in i + 1..n {
            let x = bool_(id);
            let flip = bool_(id + 1);
            id += 2;
            if x {
                if flip {
                    list.push((l(j), l(i)));
                } else {
                    list.push((l(i), l(j)));
                }
            }
            for d in 0..D {
                b[0][i][j] = b[0][i][j] | (x & a[d][i][j]);
                b[0][j][i] = b[0][j][i] | (x & a[d][j][i]);
            }
        }
    }
    let mut r = h.edge_subgraph(list.into_iter());
    dtf_agree(&mut r, n, &p, &b, 1);
    cover(b[0][0][n - 1] & b[0][n - 1][0], 1);
}

// ---------------------------------------------------------------- G22
/// dist[i][j] = the distance if at most `max`, else 99.
fn dists(n: usize, a: &Mat, max: usize) -> [[u32; N]; N] {
    let mut dist = [[99u32; N]; N];
    let mut r = ident(n);
    for i in 0..n {
        dist[i][i] = 0;
    }
    for d in 1..=max {
        let q = step(n, &r, a);
        for i in 0..n {
            for j in 0..n {
                dist[i][j] = if q[i][j] & !r[i][j] { d as u32 } else { dist[i][j] };
            }
        }
        r = q;
    }
    dist
}
/// p1 = depth, p2 = fraternal lookahead, p3 = 0: at once, 1: one by one, 2: layers are looked at in between
#[no_mangle]
pub fn h_dtf_aug() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    augment(n, &s);
}
/// The same for sparse graphs on more vertices: a symbolic forest (every vertex is attached to an arbitrary earlier
/// vertex, or to none) and two arbitrary further edges.
#[no_mangle]
pub fn h_dtf_aug_sparse() {
    let n = param(0) as usize;
    order(n as u32);
    let mut s = St { n, p: [false; N], a: [[false; N]; N] };
    for i in 0..n {
        s.p[i] = true;
        // attached to i-1, to one further back, or not at all
        let k = choice(i as u32, 1 + if i < 3 { i as u32 } else { 3 }) as usize;
        for j in 0..i {
            if j + 3 >= i {
                s.a[i][j] = k == i - j;
                s.a[j][i] = s.a[i][j];
            }
        }
    }
    for x in 0..param(4) {
        let u = choice(20 + 2 * x, n as u32) as usize;
        let v = choice(21 + 2 * x, n as u32) as usize;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    s.a[i][j] = s.a[i][j] | ((u == i) & (v == j)) | ((u == j) & (v == i));
                }
            }
        }
    }
    augment(n, &s);
}
fn augment(n: usize, s: &St) {
    let depth = param(1) as usize;
    let fd = param(2) as usize;
    let g = build(s);
    let mut h = DTFGraph::orient(&g);
    let mut b = [[false; N]; N];
    for i in 0..n {
        for j in 0..n {
            b[i][j] = h.has_arc_at(&l(i), &l(j), 1);
        }
    }
    match param(3) {
        0 => h.augment(depth, fd),
        k => {
            for d in 1..=depth {
                if k == 2 {
                    let m = h.layer(1).num_edges();
                    check(m == g.num_edges(), 9);
                    let m = h.layer(depth).num_edges();
                    check((m == 0) | (depth <= d), 9);
                }
                h.augment(d, fd);
            }
        }
    }
    check(h.get_depth() == depth, 1);
    let dist = dists(n, &s.a, depth);
    for i in 0..n {
        for j in 0..n {
            check(h.has_arc_at(&l(i), &l(j), 1) == b[i][j], 2);
            check(h.small_distance(&l(i), &l(j)).unwrap_or(99) == dist[i][j], 3);
            for d in 1..=depth {
                check(!h.has_arc_at(&l(i), &l(j), d) | (dist[i][j] <= d as u32), 4);
            }
            check(!h.has_arc(&l(i), &l(j)) | (h.get_arc_depth(&l(i), &l(j)).unwrap_or(0) >= dist[i][j]), 5);
            cover((dist[i][j] > 1) & h.has_arc(&l(i), &l(j)), 1);
            cover((dist[i][j] > 1) & (dist[i][j] < 99) & !h.has_arc(&l(i), &l(j)) & !h.has_arc(&l(j), &l(i)), 2);
        }
    }
    check(h.num_vertices() == n, 6);
    agree(&g, s, 60);
}

// ---------------------------------------------------------------- G24
/// p1 = radius, p2 = depth of an earlier augmentation
#[no_mangle]
pub fn h_dtf_domset() {
    let n = param(0) as usize;
    let r = param(1) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let mut h = DTFGraph::orient(&g);
    h.augment(param(2) as usize, 1);
    let dom = h.domset(r as u32);
    let near = within(n, &s.a, r);
    let mut c = [false; N];
    let mut tot = 0u32;
    for i in 0..n {
        c[i] = dom.contains(&l(i));
        tot += c[i] as u32;
    }
    check(dom.len() as u32 == tot, 1);
    for i in 0..n {
        let mut ok = false;
        for j in 0..n {
            ok = ok | (c[j] & near[j][i]);
        }
        check(ok, 2);
    }
    // the augmentation still answers distances
    check(h.get_depth() >= r, 3);
    agree(&g, &s, 60);
    cover(tot == 1, 1);
}
