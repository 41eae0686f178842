//! G04-G10: contraction, unions, normalisation, neighbourhoods, iterators, operations, comparison.
use crate::edit::{agree, build, edges, sym_state, St};
use crate::editdi;
use crate::gb::*;
use crate::util::*;
use graphbench::compare::*;
use graphbench::degengraph::*;
use graphbench::editdigraph::*;
use graphbench::editgraph::*;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::operations::*;
use graphbench::ordgraph::*;

/// All n vertices present, loops (symbolic) where `loops`.
pub fn full_state(n: usize, base: u32, loops: bool) -> St {
    let mut s = St { n, p: [false; N], a: [[false; N]; N] };
    let mut id = base;
    for i in 0..n {
        s.p[i] = true;
        for j in i..n {
            if i != j || loops {
                let b = pair(n, i, j, id);
                s.a[i][j] = b;
                s.a[j][i] = b;
            }
            id += 1;
        }
    }
    s
}

// ---------------------------------------------------------------- G04
/// Reference: identify the vertices of `set` (which contains c) with c.
fn m_contract(s: &mut St, c: usize, set: &Row) {
    let n = s.n;
    let mut nb = [false; N];
    for x in 0..n {
        for v in 0..n {
            nb[x] = nb[x] | (set[v] & s.a[v][x]);
        }
        nb[x] = nb[x] & !set[x];
    }
    for v in 0..n {
        s.p[v] = s.p[v] & (!set[v] | (v == c));
        for x in 0..n {
            s.a[v][x] = s.a[v][x] & !set[v] & !set[x];
        }
    }
    for x in 0..n {
        s.a[c][x] = nb[x];
        s.a[x][c] = nb[x];
    }
}
/// Loops at contracted vertices are outside the claim (the definition does not say what becomes of them).
fn no_loops_in(s: &mut St, set: &Row) {
    for i in 0..s.n {
        s.a[i][i] = s.a[i][i] & !set[i];
    }
}
#[no_mangle]
pub fn h_contract() {
    let n = param(0) as usize;
    order(n as u32);
    let mut s = full_state(n, 0, true);
    let mut set = sym_set(n, 100);
    let c = choice(0, n as u32);
    let twice = bool_(150);
    for i in 0..n {
        if c == i as u32 {
            set[i] = true;
            no_loops_in(&mut s, &set);
            let mut g = build(&s);
            let mut seq = Vec::with_capacity(12);
            seq.push(lab(i as u32));
            for v in 0..n {
                if v != i && set[v] {
                    seq.push(lab(v as u32));
                }
            }
            if twice {
                seq.push(lab(i as u32));
            }
            let r = g.contract(seq.iter());
            check(r == lab(i as u32), 1);
            m_contract(&mut s, i, &set);
            agree(&g, &s, 10);
            cover(count(n, &set) == 3, 1);
        }
    }
}
#[no_mangle]
pub fn h_contract_into() {
    let n = param(0) as usize;
    order(n as u32);
    let mut s = full_state(n, 0, true);
    let mut set = sym_set(n, 100);
    let c = choice(0, n as u32);
    for i in 0..n {
        if c == i as u32 {
            let mut seq = Vec::with_capacity(12);
            // descending; may or may not contain the centre itself
            for v in (0..n).rev() {
                if set[v] {
                    seq.push(lab(v as u32));
                }
            }
            set[i] = true;
            no_loops_in(&mut s, &set);
            let mut g = build(&s);
            g.contract_into(&lab(i as u32), seq.iter());
            m_contract(&mut s, i, &set);
            agree(&g, &s, 10);
            cover(count(n, &set) == 3, 1);
        }
    }
}
#[no_mangle]
pub fn h_contract_pair() {
    let n = param(0) as usize;
    order(n as u32);
    let mut s = full_state(n, 0, true);
    let c = choice(0, n as u32);
    let d = choice(1, n as u32);
    for i in 0..n {
        for j in 0..n {
            if (c == i as u32) & (d == j as u32) {
                let mut set = [false; N];
                set[i] = true;
                set[j] = true;
                no_loops_in(&mut s, &set);
                let mut g = build(&s);
                g.contract_pair(&lab(i as u32), &lab(j as u32));
                m_contract(&mut s, i, &set);
                agree(&g, &s, if i == j { 30 } else { 10 });
                cover(edges(&s) > 1, 1);
            }
        }
    }
}

// ---------------------------------------------------------------- G05
fn perms(k: usize) -> Vec<[usize; 4]> {
    let mut out = Vec::new();
    for a in 0..k {
        for b in 0..k {
            for c in 0..k {
                for d in 0..k {
                    let p = [a, b, c, d];
                    let mut ok = true;
                    for x in 0..4 {
                        if x >= k && p[x] != 0 {
                            ok = false;
                        }
                        for y in 0..x {
                            if x < k && p[x] == p[y] {
                                ok = false;
                            }
                        }
                    }
                    if ok {
                        out.push(p);
                    }
                }
            }
        }
    }
    out
}
/// `ext` (the extra vertices) carries a copy of `b`: some bijection matches all adjacencies.
fn copy_of(ext: &[Vertex], nb: usize, b: &Mat, adj: &dyn Fn(&Vertex, &Vertex) -> bool) -> bool {
    if ext.len() != nb {
        return false;
    }
    let mut m = [[false; 4]; 4];
    for i in 0..nb {
        for j in 0..nb {
            m[i][j] = adj(&ext[i], &ext[j]);
        }
    }
    let mut any = nb == 0;
    for p in perms(nb) {
        let mut ok = true;
        for i in 0..nb {
            for j in 0..nb {
                ok = ok & (m[p[i]][p[j]] == b[i][j]);
            }
        }
        any = any | ok;
    }
    any
}
/// Extra vertices of res beyond the labels 0..na.
fn extra<'a>(na: usize, it: impl Iterator<Item = &'a Vertex>) -> Vec<Vertex> {
    let mut e = Vec::with_capacity(12);
    for v in it {
        if pos(na, v) == na {
            e.push(*v);
        }
    }
    e
}
#[no_mangle]
pub fn h_disj_union() {
    let na = param(0) as usize;
    let nb = param(1) as usize;
    order(na as u32);
    let s = full_state(na, 0, true);
    let t = full_state(nb, 50, true);
    let (g, h) = (build(&s), build(&t));
    let r = g.disj_union(&h);
    check(r.num_vertices() == na + nb, 1);
    check(r.num_edges() as u32 == edges(&s) + edges(&t), 2);
    for i in 0..na {
        check(r.contains(&lab(i as u32)), 3);
        for j in 0..na {
            check(r.adjacent(&lab(i as u32), &lab(j as u32)) == s.a[i][j], 4);
        }
    }
    let e = extra(na, r.vertices());
    check(copy_of(&e, nb, &t.a, &|x, y| r.adjacent(x, y)), 5);
    // operands untouched
    agree(&g, &s, 20);
    agree(&h, &t, 30);
    cover(edges(&s) + edges(&t) > 2, 1);
}
/// The same, where the largest vertex id occurs in the first operand.
#[no_mangle]
pub fn h_disj_union_max() {
    h_disj_union();
}
/// Union of three: one vertex set each, sizes add up, and no edge joins different operands.
#[no_mangle]
pub fn h_disj_unions() {
    let k = param(1) as usize;
    let n = param(0) as usize;
    order(n as u32);
    let mut gs = Vec::with_capacity(4);
    let mut all = Vec::with_capacity(4);
    let mut m = 0;
    for x in 0..k {
        let s = full_state(n, 30 * x as u32, false);
        m += edges(&s);
        gs.push(build(&s));
        all.push(s);
    }
    let r = EditGraph::disj_unions(gs.iter());
    check(r.num_vertices() == k * n, 1);
    check(r.num_edges() as u32 == m, 2);
    let mut vs: Vec<Vertex> = r.vertices().copied().collect();
    vs.sort_unstable();
    if vs.len() == k * n {
        // some assignment of the blocks (in id order) to the operands
        for x in 0..k {
            let blk = &vs[x * n..(x + 1) * n];
            let mut any = false;
            for s in &all {
                any = any | copy_of(blk, n, &s.a, &|u, v| r.adjacent(u, v));
            }
            check(any, 3);
        }
    }
    cover(m > 2, 1);
}
#[no_mangle]
pub fn h_di_disj_union() {
    let na = param(0) as usize;
    let nb = param(1) as usize;
    order(na as u32);
    let mut s = editdi::DSt { n: na, p: [false; N], a: [[false; N]; N] };
    let mut t = editdi::DSt { n: nb, p: [false; N], a: [[false; N]; N] };
    let mut id = 0;
    for (x, d) in [(na, &mut s), (nb, &mut t)] {
        for i in 0..x {
            d.p[i] = true;
            for j in 0..x {
                d.a[i][j] = arc(x, i, j, id);
                id += 1;
            }
        }
    }
    let (g, h) = (editdi::build(&s), editdi::build(&t));
    let r = g.disj_union(&h);
    check(r.num_vertices() == na + nb, 1);
    check(r.num_edges() as u32 == editdi::arcs(&s) + editdi::arcs(&t), 2);
    for i in 0..na {
        check(r.contains(&lab(i as u32)), 3);
        for j in 0..na {
            check(r.has_arc(&lab(i as u32), &lab(j as u32)) == s.a[i][j], 4);
        }
    }
    let e = extra(na, r.vertices());
    check(copy_of(&e, nb, &t.a, &|x, y| r.has_arc(x, y)), 5);
    let q = EditDigraph::disj_unions([g, h].iter());
    check(q.num_vertices() == na + nb, 6);
    check(q.num_edges() as u32 == editdi::arcs(&s) + editdi::arcs(&t), 7);
    cover(editdi::arcs(&s) > 1, 1);
}
/// Number of present vertices with a smaller label.
fn rank(n: usize, p: &Row, i: usize) -> u32 {
    let mut r = 0;
    for j in 0..n {
        r += (p[j] & (lab(j as u32) < lab(i as u32))) as u32;
    }
    r
}
#[no_mangle]
pub fn h_normalize() {
    let n = param(0) as usize;
    order(n as u32);
    let s = sym_state(n, 0);
    let g = build(&s);
    let (h, map) = g.normalize();
    let nv = count(n, &s.p);
    check(h.num_vertices() as u32 == nv, 1);
    check(h.num_edges() as u32 == edges(&s), 2);
    check(map.len() as u32 == nv, 3);
    for r in 0..n as u32 {
        check(h.contains(&r) == (r < nv), 4);
    }
    for i in 0..n {
        let ri = rank(n, &s.p, i);
        for r in 0..n as u32 {
            if s.p[i] & (ri == r) {
                check(map.get(&r) == Some(&lab(i as u32)), 5);
                for j in 0..n {
                    let rj = rank(n, &s.p, j);
                    for q in 0..n as u32 {
                        if s.p[j] & (rj == q) {
                            check(h.adjacent(&r, &q) == s.a[i][j], 6);
                        }
                    }
                }
            }
        }
    }
    agree(&g, &s, 20);
    cover(edges(&s) > 1, 1);
}
#[no_mangle]
pub fn h_di_normalize() {
    let n = param(0) as usize;
    order(n as u32);
    let s = editdi::sym_state(n, 0);
    let g = editdi::build(&s);
    let (h, map) = g.normalize();
    let nv = count(n, &s.p);
    check(h.num_vertices() as u32 == nv, 1);
    check(h.num_edges() as u32 == editdi::arcs(&s), 2);
    check(map.len() as u32 == nv, 3);
    for i in 0..n {
        let ri = rank(n, &s.p, i);
        for r in 0..n as u32 {
            if s.p[i] & (ri == r) {
                check(map.get(&r) == Some(&lab(i as u32)), 5);
                check(h.contains(&r), 4);
                for j in 0..n {
                    let rj = rank(n, &s.p, j);
                    for q in 0..n as u32 {
                        if s.p[j] & (rj == q) {
                            check(h.has_arc(&r, &q) == s.a[i][j], 6);
                        }
                    }
                }
            }
        }
    }
    cover(editdi::arcs(&s) > 1, 1);
}

// ---------------------------------------------------------------- G06
fn list(n: usize, s: &Row) -> Vec<Vertex> {
    let mut v = Vec::with_capacity(12);
    for i in 0..n {
        if s[i] {
            v.push(lab(i as u32));
        }
    }
    v
}
fn nb_of(n: usize, a: &Mat, s: &Row) -> Row {
    let mut r = [false; N];
    for j in 0..n {
        for i in 0..n {
            r[j] = r[j] | (s[i] & a[i][j]);
        }
    }
    r
}
fn minus(n: usize, a: &Row, b: &Row) -> Row {
    let mut r = [false; N];
    for i in 0..n {
        r[i] = a[i] & !b[i];
    }
    r
}
fn plus(n: usize, a: &Row, b: &Row) -> Row {
    let mut r = [false; N];
    for i in 0..n {
        r[i] = a[i] | b[i];
    }
    r
}
fn nbh<G: Graph>(g: &G, n: usize, a: &Mat, r: usize, id: u32) {
    let s = sym_set(n, 100);
    let l = list(n, &s);
    let ns = nb_of(n, a, &s);
    check(same_set(n, &g.neighbourhood(l.iter()), &minus(n, &ns, &s)), id);
    check(same_set(n, &g.closed_neighbourhood(l.iter()), &plus(n, &ns, &s)), id + 1);
    let mut cur = s;
    for k in 0..=r {
        check(same_set(n, &g.r_neighbourhood(l.iter(), k), &cur), id + 2);
        cur = plus(n, &nb_of(n, a, &cur), &cur);
    }
    let d = within(n, a, r);
    for i in 0..n {
        check(same_set(n, &g.r_neighbours(&lab(i as u32), r), &d[i]), id + 3);
    }
    let h: EditGraph = g.subgraph(l.iter());
    let mut t = St { n, p: s, a: [[false; N]; N] };
    for i in 0..n {
        for j in 0..n {
            t.a[i][j] = a[i][j] & s[i] & s[j];
        }
    }
    agree(&h, &t, id + 4);
    cover(edges(&t) > 1, 1);
}
#[no_mangle]
pub fn h_nbh() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, true);
    let g = build(&s);
    nbh(&g, n, &s.a, param(1) as usize, 10);
    agree(&g, &s, 40);
}
/// The same on the ordered and the compact graph.
#[no_mangle]
pub fn h_nbh_ord() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let og = OrdGraph::with_ordering(&g, labs(n).iter());
    nbh(&og, n, &s.a, param(1) as usize, 10);
}
#[no_mangle]
pub fn h_nbh_degen() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let dg = DegenGraph::with_ordering(&g, labs(n).iter());
    nbh(&dg, n, &s.a, param(1) as usize, 10);
}
#[no_mangle]
pub fn h_nbh_di() {
    let n = param(0) as usize;
    order(n as u32);
    let a = sym_digraph(n as u32, 0);
    let g = editdi(n, &a);
    let s = sym_set(n, 100);
    let l = list(n, &s);
    let mut at = a;
    let mut au = a;
    for i in 0..n {
        for j in 0..n {
            at[i][j] = a[j][i];
            au[i][j] = a[i][j] | a[j][i];
        }
    }
    check(same_set(n, &g.out_neighbourhood(l.iter()), &minus(n, &nb_of(n, &a, &s), &s)), 1);
    check(same_set(n, &g.in_neighbourhood(l.iter()), &minus(n, &nb_of(n, &at, &s), &s)), 2);
    check(same_set(n, &g.neighbourhood(l.iter()), &minus(n, &nb_of(n, &au, &s), &s)), 3);
    check(same_set(n, &g.closed_neighbourhood(l.iter()), &plus(n, &nb_of(n, &au, &s), &s)), 4);
    let d = within(n, &au, 2);
    for i in 0..n {
        check(same_set(n, &g.r_neighbours(&lab(i as u32), 2), &d[i]), 5);
    }
    cover(count(n, &s) == 2, 1);
}

// ---------------------------------------------------------------- G07
/// Position pairs and counts of an item stream.
pub fn tally_pairs(n: usize, it: impl Iterator<Item = (Vertex, Vertex)>) -> ([[u32; N]; N], u32) {
    let mut c = [[0u32; N]; N];
    let mut tot = 0;
    for (u, v) in it {
        tot += 1;
        for i in 0..n {
            for j in 0..n {
                c[i][j] += ((u == lab(i as u32)) & (v == lab(j as u32))) as u32;
            }
        }
    }
    (c, tot)
}
fn iters<G: Graph>(g: &G, s: &St, id: u32) {
    let n = s.n;
    let (c, tot) = tally_pairs(n, g.edges());
    check(tot == edges(s), id);
    check(tot as usize == g.num_edges(), id);
    for i in 0..n {
        for j in i..n {
            let k = if i == j { c[i][i] } else { c[i][j] + c[j][i] };
            check(k == s.a[i][j] as u32, id + 1);
            // smaller vertex first
            let lo = lab(i as u32) <= lab(j as u32);
            check((if lo { c[j][i] } else { c[i][j] }) * ((i != j) as u32) == 0, id + 2);
        }
    }
    let mut seen = [0u32; N];
    let mut tot = 0;
    for (v, nb) in g.neighbourhoods() {
        tot += 1;
        let l: Vec<Vertex> = nb.copied().collect();
        for i in 0..n {
            if v == lab(i as u32) {
                seen[i] += 1;
                check(l.len() as u32 == count(n, &s.a[i]), id + 3);
                for j in 0..n {
                    check(has(&l, lab(j as u32)) == s.a[i][j], id + 3);
                }
            }
        }
    }
    check(tot == count(n, &s.p), id + 4);
    for i in 0..n {
        check(seen[i] == s.p[i] as u32, id + 4);
    }
    let mut cv = [0u32; N];
    let mut ce = [[0u32; N]; N];
    let mut tot = 0;
    for x in g.vertices_and_edges() {
        tot += 1;
        match x {
            VertexOrEdge::V(v) => {
                for i in 0..n {
                    cv[i] += (v == lab(i as u32)) as u32;
                }
            }
            VertexOrEdge::E((u, v)) => {
                for i in 0..n {
                    for j in 0..n {
                        ce[i][j] += ((u == lab(i as u32)) & (v == lab(j as u32))) as u32;
                    }
                }
            }
        }
    }
    check(tot == count(n, &s.p) + edges(s), id + 5);
    for i in 0..n {
        check(cv[i] == s.p[i] as u32, id + 6);
        for j in i..n {
            let k = if i == j { ce[i][i] } else { ce[i][j] + ce[j][i] };
            check(k == s.a[i][j] as u32, id + 7);
        }
    }
    cover(tot > 4, 1);
}
#[no_mangle]
pub fn h_iter_edit() {
    let n = param(0) as usize;
    order(n as u32);
    let s = sym_state(n, 0);
    let g = build(&s);
    iters(&g, &s, 10);
}
#[no_mangle]
pub fn h_iter_ord() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let og = OrdGraph::with_ordering(&g, labs(n).iter());
    iters(&og, &s, 10);
    lefts(&og, &s, 30);
}
#[no_mangle]
pub fn h_iter_degen() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let dg = DegenGraph::with_ordering(&g, labs(n).iter());
    iters(&dg, &s, 10);
    lefts(&dg, &s, 30);
}
fn lefts<L: LinearGraph>(g: &L, s: &St, id: u32) {
    let n = s.n;
    let mut k = 0;
    for (v, l) in g.left_neighbourhoods() {
        check(v == lab(k as u32), id);
        let mut m = 0;
        for j in 0..k {
            check(has(&l, lab(j as u32)) == s.a[k][j], id + 1);
            m += s.a[k][j] as usize;
        }
        check(l.len() == m, id + 2);
        k += 1;
    }
    check(k == n, id + 3);
}
#[no_mangle]
pub fn h_iter_di() {
    let n = param(0) as usize;
    order(n as u32);
    let s = editdi::sym_state(n, 0);
    let g = editdi::build(&s);
    let (c, tot) = tally_pairs(n, g.arcs());
    check(tot == editdi::arcs(&s), 1);
    check(tot as usize == g.num_edges(), 1);
    let (e, _) = tally_pairs(n, g.edges());
    for i in 0..n {
        for j in 0..n {
            check(c[i][j] == s.a[i][j] as u32, 2);
            // the undirected view: every adjacent pair, at most once per arc
            let k = e[i][j] + e[j][i];
            let m = s.a[i][j] as u32 + s.a[j][i] as u32;
            check((k > 0) == (m > 0), 3);
            check((i == j) | (k <= m), 3);
        }
    }
    for dir in 0..2 {
        let mut seen = [0u32; N];
        let it = if dir == 0 { g.out_neighbourhoods() } else { g.in_neighbourhoods() };
        for (v, nb) in it {
            let l: Vec<Vertex> = nb.copied().collect();
            for i in 0..n {
                if v == lab(i as u32) {
                    seen[i] += 1;
                    let r = if dir == 0 { s.a[i] } else { editdi::col(&s, i) };
                    check(l.len() as u32 == count(n, &r), 4);
                    for j in 0..n {
                        check(has(&l, lab(j as u32)) == r[j], 5);
                    }
                }
            }
        }
        for i in 0..n {
            check(seen[i] == s.p[i] as u32, 6);
        }
    }
    cover(tot > 2, 1);
}

// ---------------------------------------------------------------- G08, G10
#[no_mangle]
pub fn h_invert() {
    let n = param(0) as usize;
    order(n as u32);
    let mut s = sym_state(n, 0);
    let g = build(&s);
    let h = g.invert();
    let mut t = St { n, p: s.p, a: [[false; N]; N] };
    for i in 0..n {
        for j in 0..n {
            t.a[i][j] = s.p[i] & s.p[j] & !s.a[i][j] & (i != j);
        }
    }
    agree(&h, &t, 10);
    agree(&g, &s, 20);
    // twice: the original without its loops
    for i in 0..n {
        s.a[i][i] = false;
    }
    agree(&h.invert(), &s, 30);
    cover(edges(&t) > 1, 1);
}
#[no_mangle]
pub fn h_merge() {
    let n = param(0) as usize;
    order(n as u32);
    let s = sym_state(n, 0);
    let t = sym_state(n, 100);
    let (g, h) = (build(&s), build(&t));
    let mut u = St { n, p: s.p, a: s.a };
    let mut v = St { n, p: s.p, a: s.a };
    for i in 0..n {
        u.p[i] = s.p[i] | t.p[i];
        v.p[i] = s.p[i] & t.p[i];
        for j in 0..n {
            u.a[i][j] = s.a[i][j] | t.a[i][j];
            v.a[i][j] = s.a[i][j] & t.a[i][j];
        }
    }
    agree(&g.merge(&h), &u, 10);
    agree(&g.intersect(&h), &v, 20);
    agree(&g, &s, 30);
    agree(&h, &t, 40);
    cover(edges(&v) > 0, 1);
}
#[no_mangle]
pub fn h_compare() {
    let n = param(0) as usize;
    order(n as u32);
    let s = sym_state(n, 0);
    let t = sym_state(n, 100);
    let (g, h) = (build(&s), build(&t));
    let (mut le, mut ge) = (true, true);
    for i in 0..n {
        le = le & (!s.p[i] | t.p[i]);
        ge = ge & (s.p[i] | !t.p[i]);
        for j in 0..n {
            le = le & (!s.a[i][j] | t.a[i][j]);
            ge = ge & (s.a[i][j] | !t.a[i][j]);
        }
    }
    let r = g.compare_subgraph(&h);
    check((r == SubgraphRel::Eq) == (le & ge), 1);
    check((r == SubgraphRel::Sub) == (le & !ge), 2);
    check((r == SubgraphRel::Sup) == (!le & ge), 3);
    check((r == SubgraphRel::Incomp) == (!le & !ge), 4);
    let q = h.compare_subgraph(&g);
    check((q == SubgraphRel::Eq) == (le & ge), 5);
    check((q == SubgraphRel::Sup) == (le & !ge), 6);
    check((q == SubgraphRel::Sub) == (!le & ge), 7);
    check((q == SubgraphRel::Incomp) == (!le & !ge), 8);
    cover(!le & !ge, 1);
    cover(le & !ge, 2);
}

// ---------------------------------------------------------------- G09
/// Subdivision of a simple graph: every edge becomes a path with exactly k new inner vertices.
#[no_mangle]
pub fn h_subdivide() {
    let n = param(0) as usize;
    let k = param(1) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let h = g.subdivide(k as u32);
    let m = edges(&s) as usize;
    check(h.num_vertices() == n + m * k, 1);
    check(h.num_edges() == m * (k + 1), 2);
    for i in 0..n {
        let li = lab(i as u32);
        check(h.contains(&li), 3);
        check(h.degree(&li) == count(n, &s.a[i]), 4);
        for j in 0..n {
            check(h.adjacent(&li, &lab(j as u32)) == (s.a[i][j] & (k == 0)), 5);
        }
    }
    if k > 0 {
        // inner vertices have degree two
        for v in h.vertices() {
            if pos(n, v) == n {
                check(h.degree(v) == 2, 6);
            }
        }
        // walk every path: from i along each neighbour, k inner vertices, ending in distinct neighbours of i
        for i in 0..n {
            let li = lab(i as u32);
            let mut hit = [0u32; N];
            for x in h.neighbours(&li) {
                let (mut prev, mut cur) = (li, *x);
                for _ in 1..k {
                    let mut nxt = cur;
                    for y in h.neighbours(&cur) {
                        if *y != prev {
                            nxt = *y;
                        }
                    }
                    check(pos(n, &cur) == n, 7);
                    prev = cur;
                    cur = nxt;
                }
                check(pos(n, &cur) == n, 7);
                for y in h.neighbours(&cur) {
                    if *y != prev {
                        for j in 0..n {
                            hit[j] += (*y == lab(j as u32)) as u32;
                        }
                    }
                }
            }
            for j in 0..n {
                check(hit[j] == s.a[i][j] as u32, 8);
            }
        }
    }
    agree(&g, &s, 20);
    cover(m > 1, 1);
}
fn product(lex: bool) {
    let na = param(0) as usize;
    let nb = param(1) as usize;
    order(na.max(nb) as u32);
    let s = full_state(na, 0, false);
    let t = full_state(nb, 50, false);
    let (g, h) = (build(&s), build(&t));
    let (r, map) = if lex { g.lexicographic_product(&h) } else { g.cartesian_product(&h) };
    check(map.len() == na * nb, 1);
    check(r.num_vertices() == na * nb, 2);
    // pairing
    let mut c = [[0u32; N]; N];
    let mut id = [[0u32; N]; N];
    for (x, (u, v)) in map.iter() {
        let (i, j) = (pos(na, u), pos(nb, v));
        check((i < na) & (j < nb), 3);
        c[i][j] += 1;
        id[i][j] = *x;
    }
    let mut m = 0;
    for i in 0..na {
        for j in 0..nb {
            check(c[i][j] == 1, 4);
            check(r.contains(&id[i][j]), 5);
            for x in 0..na {
                for y in 0..nb {
                    let e = if lex {
                        t.a[j][y] | ((j == y) & s.a[i][x])
                    } else {
                        ((i == x) & t.a[j][y]) | ((j == y) & s.a[i][x])
                    };
                    check(r.adjacent(&id[i][j], &id[x][y]) == e, 6);
                    m += e as usize;
                }
            }
        }
    }
    check(2 * r.num_edges() == m, 7);
    agree(&g, &s, 20);
    agree(&h, &t, 30);
    cover(m > 2, 1);
}
#[no_mangle]
pub fn h_cartesian() {
    product(false)
}
#[no_mangle]
pub fn h_lexicographic() {
    product(true)
}
