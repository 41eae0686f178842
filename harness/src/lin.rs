//! G18-G21: maximal cliques, greedy colouring, dominating sets, scattered colourings.
use crate::edit::build;
use crate::gb::*;
use crate::ops::full_state;
use crate::ord::{permutation, seq};
use crate::util::*;
use graphbench::algorithms::*;
use graphbench::degengraph::*;
use graphbench::graph::*;
use graphbench::ordgraph::*;

fn setup() -> (usize, [usize; N], Mat, OrdGraph) {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let p = permutation(n, param(2));
    let og = OrdGraph::with_ordering(&g, seq(n, &p).iter());
    (n, p, s.a, og)
}

// ---------------------------------------------------------------- G18
fn cliques(n: usize, a: &Mat) -> u64 {
    let mut c = 0u64;
    for m in 1u32..1 << n {
        let mut ok = true;
        for i in 0..n {
            for j in 0..i {
                if m >> i & 1 == 1 && m >> j & 1 == 1 {
                    ok = ok & a[i][j];
                }
            }
        }
        for v in 0..n {
            if m >> v & 1 == 0 {
                let mut ext = true;
                for i in 0..n {
                    if m >> i & 1 == 1 {
                        ext = ext & a[i][v];
                    }
                }
                ok = ok & !ext;
            }
        }
        c += ok as u64;
    }
    c
}
#[no_mangle]
pub fn h_cliques() {
    let (n, _, a, og) = setup();
    let c = og.count_max_cliques();
    check(c == cliques(n, &a), 1);
    cover(c == 2, 1);
}
#[no_mangle]
pub fn h_cliques_degen() {
    let (n, _, a, og) = setup();
    let dg = og.to_degeneracy_graph();
    let c = dg.count_max_cliques();
    check(c == cliques(n, &a), 1);
    cover(c == 2, 1);
}

// ---------------------------------------------------------------- G19
fn colouring_ok<L: LinearGraph>(g: &L, n: usize, a: &Mat) {
    let col = g.colour_greedy();
    check(col.len() == n, 1);
    let mut c = [99u32; N];
    for i in 0..n {
        check(col.contains(&lab(i as u32)), 2);
        if col.contains(&lab(i as u32)) {
            c[i] = col[&lab(i as u32)];
        }
    }
    let mut used = 0u32;
    for i in 0..n {
        let mut first = true;
        for j in 0..i {
            check(!a[i][j] | (c[i] != c[j]), 3);
            first = first & (c[i] != c[j]);
        }
        used += first as u32;
    }
    check(used <= g.max_left_degree() + (n > 0) as u32, 4);
    cover(used == 3, 1);
}
#[no_mangle]
pub fn h_colour() {
    let (n, _, a, og) = setup();
    colouring_ok(&og, n, &a);
}
#[no_mangle]
pub fn h_colour_degen() {
    let (n, p, a, og) = setup();
    let dg = DegenGraph::with_ordering(&og, seq(n, &p).iter());
    colouring_ok(&dg, n, &a);
}

// ---------------------------------------------------------------- G20
fn domset_ok<L: LinearGraph>(g: &L, n: usize, a: &Mat, r: usize, target: &Row, all: bool, witness: bool) {
    let (d, dist, col) = if all { g.domset(r as u32, witness) } else { g.domset_with_target(r as u32, witness, vset(n, target).iter()) };
    let mut le = [[[false; N]; N]; N + 1];
    le[0] = ident(n);
    for t in 1..=r {
        le[t] = step(n, &le[t - 1], a);
    }
    let two = within(n, a, 2 * r);
    let mut dm = [false; N];
    let mut members = 0;
    for i in 0..n {
        dm[i] = d.contains(&lab(i as u32));
        members += dm[i] as usize;
    }
    check(d.len() == members, 1);
    for j in 0..n {
        let dj = dist.get(&lab(j as u32)).copied().unwrap_or(1000);
        check(!target[j] | (dj <= r as u32), 2);
        for t in 0..=r {
            let mut x = false;
            for i in 0..n {
                x = x | (dm[i] & le[t][i][j]);
            }
            if t == r {
                check(!target[j] | x, 3);
            }
            // reported distance t is at least the true one
            check(!target[j] | (dj != t as u32) | x, 4);
        }
        check(!dm[j] | (dj == 0), 5);
    }
    check(col.is_some() == witness, 6);
    if let Some(c) = &col {
        let mut cnt = 0;
        let mut cc = [1000u32; N];
        for i in 0..n {
            if c.contains(&lab(i as u32)) {
                cc[i] = c[&lab(i as u32)];
                cnt += 1;
                check(dm[i], 7);
                check(target[i], 8);
            }
        }
        check(c.len() == cnt, 9);
        check((cnt > 0) | (members == 0), 10);
        for i in 0..n {
            for j in 0..i {
                check((cc[i] == 1000) | (cc[i] != cc[j]) | !two[i][j], 11);
                cover((cc[i] != 1000) & (cc[j] != 1000) & (cc[i] == cc[j]), 1);
                cover((cc[i] != 1000) & (cc[j] != 1000) & (cc[i] != cc[j]), 2);
            }
        }
    }
    cover(members == 2, 3);
}
/// p1 = radius, p3 = 0: all vertices are targets, 1: a symbolic subset
#[no_mangle]
pub fn h_domset() {
    let (n, _, a, og) = setup();
    let all = param(3) == 0;
    let mut t = [false; N];
    for i in 0..n {
        t[i] = true;
    }
    if !all {
        t = sym_set(n, 100);
    }
    let w = bool_(150);
    domset_ok(&og, n, &a, param(1) as usize, &t, all, w);
}
#[no_mangle]
pub fn h_domset_degen() {
    let (n, _, a, og) = setup();
    let dg = og.to_degeneracy_graph();
    let t = targets(n);
    let w = bool_(150);
    domset_ok(&dg, n, &a, param(1) as usize, &t, false, w);
}

// ---------------------------------------------------------------- G21
/// Parameter 96: 0 = a symbolic target set, otherwise only the first vertices are optional (k: the first k-1).
fn targets(n: usize) -> Row {
    let mut t = [false; N];
    for i in 0..n {
        t[i] = if param(96) == 0 || i + 1 < param(96) as usize { bool_(100 + i as u32) } else { true };
    }
    t
}
fn scatter_ok<L: LinearGraph>(g: &L, n: usize, a: &Mat, dist: usize) {
    let t = targets(n);
    let classes = g.scattered_colouring(dist as u32, vset(n, &t).iter());
    let close = if dist > 0 { within(n, a, dist - 1) } else { ident(n) };
    let mut cnt = [0u32; N];
    let mut total = 0;
    let mut two = false;
    for c in &classes {
        total += c.len();
        let mut r = [false; N];
        for i in 0..n {
            r[i] = c.contains(&lab(i as u32));
            cnt[i] += r[i] as u32;
        }
        for i in 0..n {
            for j in 0..i {
                check(!(r[i] & r[j] & close[i][j]), 1);
                two = two | (r[i] & r[j]);
            }
        }
    }
    for i in 0..n {
        check(cnt[i] == t[i] as u32, 2);
    }
    check(total as u32 == count(n, &t), 3);
    cover(two, 1);
    cover(classes.len() == 2, 2);
}
#[no_mangle]
pub fn h_scatter() {
    let (n, _, a, og) = setup();
    scatter_ok(&og, n, &a, param(1) as usize);
}
#[no_mangle]
pub fn h_scatter_degen() {
    let (n, _, a, og) = setup();
    let dg = og.to_degeneracy_graph();
    scatter_ok(&dg, n, &a, param(1) as usize);
}

// ---------------------------------------------------------------- G20, G21: many dominators around one vertex
/// A spider: p0 legs of length p1 around vertex 0, ordered by distance from it (p2 = 1: legs one after the other).
/// The targets are the ends of the legs, the last four of them optional. Vertex 1 + l*len + (i-1) is at distance i on leg l.
fn spider(legs: usize, len: usize, style: u32) -> (OrdGraph, Vec<Vertex>, Vec<bool>) {
    let id = |l: usize, i: usize| (1 + l * len + i - 1) as u32;
    let mut g = graphbench::editgraph::EditGraph::new();
    let mut ordering: Vec<u32> = vec![0];
    g.add_vertex(&0);
    for l in 0..legs {
        for i in 1..=len {
            g.add_edge(&if i == 1 { 0 } else { id(l, i - 1) }, &id(l, i));
            ordering.push(id(l, i));
        }
    }
    if style == 0 {
        ordering = vec![0];
        for i in 1..=len {
            for l in 0..legs {
                ordering.push(id(l, i));
            }
        }
    }
    let og = OrdGraph::with_ordering(&g, ordering.iter());
    let mut t = Vec::with_capacity(legs);
    for l in 0..legs {
        t.push(if l + 4 >= legs { bool_(l as u32) } else { true });
    }
    let ends = (0..legs).map(|l| id(l, len)).collect();
    (og, ends, t)
}
fn subset(ends: &[Vertex], t: &[bool]) -> VertexSet {
    let mut s = VertexSet::default();
    for l in 0..ends.len() {
        if t[l] {
            s.insert(ends[l]);
        }
    }
    s
}
#[no_mangle]
pub fn h_domset_spider() {
    let (legs, len) = (param(0) as usize, param(1) as usize);
    let (og, ends, t) = spider(legs, len, param(2));
    let (d, dist, _) = og.domset_with_target(len as u32, false, subset(&ends, &t).iter());
    let hub = d.contains(&0);
    let mut ok = true;
    let mut far = true;
    for l in 0..legs {
        let mut best = if hub { len } else { 1000 };
        for i in 1..=len {
            let x = d.contains(&((1 + l * len + i - 1) as u32));
            best = if x && len - i < best { len - i } else { best };
        }
        // members elsewhere: through the hub, at distance at least len + 1
        ok = ok & (!t[l] | (best <= len));
        let r = dist.get(&ends[l]).copied().unwrap_or(1000) as usize;
        far = far & (!t[l] | ((r <= len) & (r >= best)));
    }
    check(ok, 1);
    check(far, 2);
    cover(hub, 1);
    cover(!hub, 2);
}
#[no_mangle]
pub fn h_scatter_spider() {
    let (legs, len) = (param(0) as usize, param(1) as usize);
    let (og, ends, t) = spider(legs, len, param(2));
    let dist = param(3);
    let classes = og.scattered_colouring(dist, subset(&ends, &t).iter());
    let mut cnt = Vec::with_capacity(legs);
    for _ in 0..legs {
        cnt.push(0u32);
    }
    let mut total = 0;
    for c in &classes {
        total += c.len();
        let mut k = 0;
        for l in 0..legs {
            let x = c.contains(&ends[l]);
            cnt[l] += x as u32;
            k += x as u32;
        }
        // two ends of legs are at distance 2 len
        check((k <= 1) | (2 * len as u32 >= dist), 1);
    }
    let mut m = 0;
    for l in 0..legs {
        check(cnt[l] == t[l] as u32, 2);
        m += t[l] as usize;
    }
    check(total == m, 3);
    cover(classes.len() == 1, 1);
    cover(classes.len() > 1, 2);
}
