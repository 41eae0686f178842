//! G11-G13: components, degeneracy, bipartiteness.
use crate::edit::build;
use crate::gb::*;
use crate::ops::full_state;
use crate::util::*;
use graphbench::algorithms::*;
use graphbench::degengraph::*;
use graphbench::editgraph::*;
use graphbench::ordgraph::*;
use graphbench::graph::*;

// ---------------------------------------------------------------- G11
#[no_mangle]
pub fn h_components() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, n <= 4);
    components(n, &s.a, &build(&s));
}
/// The ordered representations of the same graph.
#[no_mangle]
pub fn h_components_lin() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    if param(1) == 0 {
        components(n, &s.a, &OrdGraph::with_ordering(&g, labs(n).iter()));
    } else {
        components(n, &s.a, &DegenGraph::with_ordering(&g, labs(n).iter()));
    }
}
/// Directed graphs: the components of the underlying undirected graph.
#[no_mangle]
pub fn h_components_di() {
    let n = param(0) as usize;
    order(n as u32);
    let (m, u) = sym_di(n);
    components(n, &u, &editdi(n, &m));
}
/// A symbolic digraph on n vertices and its underlying undirected graph.
fn sym_di(n: usize) -> (Mat, Mat) {
    let mut m = [[false; N]; N];
    let mut u = m;
    for i in 0..n {
        for j in 0..n {
            if i != j {
                m[i][j] = arc(n, i, j, (i * n + j) as u32);
            }
        }
    }
    for i in 0..n {
        for j in 0..n {
            u[i][j] = m[i][j] | m[j][i];
        }
    }
    (m, u)
}
fn components<G: Graph>(n: usize, a: &Mat, g: &G) {
    let c = g.components();
    let reach = within(n, a, n);
    let mut cnt = [0u32; N];
    let mut same = [[false; N]; N];
    let mut total = 0;
    for comp in &c {
        check(!comp.is_empty(), 1);
        total += comp.len();
        let mut r = [false; N];
        for i in 0..n {
            r[i] = comp.contains(&lab(i as u32));
            cnt[i] += r[i] as u32;
        }
        for i in 0..n {
            for j in 0..n {
                same[i][j] = same[i][j] | (r[i] & r[j]);
            }
        }
    }
    check(total == n, 2);
    for i in 0..n {
        check(cnt[i] == 1, 3);
        for j in 0..n {
            check(same[i][j] == reach[i][j], 4);
        }
    }
    cover(c.len() == 2, 1);
    cover((n >= 3) & (c.len() == 1), 2);
}

// ---------------------------------------------------------------- G12
/// core[k][v]: v belongs to the k-core.
pub fn cores(n: usize, a: &Mat) -> [Row; N + 1] {
    let mut out = [[false; N]; N + 1];
    for k in 0..=n {
        let mut s = [false; N];
        for i in 0..n {
            s[i] = true;
        }
        let mut t = 0;
        while t < n {
            let mut o = s;
            for i in 0..n {
                let mut d = 0u32;
                for j in 0..n {
                    d += (s[j] & a[i][j]) as u32;
                }
                o[i] = s[i] & (d >= k as u32);
            }
            s = o;
            t += 1;
        }
        out[k] = s;
    }
    out
}
#[no_mangle]
pub fn h_degen() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    degen(n, &s.a, &build(&s));
}
#[no_mangle]
pub fn h_degen_lin() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    if param(1) == 0 {
        degen(n, &s.a, &OrdGraph::with_ordering(&g, labs(n).iter()));
    } else {
        degen(n, &s.a, &DegenGraph::with_ordering(&g, labs(n).iter()));
    }
}
fn degen<G: Graph>(n: usize, a: &Mat, g: &G) {
    let (lo, hi, ord, core) = g.degeneracy();
    check(ord.len() == n, 1);
    check(core.len() == n, 2);
    let mut at = [99u32; N];
    let mut k = 0;
    for v in &ord {
        for i in 0..n {
            if *v == lab(i as u32) {
                check(at[i] == 99, 3);
                at[i] = k;
            }
        }
        k += 1;
    }
    let c = cores(n, a);
    for i in 0..n {
        check(at[i] != 99, 4);
        let cv = core.get(&lab(i as u32)).copied().unwrap_or(99);
        let mut left = 0u32;
        for j in 0..n {
            left += (a[i][j] & (at[j] < at[i])) as u32;
        }
        check(left <= hi, 5);
        for k in 0..n {
            // core number >= k exactly on the k-core
            check((cv >= k as u32) == c[k][i], 6);
        }
        check(cv != 99, 7);
    }
    for k in 1..=n {
        let any = count(n, &c[k]) > 0;
        check((lo >= k as u32) == any, 8);
        check((hi >= k as u32) == any, 9);
        cover(any & (k + 2 == n), 1);
    }
    cover(true, 2);
}
/// Loops do not count for the degeneracy, but every vertex must appear in the ordering once.
#[no_mangle]
pub fn h_degen_loops() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, true);
    let g = build(&s);
    let (_, _, ord, core) = g.degeneracy();
    check(ord.len() == n, 1);
    check(core.len() == n, 2);
    let mut cnt = [0u32; N];
    for v in &ord {
        for i in 0..n {
            cnt[i] += (*v == lab(i as u32)) as u32;
        }
    }
    for i in 0..n {
        check(cnt[i] == 1, 3);
    }
    cover(s.a[0][0], 1);
}
/// Large degrees: the complete graph on m vertices has degeneracy m-1; a clique on m-k vertices with k pending
/// vertices attached has degeneracy m-k-1.
#[no_mangle]
pub fn h_degen_big() {
    let lo_m = param(0);
    let m = lo_m + choice(0, param(1));
    let pend = bool_(0);
    order(2);
    let mut g = EditGraph::clique(m);
    if pend {
        g.add_edge(&0, &m);
    }
    let (lo, hi, ord, core) = g.degeneracy();
    check(lo <= m - 1, 1);
    check(hi >= m - 1, 2);
    check(ord.len() as u32 == m + pend as u32, 3);
    check(core.len() == ord.len(), 4);
    check((m > 129) | (lo == m - 1), 5);
    check((m > 129) | (hi == m - 1), 6);
    check(core.contains_key(&0), 7);
    check(core.contains_key(&(m - 1)), 8);
    cover(m > 129, 1);
    cover(pend, 2);
}

// ---------------------------------------------------------------- G13
#[no_mangle]
pub fn h_bipartite() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, param(1) == 1);
    bipartite(n, &s.a, &build(&s));
}
#[no_mangle]
pub fn h_bipartite_lin() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    if param(1) == 0 {
        bipartite(n, &s.a, &OrdGraph::with_ordering(&g, labs(n).iter()));
    } else {
        bipartite(n, &s.a, &DegenGraph::with_ordering(&g, labs(n).iter()));
    }
}
#[no_mangle]
pub fn h_bipartite_di() {
    let n = param(0) as usize;
    order(n as u32);
    let (m, u) = sym_di(n);
    bipartite(n, &u, &editdi(n, &m));
}
fn bipartite<G: Graph>(n: usize, a: &Mat, g: &G) {
    // odd[i][j]: a walk of odd length joins i and j
    let mut even = ident(n);
    let mut odd = [[false; N]; N];
    for _ in 0..n {
        let mut e2 = even;
        let mut o2 = odd;
        for i in 0..n {
            for j in 0..n {
                for k in 0..n {
                    e2[i][j] = e2[i][j] | (odd[i][k] & a[k][j]);
                    o2[i][j] = o2[i][j] | (e2[i][k] & a[k][j]);
                }
            }
        }
        even = e2;
        odd = o2;
    }
    let mut oddcycle = false;
    for i in 0..n {
        oddcycle = oddcycle | odd[i][i];
    }
    let w = g.is_bipartite();
    match &w {
        BipartiteWitness::Bipartition(l, r) => {
            check(!oddcycle, 1);
            check(l.len() + r.len() == n, 2);
            for i in 0..n {
                let li = l.contains(&lab(i as u32));
                check(li != r.contains(&lab(i as u32)), 3);
                for j in i..n {
                    check(!a[i][j] | (li != l.contains(&lab(j as u32))), 4);
                }
            }
            cover((n >= 3) & !l.is_empty() & !r.is_empty(), 1);
        }
        BipartiteWitness::OddCycle(c) => {
            check(oddcycle, 5);
            check(c.len() % 2 == 1, 6);
            let mut idx = Vec::with_capacity(16);
            for v in c {
                idx.push(pos(n, v));
            }
            let k = idx.len();
            let mut x = 0;
            while x < k {
                check(idx[x] < n, 7);
                let y = if x + 1 == k { 0 } else { x + 1 };
                check(g.adjacent(&c[x], &c[y]), 8);
                let mut z = x + 1;
                while z < k {
                    check(idx[x] != idx[z], 9);
                    z += 1;
                }
                x += 1;
            }
            cover(k == 3, 2);
            cover(k == 5, 3);
        }
    }
}
