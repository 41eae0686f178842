//! G14-G16: ordered, degenerate and reachability graphs.
use crate::edit::build;
use crate::gb::*;
use crate::ops::full_state;
use crate::util::*;
use crate::wreach::right_within;
use graphbench::algorithms::*;
use graphbench::degengraph::*;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::*;
use graphbench::reachgraph::*;

pub const ABSENT: u32 = 123456;

/// The code-th permutation of 0..n; p[k] is the element at position k.
pub fn permutation(n: usize, code: u32) -> [usize; N] {
    let mut used = [false; N];
    let mut p = [0; N];
    let mut c = code;
    for k in 0..n {
        let f = (n - k) as u32;
        let mut r = c % f;
        c /= f;
        for i in 0..n {
            if !used[i] {
                if r == 0 {
                    used[i] = true;
                    p[k] = i;
                    break;
                }
                r -= 1;
            }
        }
    }
    p
}
pub fn fact(n: usize) -> u32 {
    let mut f = 1;
    for i in 2..=n {
        f *= i as u32;
    }
    f
}
pub fn seq(n: usize, p: &[usize; N]) -> Vec<Vertex> {
    let mut v = Vec::with_capacity(N);
    for k in 0..n {
        v.push(lab(p[k] as u32));
    }
    v
}

/// Everything the LinearGraph interface says about `g` must follow from `a` and the ordering `p` (element at position).
/// Assertion ids b+1...
pub fn check_linear<L: LinearGraph>(g: &L, n: usize, p: &[usize; N], a: &Mat, b: u32, exact_index: bool, neighbours: bool) {
    let mut m = 0u32;
    for i in 0..n {
        for j in 0..i {
            m += a[i][j] as u32;
        }
    }
    check(g.num_vertices() == n, b + 1);
    check(g.num_edges() as u32 == m, b + 2);
    check(g.len() == n, b + 3);
    check(g.is_empty() == (n == 0), b + 4);
    let mut k = 0;
    for v in g.vertices() {
        check((k < n) && *v == lab(p[k] as u32), b + 5);
        k += 1;
    }
    check(k == n, b + 6);
    check(!g.contains(&ABSENT), b + 7);
    check(g.degree(&ABSENT) == 0, b + 8);
    check(g.left_degree(&ABSENT) == 0, b + 9);
    check(g.right_degree(&ABSENT) == 0, b + 10);
    let ld = g.left_degrees();
    let rd = g.right_degrees();
    check(ld.len() == n, b + 11);
    check(rd.len() == n, b + 12);
    let mut maxl = 0u32;
    let mut maxr = 0u32;
    for k in 0..n {
        let v = p[k];
        let lv = lab(v as u32);
        check(g.contains(&lv), b + 13);
        if exact_index {
            check(g.index_of(&lv) == k, b + 14);
        } else if k > 0 {
            check(g.index_of(&lv) > g.index_of(&lab(p[k - 1] as u32)), b + 14);
        }
        let mut dl = 0u32;
        let mut dr = 0u32;
        let ln = g.left_neighbours(&lv);
        let mut last = 0;
        for x in &ln {
            let mut at = 99;
            for q in 0..k {
                if *x == lab(p[q] as u32) {
                    at = q + 1;
                }
            }
            check((at != 99) & (at > last), b + 15);
            last = at;
        }
        for q in 0..n {
            let u = p[q];
            let lu = lab(u as u32);
            check(g.adjacent(&lv, &lu) == a[v][u], b + 16);
            if q < k {
                dl += a[v][u] as u32;
                check(has(&ln, lu) == a[v][u], b + 17);
            } else {
                dr += a[v][u] as u32;
            }
        }
        check(!g.adjacent(&lv, &ABSENT) & !g.adjacent(&ABSENT, &lv), b + 18);
        check(ln.len() as u32 == dl, b + 19);
        check(g.left_degree(&lv) == dl, b + 20);
        check(g.right_degree(&lv) == dr, b + 21);
        check(g.degree(&lv) == dl + dr, b + 22);
        check(ld.get(&lv) == Some(&dl), b + 23);
        check(rd.get(&lv) == Some(&dr), b + 24);
        if dl > maxl {
            maxl = dl;
        }
        if dr > maxr {
            maxr = dr;
        }
        if neighbours {
            let mut c = 0;
            let mut seen = [false; N];
            for u in g.neighbours(&lv) {
                for j in 0..n {
                    if *u == lab(j as u32) {
                        seen[j] = true;
                    }
                }
                c += 1;
            }
            check(c == dl + dr, b + 25);
            for j in 0..n {
                check(seen[j] == a[v][j], b + 26);
            }
        }
    }
    check(g.max_left_degree() == maxl, b + 27);
    check(g.max_right_degree() == maxr, b + 28);
    // extremes of a symbolic vertex set
    let s = sym_set(n, 200);
    let mut q = Vec::with_capacity(N);
    let mut lm = None;
    let mut rm = None;
    for k in 0..n {
        if s[k] {
            q.push(lab(k as u32));
        }
        if s[p[k]] {
            rm = Some(lab(p[k] as u32));
            if lm.is_none() {
                lm = rm;
            }
        }
    }
    check(g.leftmost(q.iter()) == lm, b + 29);
    check(g.rightmost(q.iter()) == rm, b + 30);
}

// ---------------------------------------------------------------- G14
#[no_mangle]
pub fn h_ord() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let code = choice(0, fact(n));
    for c in 0..fact(n) {
        if code == c {
            let p = permutation(n, c);
            let og = OrdGraph::with_ordering(&g, seq(n, &p).iter());
            check_linear(&og, n, &p, &s.a, 0, true, true);
            for k in 0..n {
                let r = og.right_neighbours(&lab(p[k] as u32));
                let mut last = 0;
                let mut cnt = 0u32;
                for x in &r {
                    let mut at = 0;
                    for q in 0..n {
                        if *x == lab(p[q] as u32) {
                            at = q;
                        }
                    }
                    check(at > last.max(k), 41);
                    last = at;
                }
                for q in k..n {
                    check(has(&r, lab(p[q] as u32)) == s.a[p[k]][p[q]], 42);
                    cnt += s.a[p[k]][p[q]] as u32;
                }
                check(r.len() as u32 == cnt, 43);
                cover(cnt == 2, 1);
            }
        }
    }
}
#[no_mangle]
pub fn h_ord_swap() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let mut p = permutation(n, param(2));
    let mut og = OrdGraph::with_ordering(&g, seq(n, &p).iter());
    for t in 0..param(1) {
        let cu = choice(2 * t, n as u32 + 1) as usize;
        let cv = choice(2 * t + 1, n as u32 + 1) as usize;
        let u = if cu < n { lab(cu as u32) } else { ABSENT };
        let v = if cv < n { lab(cv as u32) } else { ABSENT };
        og.swap(&u, &v);
        let mut ku = 99;
        let mut kv = 99;
        for k in 0..n {
            if p[k] == cu {
                ku = k;
            }
            if p[k] == cv {
                kv = k;
            }
        }
        let mut o = p;
        for k in 0..n {
            if ku != 99 && kv != 99 {
                if k == ku {
                    o[k] = cv;
                }
                if k == kv {
                    o[k] = cu;
                }
            }
        }
        p = o;
    }
    // the ordering reached is one of the n! orderings
    for c in 0..fact(n) {
        let q = permutation(n, c);
        let mut is = true;
        for k in 0..n {
            is = is & (q[k] == p[k]);
        }
        if is {
            check_linear(&og, n, &q, &s.a, 0, true, true);
            for k in 0..n {
                let r = og.right_neighbours(&lab(q[k] as u32));
                for j in 0..n {
                    check(has(&r, lab(q[j] as u32)) == ((j > k) & s.a[q[k]][q[j]]), 42);
                }
            }
            cover(c > 0, 1);
        }
    }
}
#[no_mangle]
pub fn h_ord_degen() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let og = OrdGraph::by_degeneracy(&g);
    let c = crate::algo::cores(n, &s.a);
    let mut d = 0u32;
    for k in 1..=n {
        d += (count(n, &c[k]) > 0) as u32;
    }
    check(og.num_vertices() == n, 51);
    check(og.max_left_degree() == d, 52);
    for cd in 0..fact(n) {
        let q = permutation(n, cd);
        let mut is = true;
        for k in 0..n {
            is = is & (og.index_of(&lab(q[k] as u32)) == k);
        }
        if is {
            check_linear(&og, n, &q, &s.a, 0, true, true);
            cover(n >= 3, 1);
        }
    }
}

// ---------------------------------------------------------------- G15
fn check_degen(dg: &DegenGraph, n: usize, p: &[usize; N], a: &Mat, b: u32) {
    check_linear(dg, n, p, a, b, false, true);
    check(dg.first() == if n == 0 { None } else { Some(lab(p[0] as u32)) }, b + 31);
    let mut k = 0;
    for (v, l) in dg.iter() {
        check((k < n) && v == lab(p[k] as u32), b + 32);
        if k < n {
            let mut c = 0;
            for q in 0..n {
                let x = (q < k) & a[p[k]][p[q]];
                check(has(l, lab(p[q] as u32)) == x, b + 33);
                c += x as usize;
            }
            check(l.len() == c, b + 34);
        }
        k += 1;
    }
    check(k == n, b + 35);
    for k in 0..n {
        let lv = lab(p[k] as u32);
        check(dg.left_neighbours_slice(&lv) == &dg.left_neighbours(&lv)[..], b + 36);
        let r = dg.right_neighbours(&lv);
        let mut c = 0;
        for q in 0..n {
            let x = (q > k) & a[p[k]][p[q]];
            check(r.contains(&lab(p[q] as u32)) == x, b + 37);
            check(dg.adjacent_ordered(&lv, &lab(p[q] as u32)) == x, b + 38);
            c += x as usize;
        }
        check(r.len() == c, b + 39);
        check(!dg.adjacent_ordered(&lv, &ABSENT) & !dg.adjacent_ordered(&ABSENT, &lv), b + 40);
    }
    let mut ec = 0;
    for (u, v) in dg.edges() {
        let (i, j) = (pos(n, &u), pos(n, &v));
        check(i < n && j < n && a[i][j], b + 41);
        ec += 1;
    }
    check(ec == dg.num_edges(), b + 42);
}
#[no_mangle]
pub fn h_dg_order() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let code = choice(0, fact(n));
    for c in 0..fact(n) {
        if code == c {
            let p = permutation(n, c);
            let dg = DegenGraph::with_ordering(&g, seq(n, &p).iter());
            check_degen(&dg, n, &p, &s.a, 0);
            cover((n >= 3) & s.a[0][1] & s.a[0][2], 1);
        }
    }
}
/// Conversion from an ordered graph, a clone, and a hand-driven builder.
#[no_mangle]
pub fn h_dg_convert() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let p = permutation(n, param(2));
    let og = OrdGraph::with_ordering(&g, seq(n, &p).iter());
    let how = choice(0, 3);
    if how == 0 {
        let dg = og.to_degeneracy_graph();
        check_degen(&dg, n, &p, &s.a, 0);
    } else if how == 1 {
        let dg = og.to_degeneracy_graph().clone();
        check_degen(&dg, n, &p, &s.a, 100);
    } else {
        let mut b = DegenGraphBuilder::new();
        for k in 0..n {
            let mut l = Vec::with_capacity(N);
            for q in 0..k {
                if s.a[p[k]][p[q]] {
                    l.push(lab(p[q] as u32));
                }
            }
            b.append(&lab(p[k] as u32), &l);
        }
        let dg = b.build();
        check_degen(&dg, n, &p, &s.a, 200);
    }
    cover(n >= 2 && s.a[0][1], 1);
}
#[no_mangle]
pub fn h_dg_from() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let dg = DegenGraph::from_graph(&g);
    check(dg.num_vertices() == n, 51);
    let c = crate::algo::cores(n, &s.a);
    let mut d = 0u32;
    for k in 1..=n {
        d += (count(n, &c[k]) > 0) as u32;
    }
    check(dg.max_left_degree() == d, 52);
    let mut at = [99usize; N];
    let mut k = 0;
    for v in dg.vertices() {
        for i in 0..n {
            if *v == lab(i as u32) {
                at[i] = k;
            }
        }
        k += 1;
    }
    for cd in 0..fact(n) {
        let q = permutation(n, cd);
        let mut is = true;
        for k in 0..n {
            is = is & (at[q[k]] == k);
        }
        if is {
            check_degen(&dg, n, &q, &s.a, 0);
            cover(n >= 3, 1);
        }
    }
}
#[no_mangle]
pub fn h_dg_norm() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let p = permutation(n, param(2));
    let mut dg = DegenGraph::with_ordering(&g, seq(n, &p).iter());
    let map = dg.normalize();
    check(map.len() == n, 1);
    check(dg.num_vertices() == n, 2);
    let mut m = 0;
    let mut k = 0u32;
    for v in dg.vertices() {
        check(*v == k, 3);
        k += 1;
    }
    check(k as usize == n, 4);
    for k in 0..n {
        check(map.get(&(k as u32)) == Some(&lab(p[k] as u32)), 5);
        let l = dg.left_neighbours(&(k as u32));
        let r = dg.right_neighbours(&(k as u32));
        let mut c = 0;
        let mut rc = 0;
        for q in 0..n {
            let x = s.a[p[k]][p[q]];
            check(dg.adjacent(&(k as u32), &(q as u32)) == x, 6);
            if q < k {
                check(has(&l, q as u32) == x, 7);
                c += x as usize;
                m += x as usize;
            }
            if q > k {
                check(r.contains(&(q as u32)) == x, 8);
                rc += x as usize;
            }
        }
        check(l.len() == c, 9);
        check(r.len() == rc, 10);
        check(dg.degree(&(k as u32)) as usize == c + rc, 11);
        let mut x = 1;
        while x < l.len() {
            check(l[x - 1] < l[x], 12);
            x += 1;
        }
        check(dg.contains(&(k as u32)), 13);
    }
    check(dg.num_edges() == m, 14);
    check(dg.first() == if n == 0 { None } else { Some(0) }, 15);
    let mut k = 0u32;
    for (v, l) in dg.iter() {
        check(v == k, 16);
        check(l == &dg.left_neighbours(&v)[..], 17);
        k += 1;
    }
    cover(n >= 2 && s.a[0][1], 1);
}

// ---------------------------------------------------------------- G16
fn reach_ok<const R: usize>(rg: &ReachGraph<R>, n: usize, p: &[usize; N], a: &Mat, le: &[Mat; N]) {
    // le[t][i][j]: position i (< j) is reachable from position j within t steps
    check(rg.depth() == R, 31);
    check(rg.first() == if n == 0 { None } else { Some(lab(p[0] as u32)) }, 32);
    check_linear(rg, n, p, a, 0, false, false);
    let mut k = 0;
    for (v, w) in rg.iter() {
        check((k < n) && v == lab(p[k] as u32), 33);
        if k < n {
            one_ok(&w, n, p, k, le);
        }
        k += 1;
    }
    check(k == n, 34);
    for k in 0..n {
        let lv = lab(p[k] as u32);
        let w = rg.reachables(&lv);
        one_ok(&w, n, p, k, le);
        let all = rg.reachables_all(&lv);
        check(all.len() == w.len(), 35);
        let mut x = 0;
        for t in 1..=R {
            for y in w.at(t) {
                check(x < all.len() && all[x] == *y, 36);
                x += 1;
            }
        }
        match rg.next_reachables(&lv) {
            Some(w) => {
                check(k + 1 < n, 37);
                if k + 1 < n {
                    one_ok(&w, n, p, k + 1, le);
                }
            }
            None => check(k + 1 == n, 38),
        }
    }
}
fn one_ok<const R: usize>(w: &Reachables<R>, n: usize, p: &[usize; N], k: usize, le: &[Mat; N]) {
    let mut total = 0u32;
    for t in 1..=R {
        let l = w.at(t);
        let mut c = 0u32;
        for i in 0..k {
            let x = le[t][i][k] & !le[t - 1][i][k];
            check(has(l, lab(p[i] as u32)) == x, 41);
            c += x as u32;
        }
        check(l.len() as u32 == c, 42);
        let mut last = 0;
        for x in l {
            let mut at = 0;
            for q in 0..n {
                if *x == lab(p[q] as u32) {
                    at = q + 1;
                }
            }
            check(at > last, 43);
            last = at;
        }
        total += c;
        cover(c == 2, 1);
    }
    check(w.len() as u32 == total, 44);
    check(w.is_empty() == (total == 0), 45);
}
fn reach_w<const R: usize>(og: &OrdGraph, n: usize, p: &[usize; N], a: &Mat) {
    let b = by_pos(n, p, a);
    let d = right_within(n, &b, R);
    reach_ok(&og.to_wreach_graph::<R>(), n, p, a, &strict(n, &d, R));
}
fn strict(n: usize, d: &[Mat; N], r: usize) -> [Mat; N] {
    let mut o = [[[false; N]; N]; N];
    for t in 1..=r {
        for i in 0..n {
            for j in i + 1..n {
                o[t][i][j] = d[t][i][j];
            }
        }
    }
    o
}
fn by_pos(n: usize, p: &[usize; N], a: &Mat) -> Mat {
    let mut b = [[false; N]; N];
    for i in 0..n {
        for j in 0..n {
            b[i][j] = a[p[i]][p[j]];
        }
    }
    b
}
fn reach_s<const R: usize>(og: &OrdGraph, n: usize, p: &[usize; N], a: &Mat) {
    let b = by_pos(n, p, a);
    let d = right_within(n, &b, R);
    let mut le = [[[false; N]; N]; N];
    for t in 1..=R {
        for j in 0..n {
            for i in 0..j {
                let mut x = false;
                for k in j..n {
                    x = x | (d[t - 1][j][k] & b[k][i]);
                }
                le[t][i][j] = x;
            }
        }
    }
    reach_ok(&og.to_sreach_graph::<R>(), n, p, a, &le);
}
fn reach_setup() -> (usize, [usize; N], Mat, OrdGraph) {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    let p = permutation(n, param(2));
    let og = OrdGraph::with_ordering(&g, seq(n, &p).iter());
    (n, p, s.a, og)
}
#[no_mangle]
pub fn h_reach_w() {
    let (n, p, a, og) = reach_setup();
    match param(1) {
        1 => reach_w::<1>(&og, n, &p, &a),
        2 => reach_w::<2>(&og, n, &p, &a),
        3 => reach_w::<3>(&og, n, &p, &a),
        _ => reach_w::<4>(&og, n, &p, &a),
    }
}
#[no_mangle]
pub fn h_reach_s() {
    let (n, p, a, og) = reach_setup();
    match param(1) {
        1 => reach_s::<1>(&og, n, &p, &a),
        2 => reach_s::<2>(&og, n, &p, &a),
        3 => reach_s::<3>(&og, n, &p, &a),
        _ => reach_s::<4>(&og, n, &p, &a),
    }
}
