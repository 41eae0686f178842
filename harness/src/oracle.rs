//! G25: the strong-reachability trace oracle.
use crate::edit::build;
use crate::gb::*;
use crate::ops::full_state;
use crate::ord::{permutation, seq};
use crate::util::*;
use graphbench::datastructures::*;
use graphbench::degengraph::*;
use graphbench::graph::*;

/// p2 = ordering, p1 = block of query sets: the sets whose code is p1 modulo p3
#[no_mangle]
pub fn h_traces() {
    let n = param(0) as usize;
    order(n as u32);
    let s = full_state(n, 0, false);
    let g = build(&s);
    // p[i] = vertex at position i
    let p = permutation(n, param(2));
    let d = DegenGraph::with_ordering(&g, seq(n, &p).iter());
    let o = SReachTraceOracle::for_graph(&d);
    for m in 0usize..1 << n {
        if m as u32 % param(3) == param(1) {
            query(n, &p, &s.a, &d, &o, m);
        }
    }
    if n > 0 {
        cover(s.a[0][n - 1], 2);
    }
}
fn query(n: usize, p: &[usize; N], a: &Mat, d: &DegenGraph, o: &SReachTraceOracle, m: usize) {
    let mut x = Vec::with_capacity(N);
    let mut k = 0;
    for i in 0..n {
        if m >> i & 1 == 1 {
            x.push(lab(p[i] as u32));
            k += 1;
        }
    }
    let tr = o.compute_traces(&x, d);
    let nc = o.compute_neighbour_count(&x, d);
    let mut sum = 0u32;
    for (_, c) in tr.iter() {
        sum += *c as u32;
    }
    check(sum == (n - k) as u32, 1);
    let mut any = 0u32;
    let mut shat = [true; 3];
    for t in 0usize..1 << n {
        if t & !m == 0 {
            let mut key = Vec::with_capacity(N);
            for i in 0..n {
                if t >> i & 1 == 1 {
                    key.push(lab(p[i] as u32));
                }
            }
            let mut want = 0u32;
            for y in 0..n {
                if m >> y & 1 == 0 {
                    let mut ok = true;
                    for i in 0..n {
                        if m >> i & 1 == 1 {
                            ok = ok & (a[p[y]][p[i]] == (t >> i & 1 == 1));
                        }
                    }
                    want += ok as u32;
                }
            }
            check(tr.get(&key).copied().unwrap_or(0) as u32 == want, 2);
            if t > 0 {
                any += want;
            }
            for q in 0..3 {
                shat[q] = shat[q] & (want >= 1 << q);
            }
        }
    }
    check(nc as u32 == any, 3);
    // the shattering query takes the set in any order and asks for 2^(k'-|X|) witnesses per subset
    x.reverse();
    for q in 0..3 {
        let r = o.is_shattered(x.iter(), (k + q) as u32, d);
        check(r == shat[q], 4);
        cover(r & (k > 0), 1);
    }
}
