//! G26: vertex-or-edge intersection, vertex maps, colourings.
use crate::gb::*;
use crate::util::*;
use fxhash::FxHashMap;
use graphbench::graph::*;

fn l(i: usize) -> u32 {
    lab(i as u32)
}
/// kind: vertex a, or edge (a, b)
fn obj(edge: bool, a: usize, b: usize) -> VertexOrEdge {
    if edge {
        VertexOrEdge::E((l(a), l(b)))
    } else {
        VertexOrEdge::V(l(a))
    }
}
/// p0 = number of ids to choose from
#[no_mangle]
pub fn h_voe() {
    let n = param(0) as usize;
    let ex = bool_(0);
    let ey = bool_(1);
    let (a, b, c, d) = (choice(0, n as u32) as usize, choice(1, n as u32) as usize, choice(2, n as u32) as usize, choice(3, n as u32) as usize);
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                for m in 0..n {
                    if (a == i) & (b == j) & (c == k) & (d == m) {
                        pair(obj(ex, i, j), obj(ey, k, m), ex, ey, l(i), l(j), l(k), l(m));
                    }
                }
            }
        }
    }
}
fn pair(x: VertexOrEdge, y: VertexOrEdge, ex: bool, ey: bool, a: u32, b: u32, c: u32, d: u32) {
    check(x.is_edge() == ex, 1);
    check(x.is_vertex() != ex, 1);
    check(x.as_vertex().is_some() != ex, 2);
    check(x.as_edge().is_some() == ex, 2);
    let i1 = x.intersection(y);
    let i2 = y.intersection(x);
    // common vertices: p says whether a (b) belongs to y
    let in_y = |v: u32| (v == c) | (ey & (v == d));
    let in_x = |v: u32| (v == a) | (ex & (v == b));
    let same_edge = ex & ey & (((a == c) & (b == d)) | ((a == d) & (b == c)));
    let pa = in_y(a);
    let pb = ex & in_y(b);
    check(i1.is_some() == (pa | pb), 3);
    check(i2.is_some() == (pa | pb), 3);
    check(x.intersects(y) == (pa | pb), 4);
    check(y.intersects(x) == (pa | pb), 4);
    for (k, r) in [i1, i2].iter().enumerate() {
        if let Some(z) = r {
            check(z.is_edge() == same_edge, 5);
            match z {
                VertexOrEdge::V(v) => {
                    check(in_x(*v) & in_y(*v), 6);
                    cover(ex & ey, 1);
                }
                VertexOrEdge::E((p, q)) => {
                    check(((*p == a) & (*q == b)) | ((*p == b) & (*q == a)), 7);
                    cover((k == 1) & (a != b) & (a == d), 2);
                }
            }
        }
    }
    if let Some(v) = x.as_vertex() {
        check(v == a, 8);
    }
    if let Some(e) = x.as_edge() {
        check(e == (a, b), 8);
    }
}

const V: usize = 4;
/// Values of maps and colours: a table chosen by p3.
fn val(k: usize) -> u32 {
    match param(3) {
        0 => k as u32,
        1 => [7, 0, 4000000000, 7000][k],
        _ => [100, 3, 50, 49][k],
    }
}
/// A partial map on n vertices with k values; m[i][c] = vertex i has value c.
fn sym_map(n: usize, k: usize, base: u32) -> (VertexMap<u32>, [[bool; V]; N]) {
    let mut r = VertexMap::default();
    let mut m = [[false; V]; N];
    for i in 0..n {
        let c = pick(base + i as u32, k as u32 + 1, n as u32);
        for j in 0..k {
            m[i][j] = c == j as u32;
            if m[i][j] {
                r.insert(l(i), val(j));
            }
        }
    }
    (r, m)
}
fn dom(n: usize, k: usize, m: &[[bool; V]; N]) -> Row {
    let mut d = [false; N];
    for i in 0..n {
        for j in 0..k {
            d[i] = d[i] | m[i][j];
        }
    }
    d
}
fn groups(n: usize, k: usize, m: &[[bool; V]; N], inv: &FxHashMap<u32, VertexSet>, maj: &Option<(VertexSet, u32)>) {
    let mut cls = 0u32;
    let mut best = 0u32;
    for j in 0..k {
        let mut row = [false; N];
        for i in 0..n {
            row[i] = m[i][j];
        }
        let sz = count(n, &row);
        best = if sz > best { sz } else { best };
        cls += (sz > 0) as u32;
        match inv.get(&val(j)) {
            Some(s) => check((sz > 0) & same_set(n, s, &row), 10),
            None => check(sz == 0, 10),
        }
        if let Some((s, v)) = maj {
            check((*v != val(j)) | same_set(n, s, &row), 11);
        }
    }
    check(inv.len() as u32 == cls, 12);
    check(maj.is_some() == (best > 0), 13);
    if let Some((s, v)) = maj {
        check(s.len() as u32 == best, 14);
        let mut known = false;
        for j in 0..k {
            known = known | (*v == val(j));
        }
        check(known, 15);
    }
    cover((cls > 1) & (best > 1), 1);
}
/// p0 = vertices, p1 = values
#[no_mangle]
pub fn h_vmap() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    order(n as u32);
    let (map, m) = sym_map(n, k, 0);
    groups(n, k, &m, &map.invert(), &map.majority_set());
    let d = dom(n, k, &m);
    let col: VertexColouring<u32> = VertexColouring::from(map.clone());
    groups(n, k, &m, &col.invert(), &col.majority_set());
    colouring(n, k, &m, &col);
    check(col.as_map() == map, 20);
    cover(count(n, &d) == 0, 2);
}
/// Every query of the colouring agrees with m.
fn colouring(n: usize, k: usize, m: &[[bool; V]; N], col: &VertexColouring<u32>) {
    let d = dom(n, k, m);
    check(col.len() as u32 == count(n, &d), 21);
    let mut want = [0u32; N];
    for i in 0..n {
        check(col.contains(&l(i)) == d[i], 22);
        let g = col.get(&l(i)).copied();
        check(g.is_some() == d[i], 23);
        if let Some(c) = g {
            check(col[&l(i)] == c, 24);
        }
        for j in 0..k {
            check((g == Some(val(j))) == m[i][j], 23);
        }
        want[i] = d[i] as u32;
    }
    let mut seen = [0u32; N];
    for v in col.vertices() {
        for i in 0..n {
            seen[i] += (*v == l(i)) as u32;
        }
    }
    let mut it = [0u32; N];
    for (v, c) in col.iter() {
        for i in 0..n {
            if *v == l(i) {
                it[i] += 1;
                for j in 0..k {
                    check((*c == val(j)) == m[i][j], 25);
                }
            }
        }
    }
    for i in 0..n {
        check(seen[i] == want[i], 26);
        check(it[i] == want[i], 26);
    }
    let mut cs = [0u32; V];
    let mut tot = 0;
    for c in col.colours() {
        tot += 1;
        for j in 0..k {
            cs[j] += (*c == val(j)) as u32;
        }
    }
    let mut w = 0;
    for j in 0..k {
        let mut any = false;
        for i in 0..n {
            any = any | m[i][j];
        }
        w += any as u32;
        check(cs[j] == any as u32, 27);
    }
    check(tot == w, 27);
}
/// Building, inserting, restricting.
#[no_mangle]
pub fn h_colouring() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    order(n as u32);
    let mut m = [[false; V]; N];
    let mut list = Vec::with_capacity(N);
    let mut sets: Vec<VertexSet> = Vec::with_capacity(V);
    for _ in 0..k {
        sets.push(VertexSet::default());
    }
    for i in 0..n {
        let c = pick(i as u32, k as u32 + 1, n as u32);
        for j in 0..k {
            m[i][j] = c == j as u32;
            if m[i][j] {
                list.push((l(i), val(j)));
                sets[j].insert(l(i));
            }
        }
    }
    let mut col: VertexColouring<u32> = VertexColouring::from_iter(list);
    colouring(n, k, &m, &col);
    let fs: VertexColouring<u32> = VertexColouring::from_sets(sets);
    for i in 0..n {
        for j in 0..k {
            check((fs.get(&l(i)).copied() == Some(j as u32)) == m[i][j], 30);
        }
    }
    check(fs.len() == col.len(), 30);
    // restriction to a subset; uncoloured vertices are ignored
    let mut s = [false; N];
    for i in 0..n {
        s[i] = pick(100 + i as u32, 2, n as u32) == 1;
    }
    let sub = col.subset(vset(n, &s).iter());
    let mut ms = m;
    for i in 0..n {
        for j in 0..k {
            ms[i][j] = m[i][j] & s[i];
        }
    }
    colouring(n, k, &ms, &sub);
    // recolouring one vertex
    let v = choice(50, if n < 6 { n as u32 } else { 3 }) as usize;
    for i in 0..n {
        if v == i {
            let old = col.insert(l(i), val(0));
            for j in 0..k {
                check((old == Some(val(j))) == m[i][j], 31);
            }
            for j in 0..k {
                m[i][j] = j == 0;
            }
        }
    }
    colouring(n, k, &m, &col);
    cover(s[0] & m[0][1], 1);
}
/// Extending one colouring by another.
#[no_mangle]
pub fn h_extend() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    order(n as u32);
    let (a, ma) = sym_map(n, k, 0);
    let (b, mb) = sym_map(n, k, 20);
    let (da, db) = (dom(n, k, &ma), dom(n, k, &mb));
    let mut ca: VertexColouring<u32> = VertexColouring::from(a);
    let cb: VertexColouring<u32> = VertexColouring::from(b);
    ca.disjoint_extend(&cb);
    colouring(n, k, &mb, &cb);
    extended(n, k, &ma, &mb, &da, &db, |i| ca.get(&l(i)).copied().map(|c| c as i64), |j| val(j) as i64);
    let mut u = [false; N];
    for i in 0..n {
        u[i] = da[i] | db[i];
    }
    check(ca.len() as u32 == count(n, &u), 40);
}
fn extended(n: usize, k: usize, ma: &[[bool; V]; N], mb: &[[bool; V]; N], da: &Row, db: &Row, get: impl Fn(usize) -> Option<i64>, val: impl Fn(usize) -> i64) {
    let mut used = [false; V];
    for i in 0..n {
        for j in 0..k {
            used[j] = used[j] | ma[i][j];
        }
    }
    for i in 0..n {
        let c = get(i);
        check(c.is_some() == (da[i] | db[i]), 41);
        for j in 0..k {
            check(!ma[i][j] | (c == Some(val(j))), 42);
            // new vertices have new colours
            check(da[i] | !db[i] | !used[j] | (c != Some(val(j))), 43);
        }
        for x in 0..i {
            let both = db[i] & db[x] & !da[i] & !da[x];
            let mut same = false;
            for j in 0..k {
                same = same | (mb[i][j] & mb[x][j]);
            }
            check(!both | ((get(x) == c) == same), 44);
            cover(both & same & da[0], 1);
        }
    }
}
/// Colours next to the largest number.
#[no_mangle]
pub fn h_extend_max() {
    let n = param(0) as usize;
    let v = |j: usize| -> u32 { [u32::MAX - 1, u32::MAX, 3, 0][j] };
    let mut ca: VertexColouring<u32> = VertexColouring::default();
    let mut cb: VertexColouring<u32> = VertexColouring::default();
    let mut ma = [[false; V]; N];
    let mut mb = [[false; V]; N];
    for i in 0..n {
        let c = choice(i as u32, 4);
        let d = choice(20 + i as u32, 4);
        for j in 0..3 {
            ma[i][j] = c == j as u32;
            mb[i][j] = d == j as u32;
            if ma[i][j] {
                ca.insert(l(i), v(j));
            }
            if mb[i][j] {
                cb.insert(l(i), v(j));
            }
        }
    }
    let (da, db) = (dom(n, 3, &ma), dom(n, 3, &mb));
    ca.disjoint_extend(&cb);
    extended(n, 3, &ma, &mb, &da, &db, |i| ca.get(&l(i)).copied().map(|c| c as i64), |j| v(j) as i64);
}
/// The same with signed colours, some of them negative.
#[no_mangle]
pub fn h_extend_signed() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    order(n as u32);
    let v = |j: usize| -> i32 { [0, -1, 5, -7][j] };
    let mut ca: VertexColouring<i32> = VertexColouring::default();
    let mut cb: VertexColouring<i32> = VertexColouring::default();
    let mut ma = [[false; V]; N];
    let mut mb = [[false; V]; N];
    for i in 0..n {
        let c = pick(i as u32, k as u32 + 1, n as u32);
        let d = pick(20 + i as u32, k as u32 + 1, n as u32);
        for j in 0..k {
            ma[i][j] = c == j as u32;
            mb[i][j] = d == j as u32;
            if ma[i][j] {
                ca.insert(l(i), v(j));
            }
            if mb[i][j] {
                cb.insert(l(i), v(j));
            }
        }
    }
    let (da, db) = (dom(n, k, &ma), dom(n, k, &mb));
    ca.disjoint_extend(&cb);
    extended(n, k, &ma, &mb, &da, &db, |i| ca.get(&l(i)).copied().map(|c| c as i64), |j| v(j) as i64);
}
