//! Guarded values.
use crate::bdd::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    /// undefined (uninitialised, poison)
    U,
    /// the same constant on every path
    C(u128),
    /// a constant per (disjoint) condition; undefined elsewhere
    S(Rc<Vec<(G, u128)>>),
}

pub fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}

pub fn build(b: &mut Bdd, mut v: Vec<(G, u128)>) -> Val {
    match v.len() {
        0 => return Val::U,
        1 => return Val::C(v[0].1),
        _ => {}
    }
    v.sort_unstable_by_key(|x| x.1);
    let mut out: Vec<(G, u128)> = Vec::with_capacity(v.len());
    for (g, c) in v {
        match out.last_mut() {
            Some(l) if l.1 == c => l.0 = b.or(l.0, g),
            _ => out.push((g, c)),
        }
    }
    if out.len() == 1 {
        Val::C(out[0].1)
    } else {
        Val::S(Rc::new(out))
    }
}

pub fn restrict(b: &mut Bdd, v: &Val, g: G) -> Val {
    match v {
        Val::S(p) if g != T => {
            let mut out = Vec::with_capacity(p.len());
            let mut same = true;
            for &(h, c) in p.iter() {
                let x = b.and(h, g);
                if x != h {
                    same = false;
                }
                if x != F {
                    out.push((x, c));
                }
            }
            if same {
                return v.clone();
            }
            match out.len() {
                0 => Val::U,
                1 => Val::C(out[0].1),
                _ => Val::S(Rc::new(out)),
            }
        }
        _ => v.clone(),
    }
}

/// Disjoint (condition, constant) pairs of a value under `g`.
pub fn parts(b: &mut Bdd, v: &Val, g: G) -> Vec<(G, u128)> {
    match v {
        Val::U => vec![],
        Val::C(c) => vec![(g, *c)],
        Val::S(p) => {
            let mut out = Vec::with_capacity(p.len());
            for &(h, c) in p.iter() {
                let x = b.and(h, g);
                if x != F {
                    out.push((x, c));
                }
            }
            out
        }
    }
}

pub fn map1(b: &mut Bdd, v: &Val, f: impl Fn(u128) -> Option<u128>) -> Val {
    match v {
        Val::U => Val::U,
        Val::C(c) => f(*c).map(Val::C).unwrap_or(Val::U),
        Val::S(p) => {
            let mut out = Vec::with_capacity(p.len());
            for &(g, c) in p.iter() {
                if let Some(x) = f(c) {
                    out.push((g, x));
                }
            }
            build(b, out)
        }
    }
}

pub fn map2(b: &mut Bdd, x: &Val, y: &Val, f: impl Fn(u128, u128) -> Option<u128>) -> Val {
    match (x, y) {
        (Val::U, _) | (_, Val::U) => Val::U,
        (Val::C(c), Val::C(d)) => f(*c, *d).map(Val::C).unwrap_or(Val::U),
        (Val::S(_), Val::C(d)) => map1(b, x, |c| f(c, *d)),
        (Val::C(c), Val::S(_)) => map1(b, y, |d| f(*c, d)),
        (Val::S(p), Val::S(q)) => {
            let mut out = Vec::with_capacity(p.len() + q.len());
            if Rc::ptr_eq(p, q) {
                for &(g, c) in p.iter() {
                    if let Some(v) = f(c, c) {
                        out.push((g, v));
                    }
                }
                return build(b, out);
            }
            for &(g, c) in p.iter() {
                let mut left = g;
                for &(h, d) in q.iter() {
                    if left == F {
                        break;
                    }
                    let z = b.and(left, h);
                    if z != F {
                        if let Some(v) = f(c, d) {
                            out.push((z, v));
                        }
                        left = b.diff(left, h);
                    }
                }
            }
            build(b, out)
        }
    }
}

/// The value `new` under `g`, `old` under `rest`.
pub fn merge(b: &mut Bdd, old: &Val, new: &Val, g: G, rest: G) -> Val {
    if rest == F {
        return new.clone();
    }
    match (old, new) {
        (Val::U, _) => new.clone(),
        (Val::C(a), Val::C(c)) if a == c => new.clone(),
        _ => {
            let mut o = parts(b, old, rest);
            o.extend(parts(b, new, g));
            build(b, o)
        }
    }
}

/// Like map2, but an operand that is undefined where the other is not counts as 0 (padding of packed values).
pub fn map2_or(b: &mut Bdd, x: &Val, y: &Val, g: G, f: impl Fn(u128, u128) -> Option<u128>) -> Val {
    let xs = match x {
        Val::U => return map1(b, y, |d| f(0, d)),
        Val::C(_) => None,
        Val::S(p) => Some(p.clone()),
    };
    let ys = match y {
        Val::U => return map1(b, x, |c| f(c, 0)),
        Val::C(_) => None,
        Val::S(p) => Some(p.clone()),
    };
    let both = map2(b, x, y, &f);
    let dom = |b: &mut Bdd, p: &Option<Rc<Vec<(G, u128)>>>| -> G {
        match p {
            None => g,
            Some(p) => {
                let mut d = F;
                for (h, _) in p.iter() {
                    d = b.or(d, *h);
                }
                d
            }
        }
    };
    if xs.is_none() && ys.is_none() {
        return both;
    }
    let (dx, dy) = (dom(b, &xs), dom(b, &ys));
    let (ox, oy) = (b.diff(dx, dy), b.diff(dy, dx));
    if ox == F && oy == F {
        return both;
    }
    let gb = b.and(dx, dy);
    let mut out = parts(b, &both, gb);
    for (h, c) in parts(b, x, ox) {
        if let Some(v) = f(c, 0) {
            out.push((h, v));
        }
    }
    for (h, d) in parts(b, y, oy) {
        if let Some(v) = f(0, d) {
            out.push((h, v));
        }
    }
    build(b, out)
}
