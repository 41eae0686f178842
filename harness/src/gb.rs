//! Interface between harnesses and the checker.
//!
//! Under `--cfg graphbench_symex` the inputs are symbolic and the calls are interpreted by the engine; otherwise
//! (native replay) they are read from a model.
#[cfg(graphbench_symex)]
mod imp {
    extern "C" {
        fn gb_bool_raw(id: u32) -> bool;
        fn gb_choice_raw(id: u32, n: u32) -> u32;
        fn gb_assume_raw(c: bool);
        fn gb_assert_raw(c: bool, id: u32);
        fn gb_cover_raw(c: bool, id: u32);
        fn gb_param_raw(id: u32) -> u32;
    }
    /// A symbolic condition.
    #[inline]
    pub fn bool_(id: u32) -> bool {
        unsafe { gb_bool_raw(id) }
    }
    /// A symbolic number in 0..n.
    #[inline]
    pub fn choice(id: u32, n: u32) -> u32 {
        unsafe { gb_choice_raw(id, n) }
    }
    #[inline]
    pub fn assume(c: bool) {
        unsafe { gb_assume_raw(c) }
    }
    /// The property: `c` has to hold on every path.
    #[inline]
    pub fn check(c: bool, id: u32) {
        unsafe { gb_assert_raw(c, id) }
    }
    /// Reachability witness: some path must reach this point with `c`.
    #[inline]
    pub fn cover(c: bool, id: u32) {
        unsafe { gb_cover_raw(c, id) }
    }
    /// A concrete bound of this run.
    #[inline]
    pub fn param(id: u32) -> u32 {
        unsafe { gb_param_raw(id) }
    }
    /// Vertex labels used by the run.
    pub fn lab(i: u32) -> u32 {
        super::label(unsafe { gb_param_raw(99) }, i)
    }
    /// Fixes the order in which hash containers are traversed: a permutation of the labels 0..n chosen by the run.
    pub fn order(n: u32) {
        let o = unsafe { gb_param_raw(98) };
        let mut s: fxhash::FxHashSet<u32> = Default::default();
        let mut i = 0;
        while i < n {
            s.insert(lab(super::perm(o, n, i)));
            i += 1;
        }
    }
}

#[cfg(not(graphbench_symex))]
mod imp {
    use std::cell::RefCell;
    use std::collections::{HashMap, HashSet};
    #[derive(Default)]
    pub struct Model {
        pub vars: HashSet<String>,
        pub params: HashMap<u32, u32>,
        pub labels: Vec<u32>,
        pub fails: Vec<u32>,
    }
    thread_local! {
        pub static M: RefCell<Model> = RefCell::new(Model::default());
    }
    pub struct AssumeFailed;
    pub fn bool_(id: u32) -> bool {
        M.with(|m| m.borrow().vars.contains(&format!("b{}", id)))
    }
    pub fn choice(id: u32, n: u32) -> u32 {
        let mut code = 0;
        let mut bits = 0;
        while (1u64 << bits) < n as u64 {
            if M.with(|m| m.borrow().vars.contains(&format!("c{}_{}", id, bits))) {
                code |= 1 << bits;
            }
            bits += 1;
        }
        code.min(n - 1)
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUME");
            std::process::exit(4);
        }
    }
    pub fn check(c: bool, id: u32) {
        if !c {
            println!("FAIL {}", id);
            M.with(|m| m.borrow_mut().fails.push(id));
        }
    }
    pub fn cover(_c: bool, _id: u32) {}
    pub fn param(id: u32) -> u32 {
        M.with(|m| match m.borrow().params.get(&id) {
            Some(p) => *p,
            None if id >= 90 => 0,
            None => panic!("parameter"),
        })
    }
    pub fn lab(i: u32) -> u32 {
        M.with(|m| {
            let m = m.borrow();
            match m.labels.get(i as usize) {
                Some(l) => *l,
                None => super::label(*m.params.get(&99).unwrap_or(&0), i),
            }
        })
    }
    pub fn order(_n: u32) {}
}
pub use imp::*;

/// Label tables: 0 = small consecutive numbers, 1 = extremes, 2 = gaps, 3 = descending.
pub fn label(set: u32, i: u32) -> u32 {
    const X: [u32; 12] = [u32::MAX, 0, 1 << 31, 65536, 1, u32::MAX - 1, 65535, 7, 1 << 16 | 1, 255, 1 << 30, 100];
    match set {
        1 => X[(i % 12) as usize],
        2 => 3 + 10 * i,
        3 => 1000 - i,
        _ => i,
    }
}

/// The i-th element of permutation `o` of 0..n.
pub fn perm(o: u32, n: u32, i: u32) -> u32 {
    match o {
        0 => i,
        1 => n - 1 - i,
        // odd positions first
        2 => {
            let h = n / 2;
            if i < h {
                2 * i + 1
            } else {
                2 * (i - h)
            }
        }
        // rotate by half
        _ => (i + n / 2) % n,
    }
}

/// Symbolic undirected simple graph on the labels 0..n as a matrix; uses the inputs base, base+1, ...
pub const N: usize = 12;
pub type Mat = [[bool; N]; N];

/// Parameter 97 restricts the symbolic graphs of a run to a family, so that more vertices are within reach:
/// 0 = all graphs; otherwise some pairs are fixed (present or absent) and the remaining ones are symbolic.
/// 1 = band: i,i+1 and i,i+2 are free; 2 = cycle edges and the pairs of vertex 0 are free;
/// 3 = vertex 0 is adjacent to all others, i,i+1 are free; 4 = the pairs of the last vertex and i,i+1 are free;
/// 5 = bipartite, between the first three and the others; 6 = complete, only i,i+1 are free;
/// 7 = both halves are complete, the pairs i,i+half and half-1,j are free; 8 = bipartite, even against odd numbers
/// (pairs at distance at most 3).
/// 9.. = a fixed graph drawn from the number of the family, sparse, medium, dense or a tree in turn, with about 9 free
/// pairs spread over it.
#[derive(Clone, Copy, PartialEq)]
pub enum Slot {
    Free,
    On,
    Off,
}
pub fn slot(n: usize, i: usize, j: usize) -> Slot {
    let f = param(97);
    let (i, j) = if i < j { (i, j) } else { (j, i) };
    if f == 0 {
        return Slot::Free;
    }
    let d = j - i;
    let h = n / 2;
    if d > 0 && f >= 9 {
        let mut x = (i as u32 + 1).wrapping_mul(0x9E37_79B1) ^ (j as u32 + 1).wrapping_mul(0x85EB_CA77) ^ f.wrapping_mul(0xC2B2_AE3D);
        x ^= x >> 15;
        x = x.wrapping_mul(0x2C1B_3C6D);
        x ^= x >> 13;
        if (x >> 8) % (n * (n - 1) / 2) as u32 <= 8 {
            return Slot::Free;
        }
        let on = match f % 4 {
            0 => (j as u32).wrapping_mul(7).wrapping_add(f) % (j as u32) == i as u32,
            1 => (x & 255) < 640 / n as u32,
            2 => x & 255 < 100,
            _ => x & 255 < 190,
        };
        return if on { Slot::On } else { Slot::Off };
    }
    if d == 0 {
        return if i == 0 || i + 1 == n { Slot::Free } else { Slot::Off };
    }
    let free = match f {
        1 => d <= 2,
        2 => d == 1 || i == 0,
        3 | 6 => d == 1 && i > 0,
        4 => d == 1 || j + 1 == n,
        5 => i < 3 && j >= 3,
        7 => i < h && j >= h && (d == h || i + 1 == h),
        _ => d == 1 || d == 3,
    };
    let on = match f {
        3 => i == 0,
        6 => d > 1 || i == 0,
        7 => (i < h) == (j < h),
        _ => false,
    };
    if free {
        Slot::Free
    } else if on {
        Slot::On
    } else {
        Slot::Off
    }
}
/// The pair i,j of the symbolic graph, under the input `id` if it is free.
pub fn pair(n: usize, i: usize, j: usize, id: u32) -> bool {
    match slot(n, i, j) {
        Slot::Free => bool_(id),
        Slot::On => true,
        Slot::Off => false,
    }
}
/// Arc i -> j of the symbolic digraph: in a family, a free pair has one free direction, and every third pair both.
pub fn arc(n: usize, i: usize, j: usize, id: u32) -> bool {
    if param(97) != 0 && i > j && (i + j) % 3 != 0 && slot(n, i, j) == Slot::Free {
        return false;
    }
    pair(n, i, j, id)
}
/// A number in 0..k, one of `many` such inputs: all are symbolic, or (in a family) about three of them, the others fixed.
pub fn pick(id: u32, k: u32, many: u32) -> u32 {
    let f = param(97);
    if f != 0 {
        let mut x = (id + 1).wrapping_mul(0x9E37_79B1) ^ f.wrapping_mul(0xC2B2_AE3D);
        x ^= x >> 15;
        x = x.wrapping_mul(0x2C1B_3C6D);
        x ^= x >> 13;
        if (x >> 8) % many > 2 {
            return (x >> 20) % k;
        }
    }
    choice(id, k)
}
pub fn sym_graph(n: u32, base: u32) -> Mat {
    let mut a = [[false; N]; N];
    let mut id = base;
    let mut i = 0;
    while i < n as usize {
        let mut j = i + 1;
        while j < n as usize {
            let b = pair(n as usize, i, j, id);
            id += 1;
            a[i][j] = b;
            a[j][i] = b;
            j += 1;
        }
        i += 1;
    }
    a
}
/// Symbolic digraph without loops.
pub fn sym_digraph(n: u32, base: u32) -> Mat {
    let mut a = [[false; N]; N];
    let mut id = base;
    for i in 0..n as usize {
        for j in 0..n as usize {
            if i != j {
                a[i][j] = arc(n as usize, i, j, id);
                id += 1;
            }
        }
    }
    a
}
