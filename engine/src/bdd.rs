//! Boolean functions over the symbolic inputs.
//!
//! Every function carries two representations: a reduced ordered BDD (used to prune infeasible combinations and to
//! recognise equal conditions) and the Boolean operation it was first built by. The latter form a DAG over the inputs
//! and are what is handed to the SMT solver.

pub type G = u32;
pub const F: G = 0;
pub const T: G = 1;

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: G,
    hi: G,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Def {
    None,
    Var(u32),
    And(G, G),
    Or(G, G),
    Not(G),
    /// a and not b
    Diff(G, G),
}

const OP_AND: u32 = 1;
const OP_OR: u32 = 2;
const OP_DIFF: u32 = 3;

#[derive(Clone, Copy)]
struct CacheEnt {
    op: u32,
    a: G,
    b: G,
    r: G,
}

pub struct Bdd {
    nodes: Vec<Node>,
    table: Vec<u32>, // open addressing, 0 = empty
    mask: usize,
    cache: Vec<CacheEnt>,
    cmask: usize,
    pub defs: Vec<Def>,
    /// order in which definitions were made (a definition only refers to earlier ones)
    pub drank: Vec<u32>,
    next_rank: u32,
    pub var_names: Vec<String>,
    pub ops: u64,
    /// Simplifications the BDD package made, `op(a, b) = r` where `r` is defined differently: claims which the SMT
    /// solver re-proves from the definitions alone.
    pub claims: Vec<(u32, G, G, G)>,
    claims_seen: std::collections::HashSet<(u32, G, G)>,
}

fn h3(a: u32, b: u32, c: u32) -> usize {
    let mut x = (a as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (b as u64).wrapping_mul(0xC2B2AE3D27D4EB4F);
    x ^= (c as u64).wrapping_mul(0x165667B19E3779F9);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    x as usize
}

impl Bdd {
    pub fn new() -> Self {
        let sz = 1 << 16;
        let cs = 1 << 20;
        Bdd {
            nodes: vec![Node { var: u32::MAX, lo: 0, hi: 0 }, Node { var: u32::MAX, lo: 1, hi: 1 }],
            table: vec![0; sz],
            mask: sz - 1,
            cache: vec![CacheEnt { op: 0, a: 0, b: 0, r: 0 }; cs],
            cmask: cs - 1,
            defs: vec![Def::None, Def::None],
            drank: vec![0, 0],
            next_rank: 1,
            var_names: vec![],
            ops: 0,
            claims: vec![],
            claims_seen: Default::default(),
        }
    }
    pub fn num_nodes(&self) -> usize {
        self.nodes.len()
    }
    pub fn num_vars(&self) -> usize {
        self.var_names.len()
    }
    pub fn new_var(&mut self, name: String) -> G {
        let v = self.var_names.len() as u32;
        self.var_names.push(name);
        let g = self.mk(v, F, T);
        self.defs[g as usize] = Def::Var(v);
        self.drank[g as usize] = self.next_rank;
        self.next_rank += 1;
        g
    }
    fn mk(&mut self, var: u32, lo: G, hi: G) -> G {
        if lo == hi {
            return lo;
        }
        let mut i = h3(var, lo, hi) & self.mask;
        loop {
            let n = self.table[i];
            if n == 0 {
                break;
            }
            let nd = self.nodes[n as usize];
            if nd.var == var && nd.lo == lo && nd.hi == hi {
                return n;
            }
            i = (i + 1) & self.mask;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { var, lo, hi });
        self.defs.push(Def::None);
        self.drank.push(0);
        self.table[i] = id;
        if self.nodes.len() * 2 > self.table.len() {
            let ns = self.table.len() * 2;
            self.mask = ns - 1;
            let mut t = vec![0u32; ns];
            for k in 2..self.nodes.len() {
                let nd = self.nodes[k];
                let mut j = h3(nd.var, nd.lo, nd.hi) & self.mask;
                while t[j] != 0 {
                    j = (j + 1) & self.mask;
                }
                t[j] = k as u32;
            }
            self.table = t;
        }
        id
    }
    fn apply(&mut self, op: u32, a: G, b: G) -> G {
        match op {
            OP_AND => {
                if a == F || b == F {
                    return F;
                }
                if a == T {
                    return b;
                }
                if b == T || a == b {
                    return a;
                }
            }
            OP_OR => {
                if a == T || b == T {
                    return T;
                }
                if a == F {
                    return b;
                }
                if b == F || a == b {
                    return a;
                }
            }
            _ => {
                if a == F || b == T || a == b {
                    return F;
                }
                if b == F {
                    return a;
                }
            }
        }
        let (a, b) = if op != OP_DIFF && a > b { (b, a) } else { (a, b) };
        let ci = h3(op, a, b) & self.cmask;
        let e = self.cache[ci];
        if e.op == op && e.a == a && e.b == b {
            return e.r;
        }
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        let v = na.var.min(nb.var);
        let (al, ah) = if na.var == v { (na.lo, na.hi) } else { (a, a) };
        let (bl, bh) = if nb.var == v { (nb.lo, nb.hi) } else { (b, b) };
        let lo = self.apply(op, al, bl);
        let hi = self.apply(op, ah, bh);
        let r = self.mk(v, lo, hi);
        self.cache[ci] = CacheEnt { op, a, b, r };
        r
    }
    /// Records how `r` was obtained: as its definition, or as a claim when it has another one.
    #[inline]
    fn note(&mut self, op: u32, a: G, b: G, r: G) {
        let d = match op {
            OP_AND => Def::And(a, b),
            OP_OR => Def::Or(a, b),
            _ => {
                if a == T {
                    Def::Not(b)
                } else {
                    Def::Diff(a, b)
                }
            }
        };
        if r > T {
            let e = self.defs[r as usize];
            if e == Def::None {
                self.defs[r as usize] = d;
                self.drank[r as usize] = self.next_rank;
                self.next_rank += 1;
                return;
            }
            if e == d {
                return;
            }
        }
        if self.claims_seen.insert((op, a, b)) {
            self.claims.push((op, a, b, r));
        }
    }
    pub fn and(&mut self, a: G, b: G) -> G {
        if a == F || b == F {
            return F;
        }
        if a == T {
            return b;
        }
        if b == T || a == b {
            return a;
        }
        self.ops += 1;
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let r = self.apply(OP_AND, a, b);
        self.note(OP_AND, a, b, r);
        r
    }
    pub fn or(&mut self, a: G, b: G) -> G {
        if a == T || b == T {
            return T;
        }
        if a == F {
            return b;
        }
        if b == F || a == b {
            return a;
        }
        self.ops += 1;
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let r = self.apply(OP_OR, a, b);
        self.note(OP_OR, a, b, r);
        r
    }
    /// a and not b
    pub fn diff(&mut self, a: G, b: G) -> G {
        if a == F || b == T || a == b {
            return F;
        }
        if b == F {
            return a;
        }
        self.ops += 1;
        let r = self.apply(OP_DIFF, a, b);
        self.note(OP_DIFF, a, b, r);
        r
    }
    pub fn not(&mut self, a: G) -> G {
        if a == F {
            return T;
        }
        self.diff(T, a)
    }
    pub fn xor(&mut self, a: G, b: G) -> G {
        let x = self.diff(a, b);
        let y = self.diff(b, a);
        self.or(x, y)
    }
    /// a implies b
    pub fn implies(&mut self, a: G, b: G) -> bool {
        if a == F || b == T || a == b {
            return true;
        }
        if b == F {
            return a == F;
        }
        let r = self.apply(OP_DIFF, a, b);
        if r == F {
            self.note(OP_DIFF, a, b, F);
        }
        r == F
    }
    pub fn disjoint(&mut self, a: G, b: G) -> bool {
        if a == F || b == F {
            return true;
        }
        if a == T || b == T || a == b {
            return false;
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let r = self.apply(OP_AND, a, b);
        if r == F {
            self.note(OP_AND, a, b, F);
        }
        r == F
    }
    /// Number of satisfying assignments over all variables.
    pub fn count(&self, g: G) -> f64 {
        let mut memo: std::collections::HashMap<G, f64> = Default::default();
        fn rec(b: &Bdd, g: G, memo: &mut std::collections::HashMap<G, f64>) -> f64 {
            if g == F {
                return 0.0;
            }
            if g == T {
                return 1.0;
            }
            if let Some(x) = memo.get(&g) {
                return *x;
            }
            let n = b.nodes[g as usize];
            let r = 0.5 * rec(b, n.lo, memo) + 0.5 * rec(b, n.hi, memo);
            memo.insert(g, r);
            r
        }
        rec(self, g, &mut memo) * 2f64.powi(self.num_vars() as i32)
    }
    /// Some satisfying assignment (value per variable). `seed` varies the choice.
    pub fn model(&self, g: G, seed: u64) -> Option<Vec<bool>> {
        if g == F {
            return None;
        }
        let mut m = vec![false; self.num_vars()];
        let mut x = seed;
        let mut cur = g;
        while cur > T {
            let n = self.nodes[cur as usize];
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let pref_hi = seed != 0 && (x >> 40) & 1 == 1;
            let hi = if n.lo == F {
                true
            } else if n.hi == F {
                false
            } else {
                pref_hi
            };
            m[n.var as usize] = hi;
            cur = if hi { n.hi } else { n.lo };
        }
        Some(m)
    }
    pub fn eval(&self, g: G, m: &[bool]) -> bool {
        let mut cur = g;
        while cur > T {
            let n = self.nodes[cur as usize];
            cur = if m[n.var as usize] { n.hi } else { n.lo };
        }
        cur == T
    }
}
