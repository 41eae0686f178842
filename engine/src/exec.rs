//! Guarded execution: all paths share one state, every write is made under the condition of the path making it.
use crate::bdd::*;
use crate::ir::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

const TICK: u64 = 1 << 63;
const DRIVEN: u64 = 1 << 62;
const RANK: u64 = (1 << 31) - 1;

pub struct Obj {
    pub size: u64,
    pub live: G,
    data: Vec<u8>,
    st: Vec<u8>, // 0 uninitialised, 1 concrete, 2 symbolic
    cells: BTreeMap<u32, (u8, Val)>,
    pub what: What,
}
#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Heap,
    Stack,
    Global(Rc<str>),
    Func(Rc<str>),
    Slot,
}

struct Handle {
    live: G,
    slot_size: u64,
    pres: BTreeMap<u32, G>,
    slots: HashMap<u32, u32>,
}

pub struct Frame {
    func: Rc<Func>,
    parent: u32,
    site: (u32, u32),
    regs: Vec<Val>,
    live: G,
    allocas: HashMap<(u32, u32), u32>,
}

#[derive(Clone)]
pub struct Item {
    frame: u32,
    block: u32,
    ip: u32,
    key: Vec<u64>,
    bases: Vec<u32>,
    g: G,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub id: i64,
    pub loc: String,
    pub trace: String,
    /// pairs (path condition, condition under which the check passes on it)
    pub parts: Vec<(G, G)>,
    pub guard: G,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Nat {
    Nop,
    Panic,
    Bool,
    Choice,
    Assume,
    Assert,
    Cover,
    Param,
    HashPush,
    New,
    Free,
    Clear,
    Find,
    Has,
    Mark,
    Slot,
    Unmark,
    Len,
    Empty,
    IterNew,
    Next,
    Remaining,
    Subset,
    Copy,
    KeyAt,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Id,
    Un(&'static str),
    Two(&'static str),
    Trap,
    Unknown,
}

#[derive(Clone)]
enum Kind {
    Nat(Nat),
    Fun(Rc<Func>),
}

pub struct Machine {
    pub b: Bdd,
    m: Module,
    pub objs: Vec<Obj>,
    globals: HashMap<Rc<str>, u32>,
    pending_globals: Vec<Rc<str>>,
    frames: Vec<Frame>,
    frame_map: HashMap<(u32, u32, u32, usize), u32>,
    queue: BTreeMap<(Vec<u64>, u32), Item>,
    pub alive: G,
    pub completed: G,
    pub assumed_out: G,
    pub dead: G,
    pub viols: Vec<Viol>,
    viol_ix: HashMap<(String, i64, String, String), usize>,
    pub covers: BTreeMap<i64, G>,
    pub nassert: u64,
    funcs: HashMap<Rc<str>, Kind>,
    kind_cache: HashMap<usize, Kind>,
    pub vars: HashMap<String, G>,
    pub params: HashMap<u32, u32>,
    pools: HashMap<(u32, u64), Vec<u32>>,
    keys: HashMap<Vec<u64>, u32>,
    key_list: Vec<Vec<u64>>,
    handles: Vec<Handle>,
    hpools: HashMap<u32, Vec<u32>>,
    codes: HashMap<(u64, u64, u32), u64>,
    ncodes: u64,
    rank: HashMap<u64, u32>,
    rank_code: Vec<u64>,
    pub steps: u64,
    pub max_steps: u64,
    pub deadline: Option<std::time::Instant>,
    pub groups: u64,
    pub executed: HashSet<Rc<str>>,
    pub trace: bool,
    at: (u32, u32),
    pub prof: HashMap<Rc<str>, u64>,
}

struct Cx {
    frame: u32,
    g: G,
    rest: G,
}

enum Flow {
    Next,
    Yield(Vec<Item>),
    Jump(Item),
    Dead,
}

struct Res<'a> {
    globals: &'a mut HashMap<Rc<str>, u32>,
    objs: &'a mut Vec<Obj>,
    pending: &'a mut Vec<Rc<str>>,
    m: &'a Module,
}
impl<'a> Resolver for Res<'a> {
    fn global_addr(&mut self, name: &str) -> u128 {
        let name: Rc<str> = match self.m.aliases.get(name) {
            Some(a) => a.clone(),
            None => name.into(),
        };
        if let Some(i) = self.globals.get(&name) {
            return (*i as u128) << 32;
        }
        let id = self.objs.len() as u32;
        let (size, what) = if let Some((off, _)) = self.m.globals.get(&name) {
            (self.m.global_type(*off).size(), What::Global(name.clone()))
        } else {
            (0, What::Func(name.clone()))
        };
        let n = size as usize;
        self.objs.push(Obj { size, live: T, data: vec![0; n], st: vec![0; n], cells: BTreeMap::new(), what });
        self.globals.insert(name.clone(), id);
        if n > 0 {
            self.pending.push(name);
        }
        (id as u128) << 32
    }
}

impl Machine {
    pub fn new(m: Module) -> Self {
        Machine {
            b: Bdd::new(),
            m,
            objs: vec![Obj { size: 0, live: F, data: vec![], st: vec![], cells: BTreeMap::new(), what: What::Heap }],
            globals: HashMap::new(),
            pending_globals: vec![],
            frames: vec![],
            frame_map: HashMap::new(),
            queue: BTreeMap::new(),
            alive: T,
            completed: F,
            assumed_out: F,
            dead: F,
            viols: vec![],
            viol_ix: HashMap::new(),
            covers: BTreeMap::new(),
            nassert: 0,
            funcs: HashMap::new(),
            kind_cache: HashMap::new(),
            vars: HashMap::new(),
            params: HashMap::new(),
            pools: HashMap::new(),
            keys: HashMap::new(),
            key_list: vec![],
            handles: vec![Handle { live: F, slot_size: 0, pres: BTreeMap::new(), slots: HashMap::new() }],
            hpools: HashMap::new(),
            codes: HashMap::new(),
            ncodes: 1,
            rank: HashMap::new(),
            rank_code: vec![],
            steps: 0,
            max_steps: u64::MAX,
            deadline: None,
            groups: 0,
            executed: HashSet::new(),
            trace: false,
            at: (0, 0),
            prof: HashMap::new(),
        }
    }

    fn init_globals(&mut self) {
        while let Some(n) = self.pending_globals.pop() {
            let id = self.globals[&n];
            let (off, def) = self.m.globals[&n];
            if !def {
                continue;
            }
            let (t, atoms) = {
                let mut r = Res { globals: &mut self.globals, objs: &mut self.objs, pending: &mut self.pending_globals, m: &self.m };
                self.m.global_init(off, &mut r)
            };
            let sc = t.flatten();
            let o = &mut self.objs[id as usize];
            for x in o.st.iter_mut() {
                *x = 1;
            }
            for (s, a) in sc.iter().zip(atoms) {
                if let Atom::K(k) = a {
                    for i in 0..s.bytes() {
                        o.data[(s.off + i) as usize] = (k >> (8 * i)) as u8;
                    }
                } else {
                    for i in 0..s.bytes() {
                        o.st[(s.off + i) as usize] = 0;
                    }
                }
            }
        }
    }

    fn kind(&mut self, name: &Rc<str>) -> Kind {
        let kp = name.as_ptr() as usize;
        if let Some(k) = self.kind_cache.get(&kp) {
            return k.clone();
        }
        let k = self.kind_by_name(name);
        self.kind_cache.insert(kp, k.clone());
        k
    }

    fn kind_by_name(&mut self, name: &str) -> Kind {
        let real: Rc<str> = match self.m.aliases.get(name) {
            Some(a) => a.clone(),
            None => name.into(),
        };
        if let Some(k) = self.funcs.get(&real) {
            return k.clone();
        }
        let k = match native(&real) {
            Some(n) => Kind::Nat(n),
            None => {
                if self.m.defs.contains_key(&real) {
                    let f = {
                        let mut r = Res { globals: &mut self.globals, objs: &mut self.objs, pending: &mut self.pending_globals, m: &self.m };
                        self.m.func(&real, &mut r)
                    };
                    self.init_globals();
                    Kind::Fun(Rc::new(f))
                } else {
                    Kind::Nat(Nat::Unknown)
                }
            }
        };
        self.funcs.insert(real, k.clone());
        k
    }

    // ---------------------------------------------------------------- scheduling

    fn enqueue(&mut self, it: Item) {
        if it.g == F {
            return;
        }
        let k = (it.key.clone(), it.frame);
        if let Some(o) = self.queue.get_mut(&k) {
            o.g = self.b.or(o.g, it.g);
        } else {
            self.queue.insert(k, it);
        }
    }

    /// True if the item may continue right away (nothing else is due before or at its position).
    fn first(&self, it: &Item) -> bool {
        match self.queue.keys().next() {
            None => true,
            Some((k, _)) => it.key < *k,
        }
    }

    pub fn run(&mut self, entry: &str) {
        let k = self.kind_by_name(entry);
        let f = match k {
            Kind::Fun(f) => f,
            _ => panic!("entry {} not found", entry),
        };
        self.executed.insert(f.name.clone());
        let fr = self.new_frame(u32::MAX, (0, 0), f.clone());
        self.frames[fr as usize].live = T;
        let mut key = vec![];
        for &(v, _) in &f.blocks[0].path {
            key.push(v);
        }
        key.push(0);
        self.enqueue(Item { frame: fr, block: 0, ip: 0, key, bases: vec![0], g: T });
        while let Some(k) = self.queue.keys().next().cloned() {
            let it = self.queue.remove(&k).unwrap();
            self.groups += 1;
            self.exec(it);
        }
    }

    pub fn pending_guard(&self) -> G {
        self.queue.values().next().map(|i| i.g).unwrap_or(F)
    }

    fn new_frame(&mut self, parent: u32, site: (u32, u32), func: Rc<Func>) -> u32 {
        let k = (parent, site.0, site.1, Rc::as_ptr(&func) as usize);
        if let Some(f) = self.frame_map.get(&k) {
            let f = *f;
            let l = self.b.and(self.frames[f as usize].live, self.alive);
            if l == F {
                self.frames[f as usize].live = F;
                for r in self.frames[f as usize].regs.iter_mut() {
                    *r = Val::U;
                }
            }
            return f;
        }
        let id = self.frames.len() as u32;
        let n = func.nslots as usize;
        self.frames.push(Frame { func, parent, site, regs: vec![Val::U; n], live: F, allocas: HashMap::new() });
        self.frame_map.insert(k, id);
        id
    }

    fn cx(&mut self, frame: u32, g: G) -> Cx {
        let l = self.b.and(self.frames[frame as usize].live, self.alive);
        let rest = self.b.diff(l, g);
        Cx { frame, g, rest }
    }

    #[inline]
    fn rd(&mut self, cx: &Cx, a: Atom) -> Val {
        match a {
            Atom::K(k) => Val::C(k),
            Atom::Undef => Val::U,
            Atom::Slot(s) => {
                let v = &self.frames[cx.frame as usize].regs[s as usize];
                match v {
                    Val::C(c) => Val::C(*c),
                    Val::U => Val::U,
                    Val::S(_) => {
                        let v = v.clone();
                        restrict(&mut self.b, &v, cx.g)
                    }
                }
            }
        }
    }
    #[inline]
    fn wr(&mut self, cx: &Cx, slot: u32, v: Val) {
        if cx.rest == F {
            self.frames[cx.frame as usize].regs[slot as usize] = v;
        } else {
            let old = std::mem::replace(&mut self.frames[cx.frame as usize].regs[slot as usize], Val::U);
            let n = merge(&mut self.b, &old, &v, cx.g, cx.rest);
            self.frames[cx.frame as usize].regs[slot as usize] = n;
        }
    }

    /// Removes the paths under `g` (panic, failed check) from the run.
    fn kill(&mut self, cx: &mut Cx, g: G) {
        cx.g = self.b.diff(cx.g, g);
        self.alive = self.b.diff(self.alive, g);
        self.dead = self.b.or(self.dead, g);
    }

    fn trace_of(&self, frame: u32) -> String {
        let mut v: Vec<String> = vec![];
        let mut f = frame;
        while f != u32::MAX {
            let fr = &self.frames[f as usize];
            v.push(fr.func.name.to_string());
            f = fr.parent;
        }
        v.truncate(14);
        v.join(" < ")
    }

    fn violate(&mut self, frame: u32, kind: &str, id: i64, loc: String, pc: G, ok: G) {
        let bad = self.b.diff(pc, ok);
        // The position of assertions is their number; other violations are told apart by the nearest frame of
        // the library.
        let tr = if id >= 0 { String::new() } else { self.trace_of(frame) };
        let k = (kind.to_string(), id, loc.clone(), tr.clone());
        let ix = match self.viol_ix.get(&k) {
            Some(i) => *i,
            None => {
                self.viols.push(Viol { kind: kind.to_string(), id, loc, trace: tr, parts: vec![], guard: F });
                self.viol_ix.insert(k, self.viols.len() - 1);
                self.viols.len() - 1
            }
        };
        if !self.viols[ix].parts.contains(&(pc, ok)) {
            self.viols[ix].parts.push((pc, ok));
        }
        let x = self.b.or(self.viols[ix].guard, bad);
        self.viols[ix].guard = x;
    }

    fn fatal(&self, cx: &Cx, msg: String) -> ! {
        let (b, i) = self.at;
        let bn = if cx.frame != u32::MAX { self.frames[cx.frame as usize].func.blocks[b as usize].name.clone() } else { String::new() };
        if std::env::var("GBSYM_DBG").is_ok() && cx.frame != u32::MAX {
            let f = &self.frames[cx.frame as usize];
            for x in &f.func.blocks[b as usize].insts {
                eprintln!("{:?}", x);
            }
        }
        panic!("{} [at {}:{} in {}]", msg, bn, i, self.trace_of(cx.frame))
    }

    // ---------------------------------------------------------------- memory

    fn obj_get(&mut self, size: u64, what: What) -> u32 {
        let id = self.objs.len() as u32;
        self.objs.push(Obj { size, live: F, data: vec![], st: vec![], cells: BTreeMap::new(), what });
        id
    }

    fn intern_key(&mut self, k: &[u64]) -> u32 {
        if let Some(i) = self.keys.get(k) {
            return *i;
        }
        let i = self.key_list.len() as u32;
        self.keys.insert(k.to_vec(), i);
        self.key_list.push(k.to_vec());
        i
    }

    fn revive(&mut self, id: u32, g: G) {
        let l = self.b.and(self.objs[id as usize].live, self.alive);
        let o = &mut self.objs[id as usize];
        if l == F {
            let n = o.size as usize;
            o.data.clear();
            o.data.resize(n, 0);
            o.st.clear();
            o.st.resize(n, 0);
            o.cells.clear();
            o.live = g;
        } else {
            let nl = self.b.or(l, g);
            self.objs[id as usize].live = nl;
        }
    }

    fn alloc(&mut self, pos: u32, size: u64, g: G, zero: bool, what: What) -> u32 {
        if size > 1 << 30 {
            panic!("allocation of {} bytes", size);
        }
        let n = self.pools.get(&(pos, size)).map(|v| v.len()).unwrap_or(0);
        let mut found = None;
        for i in 0..n {
            let id = self.pools[&(pos, size)][i];
            let l = self.b.and(self.objs[id as usize].live, self.alive);
            if self.b.disjoint(l, g) {
                found = Some(id);
                break;
            }
        }
        let id = match found {
            Some(i) => i,
            None => {
                let i = self.obj_get(size, what);
                self.pools.entry((pos, size)).or_default().push(i);
                i
            }
        };
        self.revive(id, g);
        if zero {
            let cx = Cx { frame: u32::MAX, g, rest: F };
            self.fill(&cx, id, 0, size, 0);
        }
        id
    }

    fn free_obj(&mut self, id: u32, g: G) {
        let l = self.b.diff(self.objs[id as usize].live, g);
        let l = self.b.and(l, self.alive);
        let o = &mut self.objs[id as usize];
        o.live = l;
        if l == F {
            o.data = vec![];
            o.st = vec![];
            o.cells.clear();
        }
    }

    /// Validates an access of `n` bytes; returns false (and reports) where it is invalid.
    fn access(&mut self, cx: &mut Cx, g: G, addr: u128, n: u64, what: &str) -> Option<(u32, u32, G)> {
        let id = (addr >> 32) as usize;
        let off = addr as u32 as u64;
        let mut why = None;
        if addr >> 32 == 0 || id >= self.objs.len() {
            why = Some("outside any object");
        } else if matches!(self.objs[id].what, What::Func(_)) || off + n > self.objs[id].size {
            why = Some("out of bounds");
        }
        if let Some(w) = why {
            if std::env::var("GBSYM_DBG").is_ok() {
                eprintln!("bad access {:#x} {} {}", addr, n, self.trace_of(cx.frame));
            }
            self.violate(cx.frame, "memory", -1, format!("{} {}", what, w), g, F);
            self.kill(cx, g);
            return None;
        }
        let live = self.objs[id].live;
        let mut g = g;
        if live != T && live != g && !self.b.implies(g, live) {
            if std::env::var("GBSYM_DBG").is_ok() {
                eprintln!("dead access {:#x} {} {:?} {}", addr, n, self.objs[id].what, self.trace_of(cx.frame));
            }
            self.violate(cx.frame, "memory", -1, format!("{} of freed memory", what), g, live);
            let bad = self.b.diff(g, live);
            self.kill(cx, bad);
            g = self.b.and(g, live);
            if g == F {
                return None;
            }
        }
        Some((id as u32, off as u32, g))
    }

    /// Is `g` everything for which the object's content matters?
    #[inline]
    fn rest_of(&mut self, id: u32, g: G) -> G {
        let live = self.objs[id as usize].live;
        if live == g {
            return F;
        }
        let l = self.b.and(live, self.alive);
        self.b.diff(l, g)
    }

    fn ld(&mut self, id: u32, off: u32, n: u8, g: G) -> Val {
        let o = &self.objs[id as usize];
        let (a, z) = (off as usize, off as usize + n as usize);
        let first = o.st[a];
        if o.st[a..z].iter().all(|x| *x == first) {
            match first {
                1 => {
                    let mut x = 0u128;
                    for i in (a..z).rev() {
                        x = x << 8 | o.data[i] as u128;
                    }
                    return Val::C(x);
                }
                0 => return Val::U,
                _ => {
                    if let Some((w, v)) = o.cells.get(&off) {
                        if *w == n {
                            let v = v.clone();
                            return restrict(&mut self.b, &v, g);
                        }
                    }
                }
            }
        }
        // assemble byte-wise
        let mut acc = Val::C(0);
        let mut i = 0u32;
        while i < n as u32 {
            let p = off + i;
            let o = &self.objs[id as usize];
            match o.st[p as usize] {
                0 => i += 1, // uninitialised bytes next to initialised ones are padding
                1 => {
                    let by = o.data[p as usize] as u128;
                    acc = map1(&mut self.b, &acc, |x| Some(x | by << (8 * i)));
                    i += 1;
                }
                _ => {
                    let (co, (w, v)) = o.cells.range(..=p).next_back().map(|(k, v)| (*k, v.clone())).unwrap();
                    let skip = p - co;
                    let take = (w as u32 - skip).min(n as u32 - i);
                    let v = restrict(&mut self.b, &v, g);
                    let m = mask(8 * take);
                    acc = map2_or(&mut self.b, &acc, &v, g, |x, y| Some(x | ((y >> (8 * skip)) & m) << (8 * i)));
                    i += take;
                }
            }
        }
        acc
    }

    /// Break up symbolic cells that overlap [off, off+n) only partly.
    fn split(&mut self, id: u32, off: u32, n: u32) {
        for edge in [off, off + n] {
            let o = &self.objs[id as usize];
            if edge as u64 >= o.size || edge == 0 {
                continue;
            }
            if o.st[edge as usize] != 2 {
                continue;
            }
            let (co, w) = match o.cells.range(..=edge).next_back() {
                Some((k, v)) => (*k, v.0),
                None => continue,
            };
            if co == edge || co + w as u32 <= edge {
                continue;
            }
            let (_, v) = self.objs[id as usize].cells.remove(&co).unwrap();
            let cut = edge - co;
            let lo = map1(&mut self.b, &v, |x| Some(x & mask(8 * cut)));
            let hi = map1(&mut self.b, &v, |x| Some(x >> (8 * cut)));
            self.put(id, co, cut as u8, lo);
            self.put(id, edge, w - cut as u8, hi);
        }
    }
    /// Store into bytes that carry no partly overlapping cell.
    fn put(&mut self, id: u32, off: u32, n: u8, v: Val) {
        let o = &mut self.objs[id as usize];
        let (a, z) = (off as usize, off as usize + n as usize);
        match v {
            Val::C(c) => {
                for i in a..z {
                    o.data[i] = (c >> (8 * (i - a))) as u8;
                    o.st[i] = 1;
                }
            }
            Val::U => {
                for i in a..z {
                    o.st[i] = 0;
                }
            }
            Val::S(_) => {
                for i in a..z {
                    o.st[i] = 2;
                }
                o.cells.insert(off, (n, v));
            }
        }
    }
    fn clear_cells(&mut self, id: u32, off: u32, n: u32) {
        if self.objs[id as usize].cells.is_empty() {
            return;
        }
        self.split(id, off, n);
        let o = &mut self.objs[id as usize];
        let ks: Vec<u32> = o.cells.range(off..off + n).map(|(k, _)| *k).collect();
        for k in ks {
            o.cells.remove(&k);
        }
    }
    fn st(&mut self, id: u32, off: u32, n: u8, v: &Val, g: G) {
        let rest = self.rest_of(id, g);
        if rest == F {
            self.clear_cells(id, off, n as u32);
            self.put(id, off, n, v.clone());
            return;
        }
        let old = self.ld(id, off, n, rest);
        if let (Val::C(a), Val::C(c)) = (&old, v) {
            if a == c && self.objs[id as usize].st[off as usize..off as usize + n as usize].iter().all(|x| *x == 1) {
                return;
            }
        }
        let nv = merge(&mut self.b, &old, v, g, rest);
        self.clear_cells(id, off, n as u32);
        self.put(id, off, n, nv);
    }

    fn load(&mut self, cx: &mut Cx, p: &Val, sc: &Sc) -> Val {
        let n = sc.bytes() as u8;
        let v = match p {
            Val::U => self.fatal(cx, "load through an undefined pointer".into()),
            Val::C(a) => match self.access(cx, cx.g, a + sc.off as u128, n as u64, "read") {
                Some((id, off, g)) => self.ld(id, off, n, g),
                None => Val::U,
            },
            Val::S(_) => {
                let ps = parts(&mut self.b, p, cx.g);
                let mut out = vec![];
                for (g, a) in ps {
                    if let Some((id, off, g)) = self.access(cx, g, a + sc.off as u128, n as u64, "read") {
                        let v = self.ld(id, off, n, g);
                        out.extend(parts(&mut self.b, &v, g));
                    }
                }
                build(&mut self.b, out)
            }
        };
        if sc.bits % 8 != 0 {
            let m = mask(sc.bits);
            return map1(&mut self.b, &v, |x| Some(x & m));
        }
        v
    }
    fn store(&mut self, cx: &mut Cx, p: &Val, sc: &Sc, v: &Val) {
        let n = sc.bytes() as u8;
        match p {
            Val::U => self.fatal(cx, "store through an undefined pointer".into()),
            Val::C(a) => {
                if let Some((id, off, g)) = self.access(cx, cx.g, a + sc.off as u128, n as u64, "write") {
                    self.st(id, off, n, v, g);
                }
            }
            Val::S(_) => {
                let ps = parts(&mut self.b, p, cx.g);
                for (g, a) in ps {
                    if let Some((id, off, g)) = self.access(cx, g, a + sc.off as u128, n as u64, "write") {
                        let w = restrict(&mut self.b, v, g);
                        self.st(id, off, n, &w, g);
                    }
                }
            }
        }
    }

    fn fill(&mut self, _cx: &Cx, id: u32, off: u32, n: u64, by: u8) {
        self.clear_cells(id, off, n as u32);
        let o = &mut self.objs[id as usize];
        for i in off as usize..off as usize + n as usize {
            o.data[i] = by;
            o.st[i] = 1;
        }
    }

    fn copy_obj(&mut self, d: u32, doff: u32, s: u32, soff: u32, n: u32, g: G) {
        let rest = self.rest_of(d, g);
        // gather the source first (regions may overlap)
        let mut units: Vec<(u32, u8, Val)> = vec![];
        let mut i = 0u32;
        while i < n {
            let p = soff + i;
            let o = &self.objs[s as usize];
            match o.st[p as usize] {
                0 => {
                    units.push((i, 1, Val::U));
                    i += 1;
                }
                1 => {
                    let mut w = 1u32;
                    if rest == F {
                        // any chunking will do
                        while w < 16 && i + w < n && o.st[(p + w) as usize] == 1 {
                            w += 1;
                        }
                    } else {
                        // follow the layout of the destination
                        let q = doff + i;
                        let od = &self.objs[d as usize];
                        if od.st[q as usize] == 2 {
                            if let Some((cw, _)) = od.cells.get(&q) {
                                w = *cw as u32;
                            }
                        } else {
                            for c in [8u32, 4, 2] {
                                if p % c == 0 && q % c == 0 && i + c <= n && od.st[q as usize..(q + c) as usize].iter().all(|x| *x == od.st[q as usize]) {
                                    w = c;
                                    break;
                                }
                            }
                        }
                        if i + w > n || !o.st[p as usize..(p + w) as usize].iter().all(|x| *x == 1) {
                            w = 1;
                        }
                    }
                    let mut x = 0u128;
                    for k in (0..w).rev() {
                        x = x << 8 | o.data[(p + k) as usize] as u128;
                    }
                    units.push((i, w as u8, Val::C(x)));
                    i += w;
                }
                _ => {
                    let (co, (w, v)) = o.cells.range(..=p).next_back().map(|(k, v)| (*k, v.clone())).unwrap();
                    let skip = p - co;
                    let take = (w as u32 - skip).min(n - i);
                    let v = restrict(&mut self.b, &v, g);
                    let v = if take == w as u32 { v } else { map1(&mut self.b, &v, |y| Some((y >> (8 * skip)) & mask(8 * take))) };
                    units.push((i, take as u8, v));
                    i += take;
                }
            }
        }
        if rest == F {
            self.clear_cells(d, doff, n);
            for (i, w, v) in units {
                self.put(d, doff + i, w, v);
            }
        } else {
            for (i, w, v) in units {
                if let Val::U = v {
                    continue;
                }
                self.st(d, doff + i, w, &v, g);
            }
        }
    }

    fn memcpy(&mut self, cx: &mut Cx, d: &Val, s: &Val, n: &Val) {
        let ns = self.full_parts(cx, n, cx.g);
        for (g, n) in ns {
            if n == 0 {
                continue;
            }
            for (g, s) in self.full_parts(cx, s, g) {
                for (g, d) in self.full_parts(cx, d, g) {
                    if let Some((si, so, g)) = self.access(cx, g, s, n as u64, "copy from") {
                        if let Some((di, d_o, g)) = self.access(cx, g, d, n as u64, "copy to") {
                            self.copy_obj(di, d_o, si, so, n as u32, g);
                        }
                    }
                }
            }
        }
    }

    /// Parts of a value that has to be defined.
    fn full_parts(&mut self, cx: &Cx, v: &Val, g: G) -> Vec<(G, u128)> {
        let p = parts(&mut self.b, v, g);
        if let Val::C(_) = v {
            return p;
        }
        let mut u = F;
        for (h, _) in &p {
            u = self.b.or(u, *h);
        }
        if u != g {
            self.fatal(cx, "use of an undefined value".into());
        }
        p
    }

    fn conc(&mut self, cx: &Cx, v: &Val) -> u128 {
        match v {
            Val::C(c) => *c,
            Val::S(p) if p.len() == 1 => p[0].1,
            _ => self.fatal(cx, format!("constant expected, got {:?}", v)),
        }
    }

    // ---------------------------------------------------------------- execution

    fn seg_to(&self, func: &Func, from: u32, to: u32, key: &[u64], base: usize, out: &mut Vec<u64>) {
        let pa = &func.blocks[from as usize].path;
        let bt = &func.blocks[to as usize];
        out.extend_from_slice(&key[..base]);
        let mut same = true;
        for (i, &(v, l)) in bt.path.iter().enumerate() {
            if l == u32::MAX {
                out.push(v);
                continue;
            }
            same = same && i < pa.len() && pa[i].1 == l;
            if same {
                let mut t = key[base + i];
                if bt.header_of == l && t & DRIVEN == 0 {
                    t += 1;
                }
                out.push(t);
            } else {
                out.push(TICK);
            }
        }
        out.push(0);
    }

    fn goto(&mut self, cx: &Cx, it: &Item, to: u32, g: G) -> Item {
        let func = self.frames[it.frame as usize].func.clone();
        let blk = &func.blocks[to as usize];
        if !blk.phis.is_empty() {
            let c2 = if g == cx.g {
                Cx { frame: cx.frame, g, rest: cx.rest }
            } else {
                self.cx(cx.frame, g)
            };
            let mut vals: Vec<(u32, Val)> = vec![];
            for (d, inc) in &blk.phis {
                let atoms = match inc.get(&it.block) {
                    Some(a) => a,
                    None => panic!("phi without entry for predecessor in {}", func.name),
                };
                for (k, a) in atoms.iter().enumerate() {
                    let v = self.rd(&c2, *a);
                    vals.push((*d + k as u32, v));
                }
            }
            for (d, v) in vals {
                self.wr(&c2, d, v);
            }
        }
        let base = *it.bases.last().unwrap() as usize;
        let mut key = Vec::with_capacity(it.key.len() + 4);
        self.seg_to(&func, it.block, to, &it.key, base, &mut key);
        Item { frame: it.frame, block: to, ip: 0, key, bases: it.bases.clone(), g }
    }

    fn exec(&mut self, mut it: Item) {
        loop {
            // (re)enter at it
            let func = self.frames[it.frame as usize].func.clone();
            let mut cx = self.cx(it.frame, it.g);
            let blk = &func.blocks[it.block as usize];
            let flow = loop {
                self.steps += 1;
                if self.steps >= self.max_steps || (self.steps & 0x3fff == 0 && self.deadline.map_or(false, |d| std::time::Instant::now() > d)) {
                    self.enqueue(it);
                    panic!("BUDGET");
                }
                if it.ip as usize >= blk.insts.len() {
                    panic!("fell off block {} in {}", blk.name, func.name);
                }
                let inst = &blk.insts[it.ip as usize];
                match self.step(&mut cx, &mut it, inst) {
                    Flow::Next => {
                        it.ip += 1;
                        *it.key.last_mut().unwrap() = it.ip as u64;
                        if cx.g == F {
                            break Flow::Dead;
                        }
                        it.g = cx.g;
                    }
                    f => break f,
                }
            };
            match flow {
                Flow::Next => unreachable!(),
                Flow::Dead => return,
                Flow::Jump(n) => {
                    if n.g == F {
                        return;
                    }
                    if self.first(&n) {
                        it = n;
                        continue;
                    }
                    self.enqueue(n);
                    return;
                }
                Flow::Yield(v) => {
                    for n in v {
                        self.enqueue(n);
                    }
                    return;
                }
            }
        }
    }

    fn step(&mut self, cx: &mut Cx, it: &mut Item, inst: &Inst) -> Flow {
        self.at = (it.block, it.ip);
        match inst {
            Inst::Nop => {}
            Inst::Bin { op, bits, n, a, b, dst } => {
                for k in 0..*n as usize {
                    let x = self.rd(cx, a[k]);
                    let y = self.rd(cx, b[k]);
                    let (op, bits) = (*op, *bits);
                    let v = if op == Bin::Or {
                        map2_or(&mut self.b, &x, &y, cx.g, |x, y| binop(op, bits, x, y))
                    } else {
                        map2(&mut self.b, &x, &y, |x, y| binop(op, bits, x, y))
                    };
                    self.wr(cx, dst + k as u32, v);
                }
            }
            Inst::ICmp { pred, bits, a, b, dst } => {
                for k in 0..a.len() {
                    let x = self.rd(cx, a[k]);
                    let y = self.rd(cx, b[k]);
                    let bits = *bits;
                    let pred = *pred;
                    let v = map2(&mut self.b, &x, &y, |x, y| Some(icmp(pred, bits, x, y) as u128));
                    self.wr(cx, dst + k as u32, v);
                }
            }
            Inst::FCmp { pred, bits, a, b, dst } => {
                let x = self.rd(cx, *a);
                let y = self.rd(cx, *b);
                let v = map2(&mut self.b, &x, &y, |x, y| Some(fcmp(pred, tof(*bits, x), tof(*bits, y)) as u128));
                self.wr(cx, *dst, v);
            }
            Inst::FNeg { bits, a, dst } => {
                let x = self.rd(cx, *a);
                let v = map1(&mut self.b, &x, |x| Some(x ^ (1 << (*bits - 1))));
                self.wr(cx, *dst, v);
            }
            Inst::Select { c, a, b, dst } => {
                for k in 0..a.len() {
                    let cv = self.rd(cx, c[if c.len() == 1 { 0 } else { k }]);
                    let v = match cv {
                        Val::C(1) => self.rd(cx, a[k]),
                        Val::C(_) => self.rd(cx, b[k]),
                        Val::U => Val::U,
                        Val::S(p) => {
                            let x = self.rd(cx, a[k]);
                            let y = self.rd(cx, b[k]);
                            let mut out = vec![];
                            for &(g, c) in p.iter() {
                                out.extend(parts(&mut self.b, if c == 1 { &x } else { &y }, g));
                            }
                            build(&mut self.b, out)
                        }
                    };
                    self.wr(cx, dst + k as u32, v);
                }
            }
            Inst::Load { sc, p, dst } => {
                let p = self.rd(cx, *p);
                for (k, s) in sc.iter().enumerate() {
                    let v = self.load(cx, &p, s);
                    if cx.g == F {
                        return Flow::Dead;
                    }
                    self.wr(cx, dst + k as u32, v);
                }
            }
            Inst::Store { sc, v, p } => {
                let p = self.rd(cx, *p);
                for (k, s) in sc.iter().enumerate() {
                    let x = self.rd(cx, v[k]);
                    self.store(cx, &p, s, &x);
                    if cx.g == F {
                        return Flow::Dead;
                    }
                }
            }
            Inst::Gep { base, off, idx, dst } => {
                let mut v = self.rd(cx, *base);
                if *off != 0 {
                    let o = *off;
                    v = map1(&mut self.b, &v, |x| Some((x as u64).wrapping_add(o as u64) as u128));
                }
                for (a, bits, scale) in idx {
                    let i = self.rd(cx, *a);
                    let (bits, scale) = (*bits, *scale);
                    v = map2(&mut self.b, &v, &i, |x, i| {
                        Some((x as u64).wrapping_add((sx(i, bits) as i64).wrapping_mul(scale) as u64) as u128)
                    });
                }
                self.wr(cx, *dst, v);
            }
            Inst::Alloca { size, dst } => {
                let k = (it.block, it.ip);
                let id = match self.frames[cx.frame as usize].allocas.get(&k) {
                    Some(i) => *i,
                    None => {
                        let i = self.obj_get(*size, What::Stack);
                        self.frames[cx.frame as usize].allocas.insert(k, i);
                        i
                    }
                };
                self.revive(id, cx.g);
                self.wr(cx, *dst, Val::C((id as u128) << 32));
            }
            Inst::Cast { op, from, to, a, dst } => {
                for (k, x) in a.iter().enumerate() {
                    let x = self.rd(cx, *x);
                    let (op, from, to) = (*op, *from, *to);
                    let v = match op {
                        Cast::Bitcast | Cast::ZExt => x,
                        _ => map1(&mut self.b, &x, |x| Some(cast(op, from, to, x))),
                    };
                    self.wr(cx, dst + k as u32, v);
                }
            }
            Inst::Move { v, dst } => {
                let vals: Vec<Val> = v.iter().map(|a| self.rd(cx, *a)).collect();
                for (k, x) in vals.into_iter().enumerate() {
                    self.wr(cx, dst + k as u32, x);
                }
            }
            Inst::Freeze { v, dst } => {
                for (k, a) in v.iter().enumerate() {
                    let x = self.rd(cx, *a);
                    let x = match x {
                        Val::U => Val::C(0),
                        Val::S(p) => {
                            let mut q = (*p).clone();
                            let mut u = F;
                            for (h, _) in &q {
                                u = self.b.or(u, *h);
                            }
                            let r = self.b.diff(cx.g, u);
                            if r != F {
                                q.push((r, 0));
                            }
                            build(&mut self.b, q)
                        }
                        x => x,
                    };
                    self.wr(cx, dst + k as u32, x);
                }
            }
            Inst::ExtractEl { v, i, dst } => {
                let i = self.rd(cx, *i);
                let mut out = vec![];
                for (g, k) in self.full_parts(cx, &i, cx.g) {
                    let x = self.rd(cx, v[k as usize]);
                    out.extend(parts(&mut self.b, &x, g));
                }
                let r = build(&mut self.b, out);
                self.wr(cx, *dst, r);
            }
            Inst::InsertEl { v, e, i, dst } => {
                let i = self.rd(cx, *i);
                let i = self.conc(cx, &i);
                let vals: Vec<Val> = v.iter().enumerate().map(|(k, a)| if k as u128 == i { self.rd(cx, *e) } else { self.rd(cx, *a) }).collect();
                for (k, x) in vals.into_iter().enumerate() {
                    self.wr(cx, dst + k as u32, x);
                }
            }
            Inst::Rmw { op, bits, p, v, dst } => {
                let p = self.rd(cx, *p);
                let v = self.rd(cx, *v);
                let sc = Sc { off: 0, bits: *bits, float: false };
                let old = self.load(cx, &p, &sc);
                let m = mask(*bits);
                let nv = map2(&mut self.b, &old, &v, |a, b| {
                    Some(match op.as_str() {
                        "xchg" => b,
                        "add" => a.wrapping_add(b) & m,
                        "sub" => a.wrapping_sub(b) & m,
                        "and" => a & b,
                        "or" => a | b,
                        "xor" => a ^ b,
                        "umax" => a.max(b),
                        "umin" => a.min(b),
                        _ => return None,
                    })
                });
                self.store(cx, &p, &sc, &nv);
                if cx.g == F {
                    return Flow::Dead;
                }
                self.wr(cx, *dst, old);
            }
            Inst::CmpXchg { bits, p, c, n, dst } => {
                let p = self.rd(cx, *p);
                let c = self.rd(cx, *c);
                let n = self.rd(cx, *n);
                let sc = Sc { off: 0, bits: *bits, float: false };
                let old = self.load(cx, &p, &sc);
                let eq = map2(&mut self.b, &old, &c, |a, b| Some((a == b) as u128));
                let mut out = vec![];
                for (g, e) in self.full_parts(cx, &eq, cx.g) {
                    out.extend(parts(&mut self.b, if e == 1 { &n } else { &old }, g));
                }
                let nv = build(&mut self.b, out);
                self.store(cx, &p, &sc, &nv);
                if cx.g == F {
                    return Flow::Dead;
                }
                self.wr(cx, *dst, old);
                self.wr(cx, dst + 1, eq);
            }
            Inst::Unsupported(t) => self.fatal(cx, format!("unsupported instruction: {}", t)),
            Inst::Unreachable => {
                self.violate(cx.frame, "unreachable", -1, "unreachable code reached".into(), cx.g, F);
                let g = cx.g;
                self.kill(cx, g);
                return Flow::Dead;
            }
            Inst::Br(b) => return Flow::Jump(self.goto(cx, it, *b, cx.g)),
            Inst::CondBr { c, t, f } => {
                let v = self.rd(cx, *c);
                match v {
                    Val::C(x) => {
                        let to = if x & 1 == 1 { *t } else { *f };
                        return Flow::Jump(self.goto(cx, it, to, cx.g));
                    }
                    Val::U => self.fatal(cx, "branch on an undefined value".into()),
                    Val::S(_) => {
                        let ps = self.full_parts(cx, &v, cx.g);
                        let mut items = vec![];
                        for (g, x) in ps {
                            let to = if x & 1 == 1 { *t } else { *f };
                            items.push(self.goto(cx, it, to, g));
                        }
                        return self.yield_(items);
                    }
                }
            }
            Inst::Switch { v, def, cases, .. } => {
                let v = self.rd(cx, *v);
                if let Val::U = v {
                    self.fatal(cx, "switch on an undefined value".into());
                }
                let mut by: BTreeMap<u32, G> = BTreeMap::new();
                for (g, x) in self.full_parts(cx, &v, cx.g) {
                    let to = *cases.get(&x).unwrap_or(def);
                    let o = by.entry(to).or_insert(F);
                    *o = self.b.or(*o, g);
                }
                let mut items = vec![];
                for (to, g) in by {
                    items.push(self.goto(cx, it, to, g));
                }
                return self.yield_(items);
            }
            Inst::Ret(v) => {
                let vals: Vec<Val> = v.iter().map(|a| self.rd(cx, *a)).collect();
                return self.ret(cx, it, vals);
            }
            Inst::Call(c) => return self.call(cx, it, c),
        }
        Flow::Next
    }

    fn yield_(&mut self, mut items: Vec<Item>) -> Flow {
        if items.len() == 1 {
            return Flow::Jump(items.pop().unwrap());
        }
        Flow::Yield(items)
    }

    fn ret(&mut self, cx: &Cx, it: &Item, vals: Vec<Val>) -> Flow {
        let f = it.frame as usize;
        let g = cx.g;
        let live = self.b.diff(self.frames[f].live, g);
        let live = self.b.and(live, self.alive);
        self.frames[f].live = live;
        let mut al: Vec<u32> = self.frames[f].allocas.values().cloned().collect();
        al.sort();
        for o in al {
            self.free_obj(o, g);
        }
        let parent = self.frames[f].parent;
        if parent == u32::MAX {
            self.completed = self.b.or(self.completed, g);
            self.alive = self.b.diff(self.alive, g);
            return Flow::Dead;
        }
        let (pb, pi) = self.frames[f].site;
        let pf = self.frames[parent as usize].func.clone();
        let (dst, ndst, normal) = match &pf.blocks[pb as usize].insts[pi as usize] {
            Inst::Call(c) => (c.dst, c.ndst, c.normal),
            _ => unreachable!(),
        };
        let pcx = self.cx(parent, g);
        for k in 0..ndst as usize {
            self.wr(&pcx, dst + k as u32, vals[k].clone());
        }
        let base = *it.bases.last().unwrap() as usize;
        let mut key = it.key[..base].to_vec();
        let mut bases = it.bases.clone();
        bases.pop();
        *key.last_mut().unwrap() = pi as u64 + 1;
        let n = Item { frame: parent, block: pb, ip: pi + 1, key, bases, g };
        match normal {
            None => Flow::Jump(n),
            Some(b) => Flow::Jump(self.goto(&pcx, &n, b, g)),
        }
    }

    fn after_call(&mut self, cx: &Cx, it: &Item, c: &CallI) -> Flow {
        match c.normal {
            None => Flow::Next,
            Some(b) => Flow::Jump(self.goto(cx, it, b, cx.g)),
        }
    }

    fn call(&mut self, cx: &mut Cx, it: &mut Item, c: &CallI) -> Flow {
        match &c.callee {
            Callee::Direct(n) => {
                let k = self.kind(n);
                self.call_kind(cx, it, c, k, n)
            }
            Callee::Indirect(a) => {
                let v = self.rd(cx, *a);
                let ps = self.full_parts(cx, &v, cx.g);
                if ps.len() == 1 {
                    let (k, n) = self.target(cx, ps[0].1);
                    return self.call_kind(cx, it, c, k, &n);
                }
                let mut items = vec![];
                for (g, t) in ps {
                    let (k, n) = self.target(cx, t);
                    let mut c2 = self.cx(cx.frame, g);
                    let mut i2 = it.clone();
                    i2.g = g;
                    match self.call_kind(&mut c2, &mut i2, c, k, &n) {
                        Flow::Next => {
                            i2.ip += 1;
                            *i2.key.last_mut().unwrap() = i2.ip as u64;
                            i2.g = c2.g;
                            items.push(i2);
                        }
                        Flow::Yield(v) => items.extend(v),
                        Flow::Jump(n) => items.push(n),
                        Flow::Dead => {}
                    }
                }
                Flow::Yield(items)
            }
        }
    }

    fn target(&mut self, cx: &Cx, a: u128) -> (Kind, Rc<str>) {
        let id = (a >> 32) as usize;
        if id < self.objs.len() {
            if let What::Func(n) = self.objs[id].what.clone() {
                let k = self.kind(&n);
                return (k, n);
            }
        }
        self.fatal(cx, format!("call of a non-function {:#x}", a))
    }

    fn call_kind(&mut self, cx: &mut Cx, it: &mut Item, c: &CallI, k: Kind, name: &Rc<str>) -> Flow {
        match k {
            Kind::Nat(n) => self.native(cx, it, c, n, name),
            Kind::Fun(f) => {
                let mut args: Vec<Val> = vec![];
                for a in &c.args {
                    for x in a {
                        args.push(self.rd(cx, *x));
                    }
                }
                if self.trace {
                    eprintln!("{:indent$}{} g={}", "", f.name, cx.g, indent = it.bases.len());
                }
                if !self.executed.contains(&f.name) {
                    self.executed.insert(f.name.clone());
                }
                let fr = self.new_frame(cx.frame, (it.block, it.ip), f.clone());
                let l = self.b.or(self.frames[fr as usize].live, cx.g);
                self.frames[fr as usize].live = l;
                let ncx = self.cx(fr, cx.g);
                let mut k = 0;
                for &(s, n) in &f.params {
                    for j in 0..n {
                        self.wr(&ncx, s + j, args[k].clone());
                        k += 1;
                    }
                }
                let mut bases = it.bases.clone();
                bases.push(it.key.len() as u32);
                if bases.len() > 400 {
                    self.fatal(cx, "recursion too deep".into());
                }
                let mut key = it.key.clone();
                for &(v, _) in &f.blocks[0].path {
                    key.push(v);
                }
                key.push(0);
                Flow::Jump(Item { frame: fr, block: 0, ip: 0, key, bases, g: cx.g })
            }
        }
    }

    fn location(&mut self, a: &Val) -> Option<String> {
        if let Val::C(a) = a {
            let id = (*a >> 32) as u32;
            let off = *a as u32;
            if (id as usize) < self.objs.len() && id > 0 && off as u64 + 24 <= self.objs[id as usize].size && matches!(self.objs[id as usize].what, What::Global(_)) {
                let p = self.ld(id, off, 8, T);
                let n = self.ld(id, off + 8, 8, T);
                let l = self.ld(id, off + 16, 4, T);
                let s = self.string(&p, &n)?;
                if let Val::C(l) = l {
                    if l > 0 && s.ends_with(".rs") {
                        return Some(format!("{}:{}", s, l));
                    }
                }
            }
        }
        None
    }
    fn string(&mut self, p: &Val, n: &Val) -> Option<String> {
        if let (Val::C(p), Val::C(n)) = (p, n) {
            let id = (*p >> 32) as usize;
            let off = *p as u32 as usize;
            if id > 0 && id < self.objs.len() && off + *n as usize <= self.objs[id].data.len() && *n < 4096 {
                let b = &self.objs[id].data[off..off + *n as usize];
                return Some(String::from_utf8_lossy(b).into_owned());
            }
        }
        None
    }

    fn var(&mut self, name: &str) -> G {
        if let Some(g) = self.vars.get(name) {
            return *g;
        }
        let g = self.b.new_var(name.to_string());
        self.vars.insert(name.to_string(), g);
        g
    }

    fn rank_of(&mut self, code: u64) -> u32 {
        if let Some(r) = self.rank.get(&code) {
            return *r;
        }
        let r = self.rank_code.len() as u32;
        self.rank_code.push(code);
        self.rank.insert(code, r);
        r
    }

    fn slot_obj(&mut self, h: u32, r: u32, g: G) -> u32 {
        let id = match self.handles[h as usize].slots.get(&r) {
            Some(i) => *i,
            None => {
                let sz = self.handles[h as usize].slot_size;
                let i = self.obj_get(sz, What::Slot);
                self.handles[h as usize].slots.insert(r, i);
                i
            }
        };
        if !self.b.implies(g, self.objs[id as usize].live) {
            self.revive(id, g);
        }
        id
    }

    fn handle_parts(&mut self, cx: &mut Cx, v: &Val) -> Vec<(G, u32)> {
        let ps = self.full_parts(cx, v, cx.g);
        let mut out = vec![];
        for (g, h) in ps {
            if h == 0 || h as usize >= self.handles.len() {
                self.fatal(cx, format!("bad container handle {}", h));
            }
            let live = self.handles[h as usize].live;
            if !self.b.implies(g, live) {
                self.fatal(cx, "use of a dropped container".into());
            }
            out.push((g, h as u32));
        }
        out
    }

    fn pres(&self, h: u32, r: u32) -> G {
        *self.handles[h as usize].pres.get(&r).unwrap_or(&F)
    }

    fn count(&mut self, gs: &[G], g: G) -> Val {
        let mut dp = vec![g];
        for &p in gs {
            let mut nd = vec![F; dp.len() + 1];
            for (k, d) in dp.iter().enumerate() {
                let y = self.b.and(*d, p);
                let n = self.b.diff(*d, p);
                nd[k] = self.b.or(nd[k], n);
                nd[k + 1] = self.b.or(nd[k + 1], y);
            }
            while nd.len() > 1 && *nd.last().unwrap() == F {
                nd.pop();
            }
            dp = nd;
        }
        let v: Vec<(G, u128)> = dp.into_iter().enumerate().filter(|x| x.1 != F).map(|(k, d)| (d, k as u128)).collect();
        build(&mut self.b, v)
    }

    fn native(&mut self, cx: &mut Cx, it: &mut Item, c: &CallI, n: Nat, name: &Rc<str>) -> Flow {
        let mut a: Vec<Val> = vec![];
        if n != Nat::Nop {
            for v in &c.args {
                for x in v {
                    a.push(self.rd(cx, *x));
                }
            }
        }
        let mut ret: Option<Val> = None;
        match n {
            Nat::Nop => {}
            Nat::Panic => {
                let mut loc = None;
                for x in a.iter().rev() {
                    loc = self.location(x);
                    if loc.is_some() {
                        break;
                    }
                }
                let mut msg = String::new();
                if a.len() == 3 {
                    if let Some(s) = self.string(&a[0], &a[1]) {
                        msg = format!(" ({})", s);
                    }
                }
                let l = format!("{}{}", loc.unwrap_or_else(|| name.to_string()), msg);
                self.violate(cx.frame, "panic", -1, l, cx.g, F);
                let g = cx.g;
                self.kill(cx, g);
                return Flow::Dead;
            }
            Nat::Trap => {
                self.violate(cx.frame, "abort", -1, "abort".into(), cx.g, F);
                let g = cx.g;
                self.kill(cx, g);
                return Flow::Dead;
            }
            Nat::Bool => {
                let id = self.conc(cx, &a[0]);
                let v = self.var(&format!("b{}", id));
                let nv = self.b.not(v);
                ret = Some(restrict(&mut self.b, &Val::S(Rc::new(vec![(nv, 0), (v, 1)])), cx.g));
            }
            Nat::Choice => {
                let id = self.conc(cx, &a[0]);
                let n = self.conc(cx, &a[1]);
                let mut bits = 0;
                while (1u128 << bits) < n {
                    bits += 1;
                }
                let vs: Vec<G> = (0..bits).rev().map(|k| self.var(&format!("c{}_{}", id, k))).collect();
                let mut out = vec![];
                for code in 0..(1u128 << bits) {
                    let mut g = cx.g;
                    for (j, v) in vs.iter().enumerate() {
                        let k = bits - 1 - j;
                        g = if code >> k & 1 == 1 { self.b.and(g, *v) } else { self.b.diff(g, *v) };
                    }
                    if g != F {
                        out.push((g, code.min(n - 1)));
                    }
                }
                ret = Some(build(&mut self.b, out));
            }
            Nat::Param => {
                let id = self.conc(cx, &a[0]) as u32;
                let v = match self.params.get(&id) {
                    Some(v) => *v,
                    None if id >= 90 => 0,
                    None => self.fatal(cx, format!("parameter {} not given", id)),
                };
                ret = Some(Val::C(v as u128));
            }
            Nat::Assume => {
                let mut ok = F;
                for (g, x) in self.full_parts(cx, &a[0], cx.g) {
                    if x & 1 == 1 {
                        ok = self.b.or(ok, g);
                    }
                }
                let bad = self.b.diff(cx.g, ok);
                self.assumed_out = self.b.or(self.assumed_out, bad);
                self.alive = self.b.diff(self.alive, bad);
                cx.g = ok;
                if ok == F {
                    return Flow::Dead;
                }
            }
            Nat::Assert | Nat::Cover => {
                let mut ok = F;
                for (g, x) in self.full_parts(cx, &a[0], cx.g) {
                    if x & 1 == 1 {
                        ok = self.b.or(ok, g);
                    }
                }
                let id = self.conc(cx, &a[1]) as i64;
                if n == Nat::Assert {
                    self.nassert += 1;
                    self.violate(cx.frame, "assert", id, String::new(), cx.g, ok);
                } else {
                    let o = *self.covers.get(&id).unwrap_or(&F);
                    let x = self.b.or(o, ok);
                    self.covers.insert(id, x);
                }
            }
            Nat::HashPush => {
                let w = self.conc(cx, &a[2]) as u32;
                let (p, q) = (self.full_parts(cx, &a[0], cx.g), a[1].clone());
                let mut out = vec![];
                for (g, s) in p {
                    for (g, x) in self.full_parts(cx, &q, g) {
                        let k = (s as u64, x as u64, w);
                        let code = match self.codes.get(&k) {
                            Some(c) => *c,
                            None => {
                                let c = self.ncodes;
                                self.ncodes += 1;
                                self.codes.insert(k, c);
                                c
                            }
                        };
                        out.push((g, code as u128));
                    }
                }
                ret = Some(build(&mut self.b, out));
            }
            Nat::New => {
                let sz = self.conc(cx, &a[0]) as u64;
                let pos = self.intern_key(&it.key);
                let list = self.hpools.get(&pos).cloned().unwrap_or_default();
                let mut found = None;
                for h in list {
                    let l = self.b.and(self.handles[h as usize].live, self.alive);
                    if self.handles[h as usize].slot_size == sz && self.b.disjoint(l, cx.g) {
                        found = Some((h, l));
                        break;
                    }
                }
                let h = match found {
                    Some((h, l)) => {
                        self.clear_handle(h, cx.g);
                        let nl = self.b.or(l, cx.g);
                        self.handles[h as usize].live = nl;
                        h
                    }
                    None => {
                        let h = self.handles.len() as u32;
                        self.handles.push(Handle { live: cx.g, slot_size: sz, pres: BTreeMap::new(), slots: HashMap::new() });
                        self.hpools.entry(pos).or_default().push(h);
                        h
                    }
                };
                ret = Some(Val::C(h as u128));
            }
            Nat::Free => {
                for (g, h) in self.handle_parts(cx, &a[0].clone()) {
                    self.clear_handle(h, g);
                    let l = self.b.diff(self.handles[h as usize].live, g);
                    let l = self.b.and(l, self.alive);
                    self.handles[h as usize].live = l;
                    let mut slots: Vec<u32> = self.handles[h as usize].slots.values().cloned().collect();
                    slots.sort();
                    for o in slots {
                        self.free_obj(o, g);
                    }
                }
            }
            Nat::Clear => {
                for (g, h) in self.handle_parts(cx, &a[0].clone()) {
                    self.clear_handle(h, g);
                }
            }
            Nat::Find | Nat::Has | Nat::Mark | Nat::Slot | Nat::Unmark => {
                let mut out = vec![];
                for (g, h) in self.handle_parts(cx, &a[0].clone()) {
                    for (g, code) in self.full_parts(cx, &a[1], g) {
                        let known = self.rank.contains_key(&(code as u64));
                        if !known && matches!(n, Nat::Find | Nat::Has | Nat::Unmark) {
                            out.push((g, 0));
                            continue;
                        }
                        let r = self.rank_of(code as u64);
                        let p = self.pres(h, r);
                        match n {
                            Nat::Find => {
                                let y = self.b.and(g, p);
                                if y != F {
                                    let o = self.handles[h as usize].slots[&r];
                                    out.push((y, (o as u128) << 32));
                                }
                                let z = self.b.diff(g, p);
                                if z != F {
                                    out.push((z, 0));
                                }
                            }
                            Nat::Slot => {
                                let o = self.slot_obj(h, r, g);
                                out.push((g, (o as u128) << 32));
                            }
                            _ => {
                                let y = self.b.and(g, p);
                                let z = self.b.diff(g, p);
                                if y != F {
                                    out.push((y, 1));
                                }
                                if z != F {
                                    out.push((z, 0));
                                }
                                if n == Nat::Mark {
                                    let np = self.b.or(p, g);
                                    let np = self.b.and(np, self.alive);
                                    self.handles[h as usize].pres.insert(r, np);
                                } else if n == Nat::Unmark && y != F {
                                    let np = self.b.diff(p, g);
                                    if np == F {
                                        self.handles[h as usize].pres.remove(&r);
                                    } else {
                                        self.handles[h as usize].pres.insert(r, np);
                                    }
                                }
                            }
                        }
                    }
                }
                ret = Some(build(&mut self.b, out));
            }
            Nat::Len | Nat::Remaining => {
                let mut out = vec![];
                for (g, h) in self.handle_parts(cx, &a[0].clone()) {
                    let cur = if n == Nat::Len { vec![(g, 0)] } else { self.full_parts(cx, &a[1], g) };
                    for (g, c) in cur {
                        let ps: Vec<G> = self.handles[h as usize].pres.range(c as u32..).map(|x| *x.1).collect();
                        let v = self.count(&ps, g);
                        out.extend(parts(&mut self.b, &v, g));
                    }
                }
                ret = Some(build(&mut self.b, out));
            }
            Nat::Empty => {
                let mut out = vec![];
                for (g, h) in self.handle_parts(cx, &a[0].clone()) {
                    let mut any = F;
                    let ps: Vec<G> = self.handles[h as usize].pres.values().cloned().collect();
                    for p in ps {
                        any = self.b.or(any, p);
                    }
                    let y = self.b.and(g, any);
                    let z = self.b.diff(g, any);
                    if y != F {
                        out.push((y, 0));
                    }
                    if z != F {
                        out.push((z, 1));
                    }
                }
                ret = Some(build(&mut self.b, out));
            }
            Nat::Subset => {
                let mut out = vec![];
                for (g, h) in self.handle_parts(cx, &a[0].clone()) {
                    let c2 = Cx { frame: cx.frame, g, rest: F };
                    for (g, h2) in self.handle_parts_g(&c2, &a[1].clone()) {
                        let ps: Vec<(u32, G)> = self.handles[h as usize].pres.iter().map(|x| (*x.0, *x.1)).collect();
                        let mut bad = F;
                        for (r, p) in ps {
                            let q = self.pres(h2, r);
                            let d = self.b.diff(p, q);
                            let d = self.b.and(d, g);
                            bad = self.b.or(bad, d);
                        }
                        let ok = self.b.diff(g, bad);
                        if ok != F {
                            out.push((ok, 1));
                        }
                        if bad != F {
                            out.push((bad, 0));
                        }
                    }
                }
                ret = Some(build(&mut self.b, out));
            }
            Nat::Copy => {
                for (g, d) in self.handle_parts(cx, &a[0].clone()) {
                    let c2 = Cx { frame: cx.frame, g, rest: F };
                    for (g, s) in self.handle_parts_g(&c2, &a[1].clone()) {
                        let ps: Vec<(u32, G)> = self.handles[s as usize].pres.iter().map(|x| (*x.0, *x.1)).collect();
                        for (r, p) in ps {
                            let y = self.b.and(p, g);
                            if y == F {
                                continue;
                            }
                            let so = self.handles[s as usize].slots[&r];
                            let d_o = self.slot_obj(d, r, y);
                            let sz = self.handles[s as usize].slot_size as u32;
                            if sz > 0 {
                                self.copy_obj(d_o, 0, so, 0, sz, y);
                            }
                            let np = self.b.or(self.pres(d, r), y);
                            self.handles[d as usize].pres.insert(r, np);
                        }
                    }
                }
            }
            Nat::KeyAt => {
                let codes = self.rank_code.clone();
                ret = Some(map1(&mut self.b, &a[0], |r| codes.get(r as usize).map(|c| *c as u128)));
            }
            Nat::IterNew => {
                let k = self.intern_key(&it.key);
                ret = Some(Val::C(k as u128));
            }
            Nat::Next => return self.next(cx, it, c, &a),
            Nat::Alloc | Nat::AllocZ => {
                let mut out = vec![];
                let pos = self.intern_key(&it.key);
                for (g, sz) in self.full_parts(cx, &a[0], cx.g) {
                    let o = self.alloc(pos, sz as u64, g, false, What::Heap);
                    if n == Nat::AllocZ {
                        let rest = self.rest_of(o, g);
                        if rest == F {
                            let c2 = Cx { frame: cx.frame, g, rest };
                            self.fill(&c2, o, 0, sz as u64, 0);
                        } else {
                            self.set(o, 0, sz as u32, &Val::C(0), g);
                        }
                    }
                    out.push((g, (o as u128) << 32));
                }
                ret = Some(build(&mut self.b, out));
            }
            Nat::Dealloc => {
                for (g, p) in self.full_parts(cx, &a[0], cx.g) {
                    if let Some((id, _, g)) = self.access(cx, g, p, 0, "free") {
                        self.free_obj(id, g);
                    }
                }
            }
            Nat::Realloc => {
                let pos = self.intern_key(&it.key);
                let mut out = vec![];
                for (g, p) in self.full_parts(cx, &a[0], cx.g) {
                    for (g, old) in self.full_parts(cx, &a[1], g) {
                        for (g, sz) in self.full_parts(cx, &a[3], g) {
                            if let Some((id, off, g)) = self.access(cx, g, p, old as u64, "realloc") {
                                let o = self.alloc(pos, sz as u64, g, false, What::Heap);
                                let n = (old as u64).min(sz as u64);
                                self.copy_obj(o, 0, id, off, n as u32, g);
                                self.free_obj(id, g);
                                out.push((g, (o as u128) << 32));
                            }
                        }
                    }
                }
                ret = Some(build(&mut self.b, out));
            }
            Nat::Memcpy => {
                let (d, s, l) = (a[0].clone(), a[1].clone(), a[2].clone());
                self.memcpy(cx, &d, &s, &l);
                ret = Some(d);
            }
            Nat::Memset => {
                let (d, v, l) = (a[0].clone(), a[1].clone(), a[2].clone());
                for (g, n) in self.full_parts(cx, &l, cx.g) {
                    if n == 0 {
                        continue;
                    }
                    for (g, d) in self.full_parts(cx, &d, g) {
                        if let Some((id, off, g)) = self.access(cx, g, d, n as u64, "fill") {
                            self.set(id, off, n as u32, &v, g);
                        }
                    }
                }
                ret = Some(d);
            }
            Nat::Memcmp => {
                let mut out = vec![];
                for (g, n) in self.full_parts(cx, &a[2], cx.g) {
                    if n == 0 {
                        out.push((g, 0));
                        continue;
                    }
                    for (g, p) in self.full_parts(cx, &a[0], g) {
                        for (g, q) in self.full_parts(cx, &a[1], g) {
                            if let Some((pi, po, g)) = self.access(cx, g, p, n as u64, "compare") {
                                if let Some((qi, qo, g)) = self.access(cx, g, q, n as u64, "compare") {
                                    let mut acc = Val::C(0);
                                    for k in (0..n as u32).rev() {
                                        let x = self.ld(pi, po + k, 1, g);
                                        let y = self.ld(qi, qo + k, 1, g);
                                        let d = map2(&mut self.b, &x, &y, |x, y| Some((x as i64 - y as i64) as u32 as u128));
                                        acc = map2(&mut self.b, &d, &acc, |d, a| Some(if d != 0 { d } else { a }));
                                    }
                                    out.extend(parts(&mut self.b, &acc, g));
                                }
                            }
                        }
                    }
                }
                ret = Some(build(&mut self.b, out));
            }
            Nat::Strlen => {
                let p = self.conc(cx, &a[0]);
                let mut k = 0;
                loop {
                    match self.access(cx, cx.g, p + k, 1, "strlen") {
                        Some((id, off, g)) => {
                            if let Val::C(0) = self.ld(id, off, 1, g) {
                                break;
                            }
                        }
                        None => return Flow::Dead,
                    }
                    k += 1;
                }
                ret = Some(Val::C(k));
            }
            Nat::Id => ret = Some(a[0].clone()),
            Nat::Un(op) => {
                let bits = c.arg_bits[0];
                ret = Some(map1(&mut self.b, &a[0], |x| unop(op, bits, x)));
            }
            Nat::Two(op) => {
                let bits = c.arg_bits[0];
                match op {
                    "is.constant" => ret = Some(Val::C(0)),
                    "fshl" | "fshr" => {
                        let s = a[2].clone();
                        // concatenate then shift
                        let mut out = vec![];
                        for (g, s) in self.full_parts(cx, &s, cx.g) {
                            let s = (s % bits as u128) as u32;
                            let v = map2(&mut self.b, &a[0], &a[1], |x, y| {
                                let m = mask(bits);
                                Some(if op == "fshl" {
                                    if s == 0 {
                                        x
                                    } else {
                                        ((x << s) | (y >> (bits - s))) & m
                                    }
                                } else if s == 0 {
                                    y
                                } else {
                                    ((x << (bits - s)) | (y >> s)) & m
                                })
                            });
                            out.extend(parts(&mut self.b, &v, g));
                        }
                        ret = Some(build(&mut self.b, out));
                    }
                    _ if op.ends_with("overflow") => {
                        let r = map2(&mut self.b, &a[0], &a[1], |x, y| Some(overflow(op, bits, x, y).0));
                        let o = map2(&mut self.b, &a[0], &a[1], |x, y| Some(overflow(op, bits, x, y).1 as u128));
                        self.wr(cx, c.dst, r);
                        self.wr(cx, c.dst + 1, o);
                        return self.after_call(cx, it, c);
                    }
                    _ => {
                        // lane-wise for vectors
                        let half = c.args[0].len();
                        if half > 1 {
                            for k in 0..half {
                                let v = map2(&mut self.b, &a[k], &a[half + k], |x, y| twoop(op, bits, x, y));
                                self.wr(cx, c.dst + k as u32, v);
                            }
                            return self.after_call(cx, it, c);
                        }
                        ret = Some(map2(&mut self.b, &a[0], &a[1], |x, y| twoop(op, bits, x, y)));
                    }
                }
            }
            Nat::Unknown => self.fatal(cx, format!("call of external function {}", name)),
        }
        if cx.g == F {
            return Flow::Dead;
        }
        if let Some(v) = ret {
            if c.ndst > 0 {
                let v = restrict(&mut self.b, &v, cx.g);
                self.wr(cx, c.dst, v);
            }
        }
        self.after_call(cx, it, c)
    }

    fn handle_parts_g(&mut self, cx: &Cx, v: &Val) -> Vec<(G, u32)> {
        let mut c = Cx { frame: cx.frame, g: cx.g, rest: cx.rest };
        self.handle_parts(&mut c, v)
    }

    fn set(&mut self, id: u32, off: u32, n: u32, v: &Val, g: G) {
        let rest = self.rest_of(id, g);
        if rest == F {
            if let Val::C(c) = v {
                let cx = Cx { frame: 0, g, rest };
                self.fill(&cx, id, off, n as u64, *c as u8);
                return;
            }
        }
        for k in 0..n {
            self.st(id, off + k, 1, v, g);
        }
    }

    fn clear_handle(&mut self, h: u32, g: G) {
        let ps: Vec<(u32, G)> = self.handles[h as usize].pres.iter().map(|x| (*x.0, *x.1)).collect();
        for (r, p) in ps {
            let np = self.b.diff(p, g);
            if np == F {
                self.handles[h as usize].pres.remove(&r);
            } else {
                self.handles[h as usize].pres.insert(r, np);
            }
        }
    }

    /// Iteration step: returns the next present key at or after the cursor.
    fn next(&mut self, cx: &mut Cx, it: &mut Item, c: &CallI, a: &[Val]) -> Flow {
        let cursor_sc = Sc { off: 0, bits: 64, float: false };
        let hs = self.handle_parts(cx, &a[0].clone());
        let cv = self.load(cx, &a[2].clone(), &cursor_sc);
        if cx.g == F {
            return Flow::Dead;
        }
        // combinations of handle and cursor
        let mut combos: Vec<(G, u32, u32)> = vec![];
        for (g, h) in hs {
            for (g, c) in self.full_parts(cx, &cv, g) {
                combos.push((g, h, c as u32));
            }
        }
        // the loop this call advances
        let pos = match &a[1] {
            Val::C(p) => *p as usize,
            Val::S(p) => p[0].1 as usize,
            Val::U => self.fatal(cx, "iterator".into()),
        };
        let ck = &self.key_list[pos];
        let mut l = None;
        let mut i = 0;
        while i < ck.len() && i < it.key.len() && ck[i] == it.key[i] {
            i += 1;
        }
        while i < it.key.len() {
            if it.key[i] & TICK != 0 {
                l = Some(i);
                break;
            }
            i += 1;
        }
        // candidates
        let mut best: Option<u32> = None;
        for &(g, h, c) in &combos {
            let cand: Vec<(u32, G)> = self.handles[h as usize].pres.range(c..).map(|x| (*x.0, *x.1)).collect();
            for (r, p) in cand {
                if let Some(b) = best {
                    if r >= b {
                        break;
                    }
                }
                if !self.b.disjoint(p, g) {
                    best = Some(r);
                    break;
                }
            }
        }
        let l = match l {
            Some(l) => l,
            None => {
                // not in a loop: pick the next element of every combination at once
                let mut out = vec![];
                let mut cur = vec![];
                for &(g, h, c) in &combos {
                    let mut left = g;
                    let cand: Vec<(u32, G)> = self.handles[h as usize].pres.range(c..).map(|x| (*x.0, *x.1)).collect();
                    for (r, p) in cand {
                        let y = self.b.and(left, p);
                        if y != F {
                            let o = self.handles[h as usize].slots[&r];
                            out.push((y, (o as u128) << 32));
                            cur.push((y, r as u128 + 1));
                            left = self.b.diff(left, p);
                        }
                    }
                    if left != F {
                        out.push((left, 0));
                        cur.push((left, c as u128));
                    }
                }
                let v = build(&mut self.b, out);
                let cu = build(&mut self.b, cur);
                self.store(cx, &a[2].clone(), &cursor_sc, &cu);
                self.wr(cx, c.dst, v);
                return self.after_call(cx, it, c);
            }
        };
        let t = it.key[l];
        let epoch = if t & DRIVEN != 0 { (t >> 31) & ((1 << 31) - 1) } else { 0 };
        match best {
            None => {
                self.wr(cx, c.dst, Val::C(0));
                let mut key = it.key.clone();
                key[l] = TICK | DRIVEN | (epoch + 1) << 31;
                for x in key[l + 1..].iter_mut() {
                    if *x & TICK != 0 {
                        *x = TICK;
                    }
                }
                let mut n = Item { frame: it.frame, block: it.block, ip: it.ip, key, bases: it.bases.clone(), g: cx.g };
                match c.normal {
                    None => {
                        n.ip += 1;
                        *n.key.last_mut().unwrap() = n.ip as u64;
                        Flow::Jump(n)
                    }
                    Some(b) => Flow::Jump(self.goto(cx, &n, b, cx.g)),
                }
            }
            Some(r) => {
                let want = TICK | DRIVEN | epoch << 31 | (r as u64 & RANK);
                if t != want {
                    let mut key = it.key.clone();
                    key[l] = want;
                    for x in key[l + 1..].iter_mut() {
                        if *x & TICK != 0 {
                            *x = TICK;
                        }
                    }
                    return Flow::Jump(Item { frame: it.frame, block: it.block, ip: it.ip, key, bases: it.bases.clone(), g: cx.g });
                }
                let mut out = vec![];
                let mut have = F;
                let mut passed = F;
                for &(g, h, c) in &combos {
                    if c > r {
                        continue;
                    }
                    passed = self.b.or(passed, g);
                    let y = self.b.and(g, self.pres(h, r));
                    if y != F {
                        let o = self.handles[h as usize].slots[&r];
                        out.push((y, (o as u128) << 32));
                        have = self.b.or(have, y);
                    }
                }
                // whoever is at or before r has no key in between
                let c2 = self.cx(cx.frame, passed);
                let mut c3 = Cx { frame: cx.frame, g: passed, rest: c2.rest };
                self.store(&mut c3, &a[2].clone(), &cursor_sc, &Val::C(r as u128 + 1));
                let absent = self.b.diff(cx.g, have);
                let v = build(&mut self.b, out);
                let pcx = self.cx(cx.frame, have);
                self.wr(&pcx, c.dst, v);
                let mut n = Item { frame: it.frame, block: it.block, ip: it.ip, key: it.key.clone(), bases: it.bases.clone(), g: have };
                let n = match c.normal {
                    None => {
                        n.ip += 1;
                        *n.key.last_mut().unwrap() = n.ip as u64;
                        n
                    }
                    Some(b) => self.goto(&pcx, &n, b, have),
                };
                if absent == F {
                    return Flow::Jump(n);
                }
                let mut key = it.key.clone();
                key[l] = want + 1;
                for x in key[l + 1..].iter_mut() {
                    if *x & TICK != 0 {
                        *x = TICK;
                    }
                }
                let w = Item { frame: it.frame, block: it.block, ip: it.ip, key, bases: it.bases.clone(), g: absent };
                Flow::Yield(vec![n, w])
            }
        }
    }
}

fn native(n: &str) -> Option<Nat> {
    Some(match n {
        "gb_bool_raw" => Nat::Bool,
        "gb_choice_raw" => Nat::Choice,
        "gb_assume_raw" => Nat::Assume,
        "gb_assert_raw" => Nat::Assert,
        "gb_cover_raw" => Nat::Cover,
        "gb_param_raw" => Nat::Param,
        "gbm_hash_push" => Nat::HashPush,
        "gbm_new" => Nat::New,
        "gbm_free" => Nat::Free,
        "gbm_clear" => Nat::Clear,
        "gbm_find" => Nat::Find,
        "gbm_has" => Nat::Has,
        "gbm_mark" => Nat::Mark,
        "gbm_slot" => Nat::Slot,
        "gbm_unmark" => Nat::Unmark,
        "gbm_len" => Nat::Len,
        "gbm_empty" => Nat::Empty,
        "gbm_iter_new" => Nat::IterNew,
        "gbm_next" => Nat::Next,
        "gbm_remaining" => Nat::Remaining,
        "gbm_subset" => Nat::Subset,
        "gbm_copy" => Nat::Copy,
        "gbm_key_at" => Nat::KeyAt,
        "memcmp" | "bcmp" => Nat::Memcmp,
        "strlen" => Nat::Strlen,
        "memcpy" | "memmove" => Nat::Memcpy,
        "memset" => Nat::Memset,
        "abort" | "llvm.trap" | "llvm.ubsantrap" => Nat::Trap,
        _ => {
            if let Some(r) = n.strip_prefix("llvm.") {
                let base = r;
                for p in ["lifetime.", "assume", "experimental.noalias", "dbg.", "donothing", "prefetch", "x86.sse2.pause", "invariant."] {
                    if base.starts_with(p) {
                        return Some(Nat::Nop);
                    }
                }
                if base.starts_with("memcpy") || base.starts_with("memmove") {
                    return Some(Nat::Memcpy);
                }
                if base.starts_with("memset") {
                    return Some(Nat::Memset);
                }
                if base.starts_with("expect") || base.starts_with("threadlocal.address") || base.starts_with("launder") || base.starts_with("ssa.copy") {
                    return Some(Nat::Id);
                }
                for u in ["ctpop", "ctlz", "cttz", "bswap", "bitreverse", "abs", "fabs", "floor", "ceil", "sqrt", "round", "trunc", "rint"] {
                    if base.starts_with(&format!("{}.", u)) {
                        return Some(Nat::Un(match u {
                            "ctpop" => "ctpop",
                            "ctlz" => "ctlz",
                            "cttz" => "cttz",
                            "bswap" => "bswap",
                            "bitreverse" => "bitreverse",
                            "abs" => "abs",
                            "fabs" => "fabs",
                            "floor" => "floor",
                            "ceil" => "ceil",
                            "sqrt" => "sqrt",
                            "round" => "round",
                            "trunc" => "trunc",
                            _ => "rint",
                        }));
                    }
                }
                for u in [
                    "uadd.with.overflow",
                    "usub.with.overflow",
                    "umul.with.overflow",
                    "sadd.with.overflow",
                    "ssub.with.overflow",
                    "smul.with.overflow",
                    "uadd.sat",
                    "usub.sat",
                    "sadd.sat",
                    "ssub.sat",
                    "umax",
                    "umin",
                    "smax",
                    "smin",
                    "ucmp",
                    "scmp",
                    "fshl",
                    "fshr",
                    "is.constant",
                    "maxnum",
                    "minnum",
                    "pow",
                    "ptrmask",
                    "fptoui.sat",
                ] {
                    if base.starts_with(u) {
                        return Some(Nat::Two(u));
                    }
                }
                return Some(Nat::Unknown);
            }
            if n.ends_with("12___rust_alloc") || n == "malloc" {
                return Some(Nat::Alloc);
            }
            if n.ends_with("19___rust_alloc_zeroed") {
                return Some(Nat::AllocZ);
            }
            if n.ends_with("14___rust_dealloc") || n == "free" {
                return Some(Nat::Dealloc);
            }
            if n.ends_with("14___rust_realloc") {
                return Some(Nat::Realloc);
            }
            if n.contains("rust_no_alloc_shim_is_unstable") {
                return Some(Nat::Nop);
            }
            if n.contains("4core9panicking")
                || n.contains("4core6option13unwrap_failed")
                || n.contains("4core6option13expect_failed")
                || n.contains("4core6result13unwrap_failed")
                || n.contains("3std9panicking11begin_panic")
                || n.contains("rust_begin_unwind")
                || n.contains("5alloc5alloc18handle_alloc_error")
                || n.contains("5alloc7raw_vec12handle_error")
                || n.contains("5alloc7raw_vec17capacity_overflow")
            {
                return Some(Nat::Panic);
            }
            return None;
        }
    })
}

fn binop(op: Bin, bits: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(bits);
    Some(match op {
        Bin::Add => x.wrapping_add(y) & m,
        Bin::Sub => x.wrapping_sub(y) & m,
        Bin::Mul => x.wrapping_mul(y) & m,
        Bin::UDiv => x.checked_div(y)?,
        Bin::URem => x.checked_rem(y)?,
        Bin::SDiv => sx(x, bits).checked_div(sx(y, bits))? as u128 & m,
        Bin::SRem => sx(x, bits).checked_rem(sx(y, bits))? as u128 & m,
        Bin::Shl => {
            if y >= bits as u128 {
                return None;
            }
            (x << y) & m
        }
        Bin::LShr => {
            if y >= bits as u128 {
                return None;
            }
            x >> y
        }
        Bin::AShr => {
            if y >= bits as u128 {
                return None;
            }
            (sx(x, bits) >> y) as u128 & m
        }
        Bin::And => x & y,
        Bin::Or => x | y,
        Bin::Xor => x ^ y,
        Bin::FAdd => fromf(bits, tof(bits, x) + tof(bits, y)),
        Bin::FSub => fromf(bits, tof(bits, x) - tof(bits, y)),
        Bin::FMul => fromf(bits, tof(bits, x) * tof(bits, y)),
        Bin::FDiv => fromf(bits, tof(bits, x) / tof(bits, y)),
        Bin::FRem => fromf(bits, tof(bits, x) % tof(bits, y)),
    })
}
fn tof(bits: u32, x: u128) -> f64 {
    if bits == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x as u64)
    }
}
fn fromf(bits: u32, x: f64) -> u128 {
    // single operations in double precision round correctly to single for + - * / sqrt
    if bits == 32 {
        (x as f32).to_bits() as u128
    } else {
        x.to_bits() as u128
    }
}
fn icmp(p: &str, bits: u32, x: u128, y: u128) -> bool {
    match p {
        "eq" => x == y,
        "ne" => x != y,
        "ugt" => x > y,
        "uge" => x >= y,
        "ult" => x < y,
        "ule" => x <= y,
        "sgt" => sx(x, bits) > sx(y, bits),
        "sge" => sx(x, bits) >= sx(y, bits),
        "slt" => sx(x, bits) < sx(y, bits),
        _ => sx(x, bits) <= sx(y, bits),
    }
}
fn fcmp(p: &str, x: f64, y: f64) -> bool {
    let un = x.is_nan() || y.is_nan();
    match p {
        "oeq" => x == y,
        "ogt" => x > y,
        "oge" => x >= y,
        "olt" => x < y,
        "ole" => x <= y,
        "one" => !un && x != y,
        "ord" => !un,
        "uno" => un,
        "ueq" => un || x == y,
        "ugt" => un || x > y,
        "uge" => un || x >= y,
        "ult" => un || x < y,
        "ule" => un || x <= y,
        "une" => x != y,
        "true" => true,
        _ => false,
    }
}
fn cast(op: Cast, from: u32, to: u32, x: u128) -> u128 {
    match op {
        Cast::Trunc | Cast::PtrInt => x & mask(to),
        Cast::ZExt | Cast::Bitcast => x,
        Cast::SExt => sx(x, from) as u128 & mask(to),
        Cast::FpToUi => (tof(from, x) as u128) & mask(to),
        Cast::FpToSi => (tof(from, x) as i128) as u128 & mask(to),
        Cast::UiToFp => {
            if to == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Cast::SiToFp => {
            if to == 32 {
                (sx(x, from) as f32).to_bits() as u128
            } else {
                (sx(x, from) as f64).to_bits() as u128
            }
        }
        Cast::FpTrunc | Cast::FpExt => fromf(to, tof(from, x)),
    }
}
fn unop(op: &str, bits: u32, x: u128) -> Option<u128> {
    Some(match op {
        "ctpop" => x.count_ones() as u128,
        "ctlz" => (x.leading_zeros() - (128 - bits)) as u128,
        "cttz" => {
            if x == 0 {
                bits as u128
            } else {
                x.trailing_zeros() as u128
            }
        }
        "bswap" => x.swap_bytes() >> (128 - bits),
        "bitreverse" => x.reverse_bits() >> (128 - bits),
        "abs" => sx(x, bits).unsigned_abs() & mask(bits),
        "fabs" => fromf(bits, tof(bits, x).abs()),
        "floor" => fromf(bits, tof(bits, x).floor()),
        "ceil" => fromf(bits, tof(bits, x).ceil()),
        "sqrt" => fromf(bits, tof(bits, x).sqrt()),
        "round" => fromf(bits, tof(bits, x).round()),
        "trunc" => fromf(bits, tof(bits, x).trunc()),
        _ => return None,
    })
}
fn twoop(op: &str, bits: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(bits);
    Some(match op {
        "uadd.sat" => x.saturating_add(y).min(m),
        "usub.sat" => x.saturating_sub(y),
        "umax" => x.max(y),
        "umin" => x.min(y),
        "smax" => sx(x, bits).max(sx(y, bits)) as u128 & m,
        "smin" => sx(x, bits).min(sx(y, bits)) as u128 & m,
        // only the low bits matter; stored with the width of an i8
        "ucmp" => (x.cmp(&y) as i8) as u8 as u128,
        "scmp" => (sx(x, bits).cmp(&sx(y, bits)) as i8) as u8 as u128,
        "maxnum" => fromf(bits, tof(bits, x).max(tof(bits, y))),
        "minnum" => fromf(bits, tof(bits, x).min(tof(bits, y))),
        "pow" => fromf(bits, tof(bits, x).powf(tof(bits, y))),
        "ptrmask" => x & y,
        _ => return None,
    })
}
fn overflow(op: &str, bits: u32, x: u128, y: u128) -> (u128, bool) {
    let m = mask(bits);
    match op {
        "uadd.with.overflow" => {
            let r = x.wrapping_add(y) & m;
            (r, r < x)
        }
        "usub.with.overflow" => (x.wrapping_sub(y) & m, x < y),
        "umul.with.overflow" => match x.checked_mul(y) {
            Some(r) => (r & m, r > m),
            None => (x.wrapping_mul(y) & m, true),
        },
        _ => {
            let (a, b) = (sx(x, bits), sx(y, bits));
            let r = match op {
                "sadd.with.overflow" => a.checked_add(b),
                "ssub.with.overflow" => a.checked_sub(b),
                _ => a.checked_mul(b),
            };
            match r {
                Some(r) => (r as u128 & m, sx(r as u128 & m, bits) != r),
                None => (0, true),
            }
        }
    }
}
