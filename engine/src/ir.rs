//! Reader for textual LLVM IR (the subset rustc emits). Function bodies are parsed on demand.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Rc<Ty>),
    Opaque,
}

/// One scalar of a flattened type.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sc {
    pub off: u64,
    pub bits: u32,
    pub float: bool,
}
impl Sc {
    pub fn bytes(&self) -> u64 {
        (self.bits as u64 + 7) / 8
    }
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 1,
            Ty::Int(b) => {
                if *b <= 8 {
                    1
                } else if *b <= 16 {
                    2
                } else if *b <= 32 {
                    4
                } else if *b <= 64 {
                    8
                } else {
                    16
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(_, _) => self.size().next_power_of_two(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(b) => align_up((*b as u64 + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            Ty::Vec(n, t) => match &**t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn elem(&self, i: u64) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(f, _) => &f[i as usize],
            _ => panic!("elem of scalar {:?}", self),
        }
    }
    pub fn nelem(&self) -> u64 {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(f, _) => f.len() as u64,
            _ => 0,
        }
    }
    pub fn flatten(&self) -> Vec<Sc> {
        let mut v = vec![];
        self.flat(0, &mut v);
        v
    }
    fn flat(&self, off: u64, v: &mut Vec<Sc>) {
        match self {
            Ty::Void | Ty::Opaque => {}
            Ty::Int(b) => v.push(Sc { off, bits: *b, float: false }),
            Ty::Ptr => v.push(Sc { off, bits: 64, float: false }),
            Ty::F32 => v.push(Sc { off, bits: 32, float: true }),
            Ty::F64 => v.push(Sc { off, bits: 64, float: true }),
            _ => {
                for i in 0..self.nelem() {
                    self.elem(i).flat(off + self.field_off(i), v)
                }
            }
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            _ => 1,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Atom {
    Slot(u32),
    K(u128),
    Undef,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrInt,
    Bitcast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Atom),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<Vec<Atom>>,
    pub arg_bits: Vec<u32>,
    pub dst: u32,
    pub ndst: u32,
    pub ret: Vec<Sc>,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, bits: u32, n: u32, a: Vec<Atom>, b: Vec<Atom>, dst: u32 },
    ICmp { pred: &'static str, bits: u32, a: Vec<Atom>, b: Vec<Atom>, dst: u32 },
    FCmp { pred: String, bits: u32, a: Atom, b: Atom, dst: u32 },
    FNeg { bits: u32, a: Atom, dst: u32 },
    Select { c: Vec<Atom>, a: Vec<Atom>, b: Vec<Atom>, dst: u32 },
    Load { sc: Vec<Sc>, p: Atom, dst: u32 },
    Store { sc: Vec<Sc>, v: Vec<Atom>, p: Atom },
    Gep { base: Atom, off: i64, idx: Vec<(Atom, u32, i64)>, dst: u32 },
    Alloca { size: u64, dst: u32 },
    Cast { op: Cast, from: u32, to: u32, a: Vec<Atom>, dst: u32 },
    Call(Box<CallI>),
    Br(u32),
    CondBr { c: Atom, t: u32, f: u32 },
    Switch { bits: u32, v: Atom, def: u32, cases: Rc<HashMap<u128, u32>> },
    Ret(Vec<Atom>),
    Unreachable,
    /// dst slots := atoms (extractvalue, insertvalue, shufflevector and similar)
    Move { v: Vec<Atom>, dst: u32 },
    Freeze { v: Vec<Atom>, dst: u32 },
    ExtractEl { v: Vec<Atom>, i: Atom, dst: u32 },
    InsertEl { v: Vec<Atom>, e: Atom, i: Atom, dst: u32 },
    Rmw { op: String, bits: u32, p: Atom, v: Atom, dst: u32 },
    CmpXchg { bits: u32, p: Atom, c: Atom, n: Atom, dst: u32 },
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
    /// (destination slot, number of slots, incoming atoms per predecessor)
    pub phis: Vec<(u32, HashMap<u32, Vec<Atom>>)>,
    /// key template: (value, loop id or u32::MAX)
    pub path: Vec<(u64, u32)>,
    pub header_of: u32,
    pub reachable: bool,
    pub pdom: u32,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(u32, u32)>,
    pub nslots: u32,
    pub blocks: Vec<Block>,
    pub noreturn: bool,
}

pub struct Module {
    pub text: &'static str,
    pub types: HashMap<String, Ty>,
    /// name -> (type+initialiser text offset, is definition)
    pub globals: HashMap<Rc<str>, (usize, bool)>,
    /// name -> offset of the `define` line
    pub defs: HashMap<Rc<str>, usize>,
    pub decls: HashMap<Rc<str>, usize>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
}

pub trait Resolver {
    fn global_addr(&mut self, name: &str) -> u128;
}

pub struct P<'a> {
    s: &'a [u8],
    pub i: usize,
    types: &'a HashMap<String, Ty>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    pub fn new(text: &'a str, i: usize, types: &'a HashMap<String, Ty>) -> Self {
        P { s: text.as_bytes(), i, types }
    }
    fn fail(&self, m: &str) -> ! {
        let e = (self.i + 120).min(self.s.len());
        let b = self.i.saturating_sub(80);
        panic!("IR parse error: {} at: {} <<HERE>> {}", m, String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]))
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                self.eol();
            } else {
                break;
            }
        }
    }
    /// skip blanks on the same line
    fn sp(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    pub fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn at(&mut self, w: &str) -> bool {
        self.ws();
        self.s[self.i..].starts_with(w.as_bytes())
    }
    fn eat(&mut self, w: &str) -> bool {
        if self.at(w) {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, w: &str) {
        if !self.eat(w) {
            self.fail(&format!("expected {}", w));
        }
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_word(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                b'"' => {
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                _ => {}
            }
        }
    }
    /// after % or @
    pub fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            String::from_utf8_lossy(&self.s[st..self.i - 1]).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_word(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn int(&mut self) -> u64 {
        self.ws();
        let st = self.i;
        while self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap()
    }
    fn at_type(&mut self) -> bool {
        let c = self.peek();
        if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
            return true;
        }
        let w = self.peek_word();
        if w == "ptr" || w == "void" || w == "float" || w == "double" || w == "label" || w == "metadata" || w == "half" || w == "token" || w == "opaque" {
            return true;
        }
        w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit())
    }
    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(f, false)
            }
            b'[' => {
                self.i += 1;
                let n = self.int();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}');
                    self.expect(">");
                    Ty::Struct(f, true)
                } else {
                    let n = self.int();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.types.get(&n) {
                    Some(t) => t.clone(),
                    None => self.fail("unknown named type"),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.at("addrspace") {
                            self.word();
                            self.balanced();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "opaque" | "token" => Ty::Opaque,
                    _ => {
                        if w.starts_with('i') {
                            if let Ok(n) = w[1..].parse() {
                                return Ty::Int(n);
                            }
                        }
                        self.fail(&format!("type expected, got {}", w))
                    }
                }
            }
        }
    }
    fn ty_list(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        loop {
            if self.peek() == close {
                self.i += 1;
                return v;
            }
            v.push(self.ty());
            self.eat(",");
        }
    }
}

struct FnParser<'a, 'b, R: Resolver> {
    p: P<'a>,
    r: &'b mut R,
    slots: HashMap<String, (u32, u32)>,
    nslots: u32,
    blocks: HashMap<String, u32>,
}

pub fn konst<R: Resolver>(p: &mut P, t: &Ty, r: &mut R) -> Vec<Atom> {
    let c = p.peek();
    match c {
        b'@' => {
            p.i += 1;
            let n = p.name();
            return vec![Atom::K(r.global_addr(&n))];
        }
        b'c' if p.s[p.i + 1] == b'"' => {
            p.i += 2;
            let mut v = vec![];
            while p.s[p.i] != b'"' {
                let ch = p.s[p.i];
                if ch == b'\\' && p.s[p.i + 1] == b'\\' {
                    v.push(Atom::K(ch as u128));
                    p.i += 2;
                } else if ch == b'\\' {
                    let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                    v.push(Atom::K(u8::from_str_radix(h, 16).unwrap() as u128));
                    p.i += 3;
                } else {
                    v.push(Atom::K(ch as u128));
                    p.i += 1;
                }
            }
            p.i += 1;
            return v;
        }
        b'{' | b'[' | b'<' => {
            let packed = c == b'<';
            p.i += 1;
            let close = match c {
                b'{' => b'}',
                b'[' => b']',
                _ => {
                    if p.peek() == b'{' {
                        p.i += 1;
                        b'}'
                    } else {
                        b'>'
                    }
                }
            };
            let mut v = vec![];
            loop {
                if p.peek() == close {
                    p.i += 1;
                    break;
                }
                let et = p.ty();
                v.extend(konst(p, &et, r));
                p.eat(",");
            }
            if packed && close == b'}' {
                p.expect(">");
            }
            return v;
        }
        _ => {}
    }
    if c == b'-' || c.is_ascii_digit() {
        let w = p.word();
        let k = match t {
            Ty::Int(b) => {
                let m = if *b >= 128 { u128::MAX } else { (1u128 << b) - 1 };
                if let Some(x) = w.strip_prefix('-') {
                    (x.parse::<u128>().unwrap_or_else(|_| p.fail(&format!("integer {w}")))).wrapping_neg() & m
                } else {
                    w.parse::<u128>().unwrap_or_else(|_| p.fail(&format!("integer {w}"))) & m
                }
            }
            Ty::F64 | Ty::F32 => {
                let f: f64 = if let Some(h) = w.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                } else {
                    // a decimal exponent may contain '+', which is not a word character
                    let mut s = w.to_string();
                    if p.s[p.i] == b'+' {
                        p.i += 1;
                        s.push('+');
                        s.push_str(p.word());
                    }
                    s.parse().unwrap()
                };
                if *t == Ty::F64 {
                    f.to_bits() as u128
                } else {
                    (f as f32).to_bits() as u128
                }
            }
            _ => p.fail("number of odd type"),
        };
        return vec![Atom::K(k)];
    }
    let w = p.word();
    match w {
        "true" => vec![Atom::K(1)],
        "false" | "null" => vec![Atom::K(0)],
        "undef" | "poison" => vec![Atom::Undef; t.nslots()],
        "zeroinitializer" | "none" => vec![Atom::K(0); t.nslots()],
        "splat" => {
            p.expect("(");
            let et = p.ty();
            let e = konst(p, &et, r);
            p.expect(")");
            let mut v = vec![];
            for _ in 0..t.nelem() {
                v.extend(e.iter().cloned());
            }
            v
        }
        "getelementptr" => {
            while p.peek() != b'(' {
                let w = p.word();
                if w == "inrange" {
                    p.balanced();
                }
            }
            p.expect("(");
            let st = p.ty();
            p.expect(",");
            let bt = p.ty();
            let b = konst(p, &bt, r);
            let mut off = 0i64;
            let mut first = true;
            let mut cur = st.clone();
            while p.eat(",") {
                let it = p.ty();
                let k = konst(p, &it, r);
                let x = match k[0] {
                    Atom::K(x) => {
                        if it == Ty::Int(32) {
                            x as u32 as i32 as i64
                        } else {
                            x as u64 as i64
                        }
                    }
                    _ => p.fail("gep index"),
                };
                if first {
                    off += x * cur.size() as i64;
                    first = false;
                } else {
                    match &cur {
                        Ty::Struct(..) => off += cur.field_off(x as u64) as i64,
                        _ => off += x * cur.elem(0).size() as i64,
                    }
                    let ix = if matches!(cur, Ty::Struct(..)) { x as u64 } else { 0 };
                    cur = cur.elem(ix).clone();
                }
            }
            p.expect(")");
            match b[0] {
                Atom::K(x) => vec![Atom::K((x as u64).wrapping_add(off as u64) as u128)],
                a => vec![a],
            }
        }
        "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
            p.expect("(");
            let ft = p.ty();
            let k = konst(p, &ft, r);
            p.expect("to");
            let tt = p.ty();
            p.expect(")");
            match (k[0], &tt) {
                (Atom::K(x), Ty::Int(b)) if *b < 128 => vec![Atom::K(x & ((1u128 << b) - 1))],
                (a, _) => vec![a],
            }
        }
        "sub" | "add" => {
            while p.peek() != b'(' {
                p.word();
            }
            p.expect("(");
            let ft = p.ty();
            let a = konst(p, &ft, r);
            p.expect(",");
            let ft2 = p.ty();
            let b = konst(p, &ft2, r);
            p.expect(")");
            match (a[0], b[0]) {
                (Atom::K(x), Atom::K(y)) => {
                    let z = if w == "sub" { x.wrapping_sub(y) } else { x.wrapping_add(y) };
                    vec![Atom::K(z as u64 as u128)]
                }
                _ => vec![Atom::Undef],
            }
        }
        "blockaddress" | "dso_local_equivalent" | "no_cfi" => {
            if p.peek() == b'(' {
                p.balanced();
            }
            vec![Atom::K(0)]
        }
        _ => p.fail(&format!("constant expected, got '{}'", w)),
    }
}

impl Module {
    pub fn parse(text: &'static str) -> Module {
        let mut m = Module {
            text,
            types: HashMap::new(),
            globals: HashMap::new(),
            defs: HashMap::new(),
            decls: HashMap::new(),
            aliases: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        // named types first, those that mention later ones after them
        let mut todo: Vec<&'static str> = text.lines().filter(|l| l.starts_with('%')).collect();
        while !todo.is_empty() {
            let names: std::collections::HashSet<String> = todo.iter().map(|l| P::new(l, 1, &m.types).name()).collect();
            let mut later = vec![];
            let n0 = todo.len();
            for line in todo {
                let mut p = P::new(line, 1, &m.types);
                let n = p.name();
                p.expect("=");
                p.expect("type");
                let body = &line[p.i..];
                let blocked = body.match_indices('%').any(|(k, _)| {
                    let u = P::new(body, k + 1, &m.types).name();
                    names.contains(&u) && !m.types.contains_key(&u)
                });
                if blocked {
                    later.push(line);
                    continue;
                }
                let t = p.ty();
                m.types.insert(n, t);
            }
            if later.len() == n0 {
                P::new(later[0], 1, &m.types).fail("cyclic named types");
            }
            todo = later;
        }
        while i < b.len() {
            let eol = b[i..].iter().position(|&c| c == b'\n').map(|x| x + i).unwrap_or(b.len());
            match b[i] {
                b'@' => {
                    let mut p = P::new(text, i + 1, &m.types);
                    let n: Rc<str> = p.name().into();
                    p.expect("=");
                    let mut def = true;
                    let mut alias = false;
                    loop {
                        let w = p.peek_word();
                        match w {
                            "external" | "extern_weak" => {
                                def = false;
                                p.word();
                            }
                            "global" | "constant" => {
                                p.word();
                                break;
                            }
                            "alias" => {
                                alias = true;
                                p.word();
                                break;
                            }
                            "" => p.fail("global"),
                            _ => {
                                p.word();
                                if p.s[p.i] == b'(' {
                                    p.balanced();
                                }
                            }
                        }
                    }
                    if alias {
                        p.ty();
                        p.expect(",");
                        p.ty();
                        p.ws();
                        if p.s[p.i] == b'@' {
                            p.i += 1;
                            let t: Rc<str> = p.name().into();
                            m.aliases.insert(n, t);
                        }
                    } else {
                        m.globals.insert(n, (p.i, def));
                    }
                }
                b'd' => {
                    let is_def = text[i..].starts_with("define");
                    if let Some(a) = text[i..eol].find('@') {
                        let mut p = P::new(text, i + a + 1, &m.types);
                        let n: Rc<str> = p.name().into();
                        if is_def {
                            m.defs.insert(n, i);
                        } else {
                            m.decls.insert(n, i);
                        }
                    }
                    if is_def {
                        // skip body
                        let e = text[i..].find("\n}").map(|x| x + i + 2).unwrap();
                        i = e;
                        continue;
                    }
                }
                _ => {}
            }
            i = eol + 1;
        }
        m
    }

    pub fn global_type(&self, off: usize) -> Ty {
        P::new(self.text, off, &self.types).ty()
    }
    pub fn global_init<R: Resolver>(&self, off: usize, r: &mut R) -> (Ty, Vec<Atom>) {
        let mut p = P::new(self.text, off, &self.types);
        let t = p.ty();
        let a = konst(&mut p, &t, r);
        (t, a)
    }

    pub fn func<R: Resolver>(&self, name: &str, r: &mut R) -> Func {
        let off = self.defs[name];
        let hdr_at = self.text[off..].find('@').unwrap() + off;
        let mut fp = FnParser {
            p: P::new(self.text, hdr_at + 1, &self.types),
            r,
            slots: HashMap::new(),
            nslots: 0,
            blocks: HashMap::new(),
        };
        fp.p.name();
        fp.p.expect("(");
        let mut params = vec![];
        loop {
            if fp.p.eat(")") {
                break;
            }
            if fp.p.eat("...") {
                continue;
            }
            let t = fp.p.ty();
            fp.skip_attrs();
            fp.p.expect("%");
            let n = fp.p.name();
            params.push(fp.def(&n, &t));
            fp.p.eat(",");
        }
        // skip attributes up to the body
        let body = self.text[fp.p.i..].find("{\n").unwrap() + fp.p.i + 2;
        fp.p.i = body;
        let end = self.text[body..].find("\n}").unwrap() + body + 1;
        // collect labels
        let mut blocks: Vec<Block> = vec![];
        let mut starts = vec![];
        {
            let mut pos = body;
            for line in self.text[body..end].split_inclusive('\n') {
                if !line.starts_with(' ') && line.len() > 1 && line.contains(':') {
                    let nm = if line.starts_with('"') {
                        line[1..].split('"').next().unwrap().to_string()
                    } else {
                        line.split(':').next().unwrap().to_string()
                    };
                    let id = blocks.len() as u32;
                    fp.blocks.insert(nm.clone(), id);
                    blocks.push(Block { name: nm, ..Default::default() });
                    starts.push(pos + line.len());
                }
                pos += line.len();
            }
        }
        if starts.is_empty() || starts[0] != body + self.text[body..].find('\n').unwrap() + 1 {
            // first block has no label
            if starts.is_empty() || !self.text[body..end].trim_start_matches('\n').starts_with(|c: char| c != ' ') {
                blocks.insert(0, Block { name: "<entry>".into(), ..Default::default() });
                starts.insert(0, body);
                for v in fp.blocks.values_mut() {
                    *v += 1;
                }
            }
        }
        // Parse blocks along reachable edges so that slots are defined before phis need them; definitions may
        // come textually later, so slots are created on first mention of the name with the type known at use.
        let nb = blocks.len();
        let mut work = vec![0u32];
        let mut seen = vec![false; nb];
        seen[0] = true;
        while let Some(b) = work.pop() {
            fp.p.i = starts[b as usize];
            let lim = if (b as usize) + 1 < nb { starts[b as usize + 1] } else { end };
            let mut insts = vec![];
            let mut phis = vec![];
            loop {
                fp.p.ws();
                if fp.p.i >= lim {
                    break;
                }
                let line_end = fp.p.i + self.text[fp.p.i..].find('\n').unwrap();
                if let Some(ph) = fp.inst(&mut insts) {
                    phis.push(ph);
                }
                let term = matches!(
                    insts.last(),
                    Some(Inst::Br(_)) | Some(Inst::CondBr { .. }) | Some(Inst::Switch { .. }) | Some(Inst::Ret(_)) | Some(Inst::Unreachable)
                ) || matches!(insts.last(), Some(Inst::Call(c)) if c.normal.is_some());
                // trailing attributes and metadata (look-ahead may already have moved on to the next line)
                if fp.p.i < line_end {
                    fp.p.i = line_end;
                }
                if term {
                    break;
                }
            }
            for s in succs(insts.last()) {
                if !seen[s as usize] {
                    seen[s as usize] = true;
                    work.push(s);
                }
            }
            let bl = &mut blocks[b as usize];
            bl.insts = insts;
            bl.phis = phis;
            bl.reachable = true;
        }
        let mut f = Func { name: name.into(), params, nslots: fp.nslots, blocks, noreturn: false };
        order(&mut f);
        f
    }
}

pub fn succs(i: Option<&Inst>) -> Vec<u32> {
    match i {
        Some(Inst::Br(b)) => vec![*b],
        Some(Inst::CondBr { t, f, .. }) => vec![*t, *f],
        Some(Inst::Switch { def, cases, .. }) => {
            let mut v = vec![*def];
            let mut c: Vec<(u128, u32)> = cases.iter().map(|(a, b)| (*a, *b)).collect();
            c.sort();
            for (_, x) in c {
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        }
        Some(Inst::Call(c)) => c.normal.into_iter().collect(),
        _ => vec![],
    }
}

/// Assigns every block its place in the (nested) order used for scheduling.
fn order(f: &mut Func) {
    let n = f.blocks.len();
    let succ: Vec<Vec<u32>> = f.blocks.iter().map(|b| if b.reachable { succs(b.insts.last()) } else { vec![] }).collect();
    let nodes: Vec<u32> = (0..n as u32).filter(|b| f.blocks[*b as usize].reachable).collect();
    let mut next_loop = 0u32;
    for b in f.blocks.iter_mut() {
        b.header_of = u32::MAX;
    }
    let mut paths: Vec<Vec<(u64, u32)>> = vec![vec![]; n];
    decompose(&nodes, &succ, &[0], &mut next_loop, &mut paths, f);
    for (i, p) in paths.into_iter().enumerate() {
        f.blocks[i].path = p;
    }
}

fn decompose(nodes: &[u32], succ: &[Vec<u32>], entries: &[u32], next_loop: &mut u32, paths: &mut Vec<Vec<(u64, u32)>>, f: &mut Func) {
    let set: std::collections::HashSet<u32> = nodes.iter().cloned().collect();
    // Tarjan (iterative), starting at the entries so that the resulting order is topological.
    let mut index: HashMap<u32, u32> = HashMap::new();
    let mut low: HashMap<u32, u32> = HashMap::new();
    let mut onst: std::collections::HashSet<u32> = Default::default();
    let mut stack: Vec<u32> = vec![];
    let mut comps: Vec<Vec<u32>> = vec![];
    let mut ctr = 0u32;
    let roots: Vec<u32> = entries.iter().cloned().chain(nodes.iter().cloned()).collect();
    for &r in &roots {
        if !set.contains(&r) || index.contains_key(&r) {
            continue;
        }
        let mut call: Vec<(u32, usize)> = vec![(r, 0)];
        index.insert(r, ctr);
        low.insert(r, ctr);
        ctr += 1;
        stack.push(r);
        onst.insert(r);
        while let Some(&(v, k)) = call.last() {
            if k < succ[v as usize].len() {
                call.last_mut().unwrap().1 += 1;
                let w = succ[v as usize][k];
                if !set.contains(&w) {
                    continue;
                }
                if !index.contains_key(&w) {
                    index.insert(w, ctr);
                    low.insert(w, ctr);
                    ctr += 1;
                    stack.push(w);
                    onst.insert(w);
                    call.push((w, 0));
                } else if onst.contains(&w) {
                    let m = low[&v].min(index[&w]);
                    low.insert(v, m);
                }
            } else {
                call.pop();
                if let Some(&(u, _)) = call.last() {
                    let m = low[&u].min(low[&v]);
                    low.insert(u, m);
                }
                if low[&v] == index[&v] {
                    let mut c = vec![];
                    loop {
                        let w = stack.pop().unwrap();
                        onst.remove(&w);
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    comps.push(c);
                }
            }
        }
    }
    // Tarjan emits components in reverse topological order.
    comps.reverse();
    // position: longest path from entry keeps joins after all their predecessors; the reverse emission order is
    // already topological.
    for (k, c) in comps.iter().enumerate() {
        let is_loop = c.len() > 1 || succ[c[0] as usize].contains(&c[0]);
        for &b in c {
            paths[b as usize].push((k as u64, u32::MAX));
        }
        if is_loop {
            let id = *next_loop;
            *next_loop += 1;
            let cs: std::collections::HashSet<u32> = c.iter().cloned().collect();
            // header: target of an edge from outside (or an entry)
            let mut header = None;
            for &b in c.iter().rev() {
                if entries.contains(&b) {
                    header = Some(b);
                    break;
                }
            }
            if header.is_none() {
                'o: for v in 0..succ.len() as u32 {
                    if cs.contains(&v) {
                        continue;
                    }
                    for w in &succ[v as usize] {
                        if cs.contains(w) {
                            header = Some(*w);
                            break 'o;
                        }
                    }
                }
            }
            let header = header.unwrap_or(c[0]);
            for &b in c {
                paths[b as usize].push((1u64 << 63, id));
            }
            f.blocks[header as usize].header_of = id;
            // inside: header first, then the rest without edges into the header
            paths[header as usize].push((0, u32::MAX));
            let rest: Vec<u32> = c.iter().cloned().filter(|b| *b != header).collect();
            if !rest.is_empty() {
                let ents: Vec<u32> = succ[header as usize].iter().cloned().filter(|b| rest.contains(b)).collect();
                let before: Vec<usize> = rest.iter().map(|b| paths[*b as usize].len()).collect();
                decompose(&rest, succ, &ents, next_loop, paths, f);
                for (b, l) in rest.iter().zip(before) {
                    paths[*b as usize][l].0 += 1;
                }
            }
        }
    }
}

impl<'a, 'b, R: Resolver> FnParser<'a, 'b, R> {
    fn def(&mut self, n: &str, t: &Ty) -> (u32, u32) {
        if let Some(x) = self.slots.get(n) {
            return *x;
        }
        let k = t.nslots() as u32;
        let s = self.nslots;
        self.nslots += k;
        self.slots.insert(n.to_string(), (s, k));
        (s, k)
    }
    fn skip_attrs(&mut self) {
        loop {
            self.p.ws();
            let c = self.p.s[self.p.i];
            if c == b'%' || c == b'@' || c == b')' || c == b',' || c == b'-' || c.is_ascii_digit() {
                return;
            }
            if c == b'{' || c == b'[' || c == b'<' {
                return;
            }
            let w = self.p.peek_word();
            match w {
                "" => return,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "getelementptr" | "ptrtoint" | "splat" | "none" | "c" => return,
                "asm" => return,
                _ => {}
            }
            self.p.word();
            if w == "align" {
                self.p.ws();
                if self.p.s[self.p.i] == b'(' {
                    self.p.balanced();
                } else {
                    self.p.int();
                }
                continue;
            }
            if self.p.s[self.p.i] == b'(' {
                self.p.balanced();
            }
        }
    }
    fn skip_pre_type(&mut self) {
        // words before a type (flags, return attributes, calling conventions)
        while !self.p.at_type() {
            let w = self.p.word();
            if w.is_empty() {
                self.p.fail("type expected");
            }
            if w == "align" {
                self.p.sp();
                self.p.int();
                continue;
            }
            if w == "addrspace" || self.p.s[self.p.i] == b'(' {
                self.p.balanced();
            }
        }
    }
    fn val(&mut self, t: &Ty) -> Vec<Atom> {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            let (s, k) = self.def(&n, t);
            (s..s + k).map(Atom::Slot).collect()
        } else {
            konst(&mut self.p, t, self.r)
        }
    }
    fn tval(&mut self) -> (Ty, Vec<Atom>) {
        let t = self.p.ty();
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn label(&mut self) -> u32 {
        self.p.expect("label");
        self.p.expect("%");
        let n = self.p.name();
        match self.blocks.get(&n) {
            Some(b) => *b,
            None => self.p.fail("unknown label"),
        }
    }
    fn inst(&mut self, out: &mut Vec<Inst>) -> Option<(u32, HashMap<u32, Vec<Atom>>)> {
        let mut dname = None;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            dname = Some(self.p.name());
            self.p.expect("=");
        }
        let start = self.p.i;
        let mut w = self.p.word();
        if w == "tail" || w == "musttail" || w == "notail" {
            w = self.p.word();
        }
        macro_rules! dst {
            ($t:expr) => {{
                let n = dname.clone().unwrap();
                self.def(&n, $t).0
            }};
        }
        let binop = match w {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "fadd" => Some(Bin::FAdd),
            "fsub" => Some(Bin::FSub),
            "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv),
            "frem" => Some(Bin::FRem),
            _ => None,
        };
        if let Some(op) = binop {
            self.skip_pre_type();
            let t = self.p.ty();
            let a = self.val(&t);
            self.p.expect(",");
            let b = self.val(&t);
            let bits = t.flatten()[0].bits;
            let n = t.nslots() as u32;
            let dst = dst!(&t);
            out.push(Inst::Bin { op, bits, n, a, b, dst });
            return None;
        }
        let cast = match w {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(Cast::PtrInt),
            "bitcast" => Some(Cast::Bitcast),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptrunc" => Some(Cast::FpTrunc),
            "fpext" => Some(Cast::FpExt),
            _ => None,
        };
        if let Some(op) = cast {
            self.skip_pre_type();
            let t = self.p.ty();
            let a = self.val(&t);
            self.p.expect("to");
            let tt = self.p.ty();
            let dst = dst!(&tt);
            let (ff, tf) = (t.flatten(), tt.flatten());
            if op == Cast::Bitcast && ff.len() != tf.len() {
                out.push(Inst::Unsupported("bitcast between vector shapes".into()));
                return None;
            }
            out.push(Inst::Cast { op, from: ff[0].bits, to: tf[0].bits, a, dst });
            return None;
        }
        match w {
            "phi" => {
                self.skip_pre_type();
                let t = self.p.ty();
                let mut m = HashMap::new();
                loop {
                    self.p.expect("[");
                    let v = self.val(&t);
                    self.p.expect(",");
                    self.p.expect("%");
                    let n = self.p.name();
                    let b = self.blocks[&n];
                    self.p.expect("]");
                    m.insert(b, v);
                    self.p.sp();
                    if self.p.s[self.p.i] == b',' && self.p.s[self.p.i + 2] == b'[' {
                        self.p.i += 1;
                        continue;
                    }
                    break;
                }
                let d = dst!(&t);
                return Some((d, m));
            }
            "icmp" => {
                let mut pred = self.p.word();
                if pred == "samesign" {
                    pred = self.p.word();
                }
                let pred: &'static str = match pred {
                    "eq" => "eq",
                    "ne" => "ne",
                    "ugt" => "ugt",
                    "uge" => "uge",
                    "ult" => "ult",
                    "ule" => "ule",
                    "sgt" => "sgt",
                    "sge" => "sge",
                    "slt" => "slt",
                    "sle" => "sle",
                    _ => self.p.fail("icmp predicate"),
                };
                let t = self.p.ty();
                let a = self.val(&t);
                self.p.expect(",");
                let b = self.val(&t);
                let bits = t.flatten()[0].bits;
                let rt = match &t {
                    Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                let dst = dst!(&rt);
                out.push(Inst::ICmp { pred, bits, a, b, dst });
            }
            "fcmp" => {
                let mut pred = self.p.word().to_string();
                while ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&pred.as_str()) {
                    pred = self.p.word().to_string();
                }
                let t = self.p.ty();
                let a = self.val(&t);
                self.p.expect(",");
                let b = self.val(&t);
                let bits = t.flatten()[0].bits;
                if a.len() != 1 {
                    out.push(Inst::Unsupported("vector fcmp".into()));
                    dst!(&Ty::Vec(a.len() as u64, Rc::new(Ty::Int(1))));
                    return None;
                }
                let dst = dst!(&Ty::Int(1));
                out.push(Inst::FCmp { pred, bits, a: a[0], b: b[0], dst });
            }
            "fneg" => {
                self.skip_pre_type();
                let t = self.p.ty();
                let a = self.val(&t);
                let dst = dst!(&t);
                out.push(Inst::FNeg { bits: t.flatten()[0].bits, a: a[0], dst });
            }
            "select" => {
                self.skip_pre_type();
                let (_, c) = self.tval();
                self.p.expect(",");
                let (t, a) = self.tval();
                self.p.expect(",");
                let (_, b) = self.tval();
                let dst = dst!(&t);
                out.push(Inst::Select { c, a, b, dst });
            }
            "load" => {
                while ["volatile", "atomic"].contains(&self.p.peek_word()) {
                    self.p.word();
                }
                let t = self.p.ty();
                self.p.expect(",");
                let (_, p) = self.tval();
                let dst = dst!(&t);
                out.push(Inst::Load { sc: t.flatten(), p: p[0], dst });
            }
            "store" => {
                while ["volatile", "atomic"].contains(&self.p.peek_word()) {
                    self.p.word();
                }
                let (t, v) = self.tval();
                self.p.expect(",");
                let (_, p) = self.tval();
                out.push(Inst::Store { sc: t.flatten(), v, p: p[0] });
            }
            "getelementptr" => {
                self.skip_pre_type();
                let st = self.p.ty();
                self.p.expect(",");
                let (bt, b) = self.tval();
                if bt != Ty::Ptr {
                    out.push(Inst::Unsupported("vector gep".into()));
                    dst!(&bt);
                    self.p.eol();
                    return None;
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                let mut cur = st;
                loop {
                    self.p.sp();
                    if self.p.s[self.p.i] != b',' {
                        break;
                    }
                    self.p.i += 1;
                    self.p.sp();
                    if self.p.s[self.p.i] == b'!' {
                        break;
                    }
                    let (it, k) = self.tval();
                    let bits = it.flatten()[0].bits;
                    let kval = match k[0] {
                        Atom::K(x) => Some(sx(x, bits)),
                        _ => None,
                    };
                    let (scale, next) = if first {
                        (cur.size() as i64, None)
                    } else if let Ty::Struct(..) = cur {
                        let x = kval.unwrap();
                        off += cur.field_off(x as u64) as i64;
                        (0, Some(cur.elem(x as u64).clone()))
                    } else {
                        (cur.elem(0).size() as i64, Some(cur.elem(0).clone()))
                    };
                    first = false;
                    if scale != 0 {
                        match kval {
                            Some(x) => off = off.wrapping_add((x as i64).wrapping_mul(scale)),
                            None => idx.push((k[0], bits, scale)),
                        }
                    }
                    if let Some(t) = next {
                        cur = t;
                    }
                }
                let dst = dst!(&Ty::Ptr);
                out.push(Inst::Gep { base: b[0], off, idx, dst });
            }
            "alloca" => {
                self.skip_pre_type();
                let t = self.p.ty();
                let mut size = t.size();
                self.p.sp();
                if self.p.eat(",") && self.p.at_type() {
                    let (_, k) = self.tval();
                    match k[0] {
                        Atom::K(x) => size *= x as u64,
                        _ => self.p.fail("dynamic alloca"),
                    }
                }
                let dst = dst!(&Ty::Ptr);
                out.push(Inst::Alloca { size, dst });
            }
            "call" | "invoke" => {
                self.skip_pre_type();
                let rt = self.p.ty();
                if self.p.peek() == b'(' {
                    self.p.balanced();
                }
                let callee = match self.p.peek() {
                    b'@' => {
                        self.p.i += 1;
                        Callee::Direct(self.p.name().into())
                    }
                    b'%' => {
                        let v = self.val(&Ty::Ptr);
                        Callee::Indirect(v[0])
                    }
                    _ => {
                        let wd = self.p.peek_word();
                        if wd == "asm" {
                            // inline assembly: only the value-hiding barrier (no instruction text) is expected
                            self.p.eol();
                            if w == "invoke" {
                                self.p.fail("invoke asm");
                            }
                            if let Some(n) = &dname {
                                let n = n.clone();
                                self.def(&n, &rt);
                            }
                            out.push(Inst::Nop);
                            return None;
                        }
                        let v = konst(&mut self.p, &Ty::Ptr, self.r);
                        Callee::Indirect(v[0])
                    }
                };
                self.p.expect("(");
                let mut args = vec![];
                let mut arg_bits = vec![];
                loop {
                    if self.p.eat(")") {
                        break;
                    }
                    let t = self.p.ty();
                    if t == Ty::Opaque {
                        // metadata
                        self.p.ws();
                        let mut d = 0;
                        loop {
                            let c = self.p.s[self.p.i];
                            if c == b'(' {
                                d += 1;
                            }
                            if c == b')' {
                                if d == 0 {
                                    break;
                                }
                                d -= 1;
                            }
                            if c == b',' && d == 0 {
                                break;
                            }
                            self.p.i += 1;
                        }
                        self.p.eat(",");
                        continue;
                    }
                    self.skip_attrs();
                    let v = self.val(&t);
                    arg_bits.push(t.flatten().first().map(|s| s.bits).unwrap_or(0));
                    args.push(v);
                    self.p.eat(",");
                }
                let mut normal = None;
                if w == "invoke" {
                    // skip to "to label"
                    while !self.p.at("to label") {
                        self.p.ws();
                        let c = self.p.s[self.p.i];
                        if c == b'(' || c == b'[' {
                            self.p.balanced();
                        } else {
                            self.p.i += 1;
                        }
                    }
                    self.p.expect("to");
                    normal = Some(self.label());
                }
                let (dst, ndst) = match &dname {
                    Some(n) => {
                        let n = n.clone();
                        self.def(&n, &rt)
                    }
                    None => (0, 0),
                };
                out.push(Inst::Call(Box::new(CallI { callee, args, arg_bits, dst, ndst, ret: rt.flatten(), normal })));
            }
            "br" => {
                if self.p.at("label") {
                    let b = self.label();
                    out.push(Inst::Br(b));
                } else {
                    let (_, c) = self.tval();
                    self.p.expect(",");
                    let t = self.label();
                    self.p.expect(",");
                    let f = self.label();
                    out.push(Inst::CondBr { c: c[0], t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tval();
                self.p.expect(",");
                let def = self.label();
                self.p.expect("[");
                let mut cases = HashMap::new();
                while !self.p.eat("]") {
                    let (_, k) = self.tval();
                    self.p.expect(",");
                    let l = self.label();
                    if let Atom::K(x) = k[0] {
                        cases.insert(x, l);
                    }
                }
                out.push(Inst::Switch { bits: t.flatten()[0].bits, v: v[0], def, cases: Rc::new(cases) });
            }
            "ret" => {
                let t = self.p.ty();
                if t == Ty::Void {
                    out.push(Inst::Ret(vec![]));
                } else {
                    let v = self.val(&t);
                    out.push(Inst::Ret(v));
                }
            }
            "unreachable" | "resume" => out.push(Inst::Unreachable),
            "extractvalue" => {
                let (t, v) = self.tval();
                let mut lo = 0usize;
                let mut cur = t;
                loop {
                    self.p.sp();
                    if self.p.s[self.p.i] != b',' {
                        break;
                    }
                    self.p.i += 1;
                    self.p.sp();
                    if self.p.s[self.p.i] == b'!' {
                        break;
                    }
                    let k = self.p.int();
                    for j in 0..k {
                        lo += cur.elem(j).nslots();
                    }
                    cur = cur.elem(k).clone();
                }
                let n = cur.nslots();
                let dst = dst!(&cur);
                out.push(Inst::Move { v: v[lo..lo + n].to_vec(), dst });
            }
            "insertvalue" => {
                let (t, mut v) = self.tval();
                self.p.expect(",");
                let (_, e) = self.tval();
                let mut lo = 0usize;
                let mut cur = t.clone();
                loop {
                    self.p.sp();
                    if self.p.s[self.p.i] != b',' {
                        break;
                    }
                    self.p.i += 1;
                    self.p.sp();
                    if self.p.s[self.p.i] == b'!' {
                        break;
                    }
                    let k = self.p.int();
                    for j in 0..k {
                        lo += cur.elem(j).nslots();
                    }
                    cur = cur.elem(k).clone();
                }
                for (k, x) in e.into_iter().enumerate() {
                    v[lo + k] = x;
                }
                let dst = dst!(&t);
                out.push(Inst::Move { v, dst });
            }
            "freeze" => {
                let (t, v) = self.tval();
                let dst = dst!(&t);
                out.push(Inst::Freeze { v, dst });
            }
            "extractelement" => {
                let (t, v) = self.tval();
                self.p.expect(",");
                let (_, i) = self.tval();
                let et = t.elem(0).clone();
                let dst = dst!(&et);
                out.push(Inst::ExtractEl { v, i: i[0], dst });
            }
            "insertelement" => {
                let (t, v) = self.tval();
                self.p.expect(",");
                let (_, e) = self.tval();
                self.p.expect(",");
                let (_, i) = self.tval();
                let dst = dst!(&t);
                out.push(Inst::InsertEl { v, e: e[0], i: i[0], dst });
            }
            "shufflevector" => {
                let (t, mut a) = self.tval();
                self.p.expect(",");
                let (_, b) = self.tval();
                self.p.expect(",");
                let (mt, m) = self.tval();
                a.extend(b);
                let v: Vec<Atom> = m
                    .iter()
                    .map(|x| match x {
                        Atom::K(k) => a[*k as usize],
                        _ => Atom::Undef,
                    })
                    .collect();
                let rt = Ty::Vec(mt.nelem(), Rc::new(t.elem(0).clone()));
                let dst = dst!(&rt);
                out.push(Inst::Move { v, dst });
            }
            "atomicrmw" => {
                if self.p.peek_word() == "volatile" {
                    self.p.word();
                }
                let op = self.p.word().to_string();
                let (_, p) = self.tval();
                self.p.expect(",");
                let (t, v) = self.tval();
                let dst = match &dname {
                    Some(_) => dst!(&t),
                    None => {
                        let s = self.nslots;
                        self.nslots += 1;
                        s
                    }
                };
                out.push(Inst::Rmw { op, bits: t.flatten()[0].bits, p: p[0], v: v[0], dst });
            }
            "cmpxchg" => {
                while ["volatile", "weak"].contains(&self.p.peek_word()) {
                    self.p.word();
                }
                let (_, p) = self.tval();
                self.p.expect(",");
                let (t, c) = self.tval();
                self.p.expect(",");
                let (_, n) = self.tval();
                let rt = Ty::Struct(vec![t.clone(), Ty::Int(1)], false);
                let dst = match &dname {
                    Some(_) => dst!(&rt),
                    None => {
                        let s = self.nslots;
                        self.nslots += 2;
                        s
                    }
                };
                out.push(Inst::CmpXchg { bits: t.flatten()[0].bits, p: p[0], c: c[0], n: n[0], dst });
            }
            "fence" => out.push(Inst::Nop),
            "landingpad" => {
                let t = self.p.ty();
                if let Some(n) = &dname {
                    let n = n.clone();
                    self.def(&n, &t);
                }
                loop {
                    let w = self.p.peek_word();
                    if w == "cleanup" || w == "catch" || w == "filter" {
                        self.p.eol();
                    } else {
                        break;
                    }
                }
                out.push(Inst::Unreachable);
            }
            _ => {
                self.p.i = start;
                let e = self.p.s[start..].iter().position(|c| *c == b'\n').unwrap() + start;
                let txt = String::from_utf8_lossy(&self.p.s[start..e]).into_owned();
                out.push(Inst::Unsupported(txt));
            }
        }
        None
    }
}

pub fn sx(x: u128, bits: u32) -> i128 {
    if bits >= 128 {
        return x as i128;
    }
    let m = 1u128 << (bits - 1);
    let x = x & ((1u128 << bits) - 1);
    ((x ^ m) as i128).wrapping_sub(m as i128)
}
