//! G27, G28: reading and writing text.
use crate::gb::*;
use crate::util::*;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::degengraph::DegenGraph;
use graphbench::io::*;
use graphbench::ordgraph::OrdGraph;
use graphbench::iterators::*;
use std::cell::RefCell;
use std::io::{self, BufRead, Read, Write};
use std::rc::Rc;

#[cfg(graphbench_symex)]
use fxhash::fs::File;
#[cfg(not(graphbench_symex))]
use std::fs::File;

/// Bytes of raw inputs: a table chosen by p3.
fn alphabet(k: usize) -> u8 {
    match param(3) {
        0 => b"01 \n9-x\t"[k],
        1 => [b'4', b'\n', b' ', 0xff, 0xc2, 0xa0, b'\r', 0][k],
        2 => [b'7', b'\n', b'0', b'\r', b'.', 0xe2, 0x80, 0x83][k],
        _ => [b'3', b'\n', b' ', b'5', b',', b'#', b'e', 0x0b][k],
    }
}

const MAXLEN: usize = 96;
/// A reader which hands out `data` in pieces and then, optionally, fails.
struct Src {
    data: Vec<u8>,
    pos: usize,
    piece: usize,
    fail: bool,
}
fn src(data: &[u8], piece: usize, fail: bool) -> Box<dyn BufRead> {
    let mut v = Vec::with_capacity(MAXLEN);
    for i in 0..data.len() {
        v.push(data[i]);
    }
    Box::new(Src { data: v, pos: 0, piece, fail })
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = {
            let b = self.fill_buf()?;
            let k = if b.len() < buf.len() { b.len() } else { buf.len() };
            let mut i = 0;
            while i < k {
                buf[i] = b[i];
                i += 1;
            }
            k
        };
        self.consume(k);
        Ok(k)
    }
}
impl BufRead for Src {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos >= self.data.len() {
            if self.fail {
                return Err(io::Error::from(io::ErrorKind::ConnectionReset));
            }
            return Ok(&[]);
        }
        let mut e = self.pos + self.piece;
        if e > self.data.len() {
            e = self.data.len();
        }
        Ok(&self.data[self.pos..e])
    }
    fn consume(&mut self, k: usize) {
        self.pos += k;
    }
}

const W: usize = 8;
/// What a text means: the numbers of each line; `bad` if some token is not a vertex id (or the bytes are not UTF-8).
struct Meaning {
    lines: usize,
    blank: bool,
    bad: bool,
    /// some number has a leading "+", which may be refused or ignored
    plus: bool,
    toks: [u32; W],
    num: [u32; W * 2],
    total: usize,
}
fn meaning(data: &[u8]) -> Meaning {
    let mut m = Meaning { lines: 0, blank: false, bad: false, plus: false, toks: [0; W], num: [0; W * 2], total: 0 };
    let text = match std::str::from_utf8(data) {
        Ok(t) => t,
        Err(_) => {
            m.bad = true;
            return m;
        }
    };
    let mut open = false; // something since the last line break
    let mut cur: u64 = 0;
    let mut tok = false;
    let mut sign = false; // a sign without digits so far
    let mut toks = 0;
    for c in text.chars() {
        let ws = c.is_whitespace();
        if ws && tok {
            m.bad = m.bad | sign;
            sign = false;
            if m.total < W * 2 {
                m.num[m.total] = cur as u32;
            }
            m.total += 1;
            toks += 1;
            tok = false;
            cur = 0;
        }
        if c == '\n' {
            if m.lines < W {
                m.toks[m.lines] = toks;
            }
            m.blank = m.blank | (toks == 0);
            m.lines += 1;
            toks = 0;
            open = false;
            continue;
        }
        open = true;
        if !ws {
            let first = !tok;
            tok = true;
            if c >= '0' && c <= '9' {
                sign = false;
                cur = cur * 10 + (c as u32 - '0' as u32) as u64;
                if cur > u32::MAX as u64 {
                    m.bad = true;
                    cur = 0;
                }
            } else if c == '+' && first {
                m.plus = true;
                sign = true;
            } else {
                m.bad = true;
            }
        }
    }
    m.bad = m.bad | sign;
    if tok {
        if m.total < W * 2 {
            m.num[m.total] = cur as u32;
        }
        m.total += 1;
        toks += 1;
    }
    if open {
        if m.lines < W {
            m.toks[m.lines] = toks;
        }
        m.blank = m.blank | (toks == 0);
        m.lines += 1;
    }
    m
}
impl Meaning {
    /// Every line has `per` tokens; blank lines may be refused or skipped.
    fn verdict(&self, per: u32, fail: bool) -> (bool, bool) {
        let mut shape = true;
        for i in 0..W {
            shape = shape & ((i >= self.lines) | (self.toks[i] == per) | (self.toks[i] == 0));
        }
        let good = shape & !self.bad & !fail;
        (good & !self.blank & !self.plus, good)
    }
}

fn raw(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(MAXLEN);
    for i in 0..n {
        v.push(alphabet(choice(i as u32, param(4)) as usize));
    }
    v
}
/// p0 = length of the text, p1 = size of a piece, p2 = 1: the reader fails at the end, p3 = alphabet, p4 = letters used
#[no_mangle]
pub fn h_raw_vec() {
    let data = raw(param(0) as usize);
    the_vec(&data, param(1) as usize, param(2) == 1);
}
#[no_mangle]
pub fn h_raw_set() {
    let data = raw(param(0) as usize);
    the_set(&data, param(1) as usize, param(2) == 1);
}
#[no_mangle]
pub fn h_raw_graph() {
    let data = raw(param(0) as usize);
    the_graph(&data, param(1) as usize, param(2) == 1);
}
fn the_vec(data: &[u8], piece: usize, fail: bool) {
    let m = meaning(data);
    let r = <Vec<Vertex>>::from_buf(src(data, piece, fail));
    let (must, may) = m.verdict(1, fail);
    check(!must | r.is_ok(), 1);
    check(may | r.is_err(), 2);
    if let Ok(v) = r {
        check(v.len() == m.total, 3);
        for i in 0..v.len() {
            if i < W * 2 {
                check(v[i] == m.num[i], 4);
            }
        }
        cover(v.len() > 1, 1);
    }
    cover(!may, 2);
}
fn the_set(data: &[u8], piece: usize, fail: bool) {
    let m = meaning(data);
    let r = VertexSet::from_buf(src(data, piece, fail));
    let (must, may) = m.verdict(1, fail);
    check(!must | r.is_ok(), 1);
    check(may | r.is_err(), 2);
    if let Ok(s) = r {
        let mut distinct = 0;
        for i in 0..W * 2 {
            if i < m.total {
                check(s.contains(&m.num[i]), 5);
                let mut new = true;
                for k in 0..i {
                    new = new & (m.num[k] != m.num[i]);
                }
                distinct += new as usize;
            }
        }
        check(s.len() == distinct, 6);
        cover(distinct < m.total, 3);
        cover(distinct > 1, 1);
    }
    cover(!may, 2);
}
fn the_graph(data: &[u8], piece: usize, fail: bool) {
    let m = meaning(data);
    let r = EditGraph::from_buf(src(data, piece, fail));
    let (must, may) = m.verdict(2, fail);
    check(!must | r.is_ok(), 1);
    check(may | r.is_err(), 2);
    if let Ok(g) = r {
        listed(&g, &m.num, m.total);
        cover(m.total > 2, 1);
    }
    cover(!may, 2);
}
/// The graph has exactly the edges num[0]-num[1], num[2]-num[3], ...
fn listed(g: &EditGraph, num: &[u32; W * 2], total: usize) {
    let mut vs = 0;
    let mut es = 0;
    for i in 0..W * 2 {
        if i < total {
            check(g.contains(&num[i]), 7);
            let mut new = true;
            for k in 0..i {
                new = new & (num[k] != num[i]);
            }
            vs += new as usize;
        }
    }
    for i in 0..W {
        if 2 * i + 1 < total {
            let (u, v) = (num[2 * i], num[2 * i + 1]);
            check(g.adjacent(&u, &v) & g.adjacent(&v, &u), 8);
            let mut new = true;
            for k in 0..i {
                let (x, y) = (num[2 * k], num[2 * k + 1]);
                new = new & !(((x == u) & (y == v)) | ((x == v) & (y == u)));
            }
            es += new as usize;
        }
    }
    check(g.num_vertices() == vs, 9);
    check(g.num_edges() == es, 10);
    let mut seen = 0;
    for _ in g.edges() {
        seen += 1;
    }
    check(seen == es, 10);
}

/// A well-formed text in which `p7` bytes take every value of a byte. p3 = 0 graph, 1 set, 2 vec, p4 = the text,
/// p6 = number of bytes which they replace (anywhere in the text), p1/p2 as above
#[no_mangle]
pub fn h_bytes() {
    const T: [&[u8]; 9] = [
        b"1 2\n3 4\n",
        b"12\t7\r\n7 12",
        b"4294967295 0\n0 0\n",
        b"5\n17\n5\n",
        b"4294967295\n\n429496729\n",
        b"007\r\n10",
        b"1  2 \n 2 3\n4 1",
        b"12\n",
        b"",
    ];
    let t = T[param(4) as usize];
    let places = t.len() as u32 + 1 - param(6);
    let at = choice(40, places);
    for x in 0..places {
        if at == x {
            bytes(t, x as usize);
        }
    }
}
fn bytes(t: &[u8], at: usize) {
    let cut = param(6) as usize;
    let mut v = Vec::with_capacity(MAXLEN);
    for i in 0..at {
        v.push(t[i]);
    }
    for k in 0..param(7) {
        v.push(choice(k, 256) as u8);
    }
    for i in at + cut..t.len() {
        v.push(t[i]);
    }
    match param(3) {
        0 => the_graph(&v, param(1) as usize, param(2) == 1),
        1 => the_set(&v, param(1) as usize, param(2) == 1),
        _ => the_vec(&v, param(1) as usize, param(2) == 1),
    }
}
/// Tokens with all boundary cases, and what they mean.
const TOK: [&str; 16] = [
    "0", "7", "4294967295", "4294967296", "12", "x", "007", "-1", "99999999999999999999", "1.5", "0x1", "10", "1e2", "", "\u{663}", "4294967294",
];
fn sep(k: usize) -> &'static str {
    [" ", "\t", "  ", "\u{a0}", "\u{2003} ", ",", " \r", "\u{c}"][k]
}
fn end(k: usize) -> &'static str {
    ["\n", "\r\n", " \n", ""][k]
}
fn put(v: &mut Vec<u8>, s: &str) {
    for b in s.as_bytes() {
        v.push(*b);
    }
}
/// p0 = lines, p1 = size of a piece, p2 = tokens per line, p3 = 0 graph, 1 set, 2 vec, p4 = tokens used, p5 = separators
/// used, p6 = line ends used
#[no_mangle]
pub fn h_lines() {
    let mut v = Vec::with_capacity(MAXLEN);
    let (lines, per) = (param(0), param(2));
    for i in 0..lines {
        for k in 0..per {
            let t = pick(10 * i + 2 * k, param(4), lines * per);
            for c in 0..param(4) {
                if c == t {
                    put(&mut v, TOK[c as usize]);
                }
            }
            if k + 1 < per {
                let t = pick(10 * i + 2 * k + 1, param(5), lines * per);
                for c in 0..param(5) {
                    if c == t {
                        put(&mut v, sep(c as usize));
                    }
                }
            }
        }
        let t = pick(10 * i + 9, param(6), lines * per);
        for c in 0..param(6) {
            if c == t {
                put(&mut v, end(c as usize));
            }
        }
    }
    match param(3) {
        0 => the_graph(&v, param(1) as usize, false),
        1 => the_set(&v, param(1) as usize, false),
        _ => the_vec(&v, param(1) as usize, false),
    }
}

// ---- writing
/// Collects what is written, at most `piece` bytes per call; fails after `room` bytes, or when flushed.
#[derive(Clone)]
struct Sink {
    data: Rc<RefCell<Vec<u8>>>,
    piece: usize,
    room: usize,
    bad_flush: bool,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut d = self.data.borrow_mut();
        let mut k = 0;
        while k < buf.len() && k < self.piece && d.len() < self.room {
            d.push(buf[k]);
            k += 1;
        }
        if k == 0 && buf.len() > 0 {
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.bad_flush {
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        Ok(())
    }
}
fn sink(piece: usize, room: usize, bad_flush: bool) -> Sink {
    Sink { data: Rc::new(RefCell::new(Vec::with_capacity(64))), piece, room, bad_flush }
}
/// Vertex ids of every length.
fn id(k: u32) -> u32 {
    [0, 4294967295, 9, 10, 99, 100, 1000, 12345, 99999, 100000, 1000000, 9999999, 123456789, 1000000000, 4294967294, 2147483648][k as usize]
}
/// A vertex sequence survives. p0 = length, p1 = bytes per write, p2 = ids to choose from, p3 = bytes per read
#[no_mangle]
pub fn h_rt_vec() {
    let (n, k) = (param(0) as usize, param(2));
    let mut v: Vec<Vertex> = Vec::with_capacity(N);
    for i in 0..n {
        v.push(id(choice(i as u32, k)));
    }
    let s = sink(param(1) as usize, 1000, false);
    check(v.write_buf(Box::new(s.clone())).is_ok(), 1);
    let d = s.data.borrow();
    match <Vec<Vertex>>::from_buf(src(&d, param(3) as usize, false)) {
        Ok(w) => {
            check(w.len() == n, 2);
            for i in 0..n {
                if i < w.len() {
                    check(w[i] == v[i], 3);
                }
            }
            cover(true, 1);
        }
        Err(_) => check(false, 4),
    }
}
/// Every id of a window survives. p0 = the window, p1 = its size, p3 = 0 sequence, 1 set, 2 edge
#[no_mangle]
pub fn h_rt_window() {
    const B: [u32; 10] = [0, 65536 - 128, 10_000_000 - 128, 1_000_000_000 - 128, 4_294_967_295 - 255, 2_147_483_648 - 128, 1_000_000 - 128, 100_000_000 - 128, 100_000 - 128, 16_777_216 - 128];
    let x = B[param(0) as usize] + choice(0, param(1));
    let s = sink(1000, 1000, false);
    match param(3) {
        0 => {
            let mut v: Vec<Vertex> = Vec::with_capacity(N);
            v.push(x);
            v.push(x / 2);
            check(v.write_buf(Box::new(s.clone())).is_ok(), 1);
            let d = s.data.borrow();
            match <Vec<Vertex>>::from_buf(src(&d, 100, false)) {
                Ok(w) => {
                    check(w.len() == 2, 2);
                    if w.len() == 2 {
                        check(w[0] == x, 3);
                        check(w[1] == x / 2, 3);
                    }
                }
                Err(_) => check(false, 4),
            }
        }
        1 => {
            let mut v = VertexSet::default();
            v.insert(x);
            check(v.write_buf(Box::new(s.clone())).is_ok(), 1);
            let d = s.data.borrow();
            match VertexSet::from_buf(src(&d, 100, false)) {
                Ok(w) => check((w.len() == 1) & w.contains(&x), 3),
                Err(_) => check(false, 4),
            }
        }
        _ => {
            let mut g = EditGraph::new();
            g.add_edge(&x, &7);
            check(g.write_buf(Box::new(s.clone())).is_ok(), 1);
            let d = s.data.borrow();
            match EditGraph::from_buf(src(&d, 100, false)) {
                Ok(h) => check((h.num_edges() == 1) & h.adjacent(&x, &7) & h.contains(&x), 3),
                Err(_) => check(false, 4),
            }
        }
    }
    cover(true, 1);
}
/// A vertex set survives. p0 = ids to choose from
#[no_mangle]
pub fn h_rt_set() {
    let n = param(0) as usize;
    let mut a = VertexSet::default();
    let mut has = [false; 16];
    for i in 0..n {
        has[i] = bool_(i as u32);
        if has[i] {
            a.insert(id(i as u32));
        }
    }
    let s = sink(param(1) as usize, 1000, false);
    check(a.write_buf(Box::new(s.clone())).is_ok(), 1);
    let d = s.data.borrow();
    match VertexSet::from_buf(src(&d, param(3) as usize, false)) {
        Ok(w) => {
            let mut c = 0;
            for i in 0..n {
                check(w.contains(&id(i as u32)) == has[i], 3);
                c += has[i] as usize;
            }
            check(w.len() == c, 2);
            cover(c > 1, 1);
        }
        Err(_) => check(false, 4),
    }
}
/// A graph survives up to isolated vertices. p0 = vertices, p1 = bytes per write, p2 = 1: loops, p3 = bytes per read,
/// p4 = 0 EditGraph, 1 OrdGraph, 2 DegenGraph
#[no_mangle]
pub fn h_rt_graph() {
    let n = param(0) as usize;
    order(n as u32);
    let m = graph_loops(n, param(2) == 1);
    let g = edit(n, &m);
    let s = sink(param(1) as usize, 1000, false);
    match param(4) {
        0 => check(g.write_buf(Box::new(s.clone())).is_ok(), 1),
        1 => check(OrdGraph::by_degeneracy(&g).write_buf(Box::new(s.clone())).is_ok(), 1),
        _ => check(DegenGraph::from_graph(&g).write_buf(Box::new(s.clone())).is_ok(), 1),
    }
    let d = s.data.borrow();
    match EditGraph::from_buf(src(&d, param(3) as usize, false)) {
        Ok(h) => same_edges(n, &m, &h),
        Err(_) => check(false, 4),
    }
}
fn graph_loops(n: usize, loops: bool) -> Mat {
    let mut m = sym_graph(n as u32, 0);
    if loops {
        for i in 0..n {
            m[i][i] = bool_(200 + i as u32);
        }
    }
    m
}
fn same_edges(n: usize, m: &Mat, h: &EditGraph) {
    let mut vs = 0;
    let mut es = 0;
    for i in 0..n {
        let mut any = false;
        for j in 0..n {
            any = any | m[i][j];
            check(h.adjacent(&lab(i as u32), &lab(j as u32)) == m[i][j], 3);
            es += (m[i][j] & (j <= i)) as usize;
        }
        check(h.contains(&lab(i as u32)) == any, 5);
        vs += any as usize;
    }
    check(h.num_vertices() == vs, 5);
    check(h.num_edges() == es, 2);
    cover(es > 1, 1);
}
/// A failing writer is reported. p0 = vertices, p1 = bytes per write, p2 = room, p3 = 1: flushing fails, p4 = 0 graph,
/// 1 set, 2 vec
#[no_mangle]
pub fn h_write_fail() {
    let n = param(0) as usize;
    order(n as u32);
    let ok = sink(1000, 1000, false);
    let s = sink(param(1) as usize, param(2) as usize, param(3) == 1);
    let r = match param(4) {
        0 => {
            let m = graph_loops(n, true);
            let g = edit(n, &m);
            check(g.write_buf(Box::new(ok.clone())).is_ok(), 1);
            g.write_buf(Box::new(s.clone()))
        }
        1 => {
            let v = vset(n, &sym_set(n, 0));
            check(v.write_buf(Box::new(ok.clone())).is_ok(), 1);
            v.write_buf(Box::new(s.clone()))
        }
        _ => {
            let mut v: Vec<Vertex> = Vec::with_capacity(N);
            for i in 0..n {
                v.push(id(choice(i as u32, 4)));
            }
            check(v.write_buf(Box::new(ok.clone())).is_ok(), 1);
            v.write_buf(Box::new(s.clone()))
        }
    };
    let full = ok.data.borrow().len();
    let got = s.data.borrow().len();
    check(!(full > param(2) as usize) | r.is_err(), 2);
    check(r.is_err() | (got == full), 3);
    check((full > param(2) as usize) | (param(3) == 1) | r.is_ok(), 4);
    check((param(3) != 1) | r.is_err(), 5);
    cover(r.is_err(), 1);
}

// ---- files (native runs take place in an empty scratch directory)
fn store<T: WriteToFile>(x: &T, gz: bool, name: &str) -> io::Result<()> {
    if gz {
        x.write_gzipped(name)
    } else {
        x.write_txt(name)
    }
}
/// by = 0: the reader for the format, 1: by extension
fn load<T: LoadFromFile>(gz: bool, by: u32, name: &str) -> io::Result<T> {
    if by == 1 {
        T::from_file(name)
    } else if gz {
        T::from_gzipped(name)
    } else {
        T::from_txt(name)
    }
}
/// p0 = vertices, p1 = 0 graph, 1 set, 2 vec, p2 = 1: gzip, p3 = 1: read by extension, p4 = 1: the file exists already
#[no_mangle]
pub fn h_file() {
    let n = param(0) as usize;
    let (gz, by) = (param(2) == 1, param(3));
    order(n as u32);
    let name = if gz { "a.b.txt.gz" } else { "a.b.txt" };
    if param(4) == 1 {
        let mut v: Vec<Vertex> = Vec::with_capacity(N);
        for _ in 0..4 {
            v.push(4000000000);
        }
        check(store(&v, gz, name).is_ok(), 10);
    }
    match param(1) {
        0 => {
            let m = graph_loops(n, true);
            let g = edit(n, &m);
            check(store(&g, gz, name).is_ok(), 11);
            match load::<EditGraph>(gz, by, name) {
                Ok(h) => same_edges(n, &m, &h),
                Err(_) => check(false, 12),
            }
        }
        1 => {
            let s = sym_set(n, 0);
            let v = vset(n, &s);
            check(store(&v, gz, name).is_ok(), 11);
            match load::<VertexSet>(gz, by, name) {
                Ok(w) => check(same_set(n, &w, &s), 13),
                Err(_) => check(false, 12),
            }
        }
        _ => {
            let mut v: Vec<Vertex> = Vec::with_capacity(N);
            for i in 0..n {
                v.push(id(choice(i as u32, 8)));
            }
            check(store(&v, gz, name).is_ok(), 11);
            match load::<Vec<Vertex>>(gz, by, name) {
                Ok(w) => {
                    check(w.len() == n, 14);
                    for i in 0..n {
                        if i < w.len() {
                            check(w[i] == v[i], 15);
                        }
                    }
                }
                Err(_) => check(false, 12),
            }
        }
    }
    cover(true, 2);
}
fn all_fail<T: LoadFromFile>(txt: bool, gz: bool, name: &str, id: u32) {
    if txt {
        check(T::from_txt(name).is_err(), id);
    }
    if gz {
        check(T::from_gzipped(name).is_err(), id + 1);
    }
    check(T::from_file(name).is_err(), id + 2);
}
fn put_file(name: &str, data: &[u8]) {
    let mut f = File::create(name).unwrap();
    f.write_all(data).unwrap();
}
fn get_file(name: &str) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    let mut f = File::open(name).unwrap();
    let mut buf = [0u8; 32];
    loop {
        let k = f.read(&mut buf).unwrap();
        if k == 0 {
            return v;
        }
        for i in 0..k {
            v.push(buf[i]);
        }
    }
}
fn broken<T: LoadFromFile + WriteToFile>(x: &T) {
    // missing files
    all_fail::<T>(true, true, "none.txt", 20);
    all_fail::<T>(true, true, "none.gz", 20);
    all_fail::<T>(true, true, "nodir/none.txt", 20);
    check(x.write_txt("nodir/none.txt").is_err(), 24);
    check(x.write_gzipped("nodir/none.txt.gz").is_err(), 24);
    // unknown extensions of readable files
    check(x.write_txt("known.txt").is_ok(), 25);
    let d = get_file("known.txt");
    for name in ["plain", "plain.csv", "txt", ".txt", "plain.txt.bak"] {
        put_file(name, &d);
        check(T::from_txt(name).is_ok(), 26);
        check(T::from_file(name).is_err(), 27);
    }
    // text which is not compressed, compressed data which is not text
    put_file("text.gz", &d);
    all_fail::<T>(false, true, "text.gz", 30);
    check(x.write_gzipped("z.txt.gz").is_ok(), 33);
    let z = get_file("z.txt.gz");
    put_file("z.txt", &z);
    check(T::from_txt("z.txt").is_err(), 34);
    // cut short
    let cut = choice(40, 3) as usize;
    for c in 0..3 {
        if c == cut {
            let keep = [0, 1, z.len() - 1][c];
            put_file("cut.gz", &z[..keep]);
            all_fail::<T>(false, true, "cut.gz", 35);
            cover(true, 3);
        }
    }
}
/// p0 = vertices (at least one), p1 = 0 graph, 1 set, 2 vec
#[no_mangle]
pub fn h_file_err() {
    let n = param(0) as usize;
    order(n as u32);
    match param(1) {
        0 => {
            let mut m = graph_loops(n, false);
            m[0][0] = true;
            broken(&edit(n, &m))
        }
        1 => {
            let mut s = sym_set(n, 0);
            s[0] = true;
            broken(&vset(n, &s))
        }
        _ => {
            let mut v: Vec<Vertex> = Vec::with_capacity(N);
            for i in 0..n {
                v.push(id(choice(i as u32, 4)));
            }
            broken(&v)
        }
    }
}
