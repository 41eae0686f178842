//! gbsym: symbolic execution of LLVM IR over Boolean inputs, with verdicts left to an SMT solver.
//!
//!   gbsym --ll FILE --entry FN --out DIR [--param k=v]... [--max-steps N] [--chunk N] [--models N]
//!
//! Writes DIR/result.json, DIR/main.smt2 (the property queries) and DIR/claims.K.smt2 (queries which re-prove every
//! simplification made while building the formulas).
mod bdd;
mod exec;
mod ir;
mod val;

use bdd::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Smt<'a> {
    b: &'a Bdd,
    mark: Vec<u8>,
    out: String,
    nodes: Vec<u32>,
}
fn nm(g: G) -> String {
    match g {
        F => "false".into(),
        T => "true".into(),
        _ => format!("n{}", g),
    }
}
impl<'a> Smt<'a> {
    fn new(b: &'a Bdd) -> Self {
        Smt { b, mark: vec![0; b.num_nodes()], out: String::new(), nodes: vec![] }
    }
    fn need(&mut self, g: G) {
        let mut st = vec![g];
        while let Some(g) = st.pop() {
            if g <= T || self.mark[g as usize] != 0 {
                continue;
            }
            self.mark[g as usize] = 1;
            self.nodes.push(g);
            match self.b.defs[g as usize] {
                Def::None => panic!("node without definition"),
                Def::Var(_) => {}
                Def::And(a, c) | Def::Or(a, c) | Def::Diff(a, c) => {
                    st.push(a);
                    st.push(c);
                }
                Def::Not(a) => st.push(a),
            }
        }
    }
    fn header(&mut self) {
        let b = self.b;
        self.nodes.sort_by_key(|g| b.drank[*g as usize]);
        self.out.push_str("(set-logic QF_UF)\n");
        for &g in &self.nodes {
            match b.defs[g as usize] {
                Def::Var(v) => {
                    let _ = writeln!(self.out, "(declare-const {} Bool)(declare-const n{} Bool)(assert (= n{} {}))", b.var_names[v as usize], g, g, b.var_names[v as usize]);
                }
                Def::And(x, y) => {
                    let _ = writeln!(self.out, "(declare-const n{} Bool)(assert (= n{} (and {} {})))", g, g, nm(x), nm(y));
                }
                Def::Or(x, y) => {
                    let _ = writeln!(self.out, "(declare-const n{} Bool)(assert (= n{} (or {} {})))", g, g, nm(x), nm(y));
                }
                Def::Diff(x, y) => {
                    let _ = writeln!(self.out, "(declare-const n{} Bool)(assert (= n{} (and {} (not {}))))", g, g, nm(x), nm(y));
                }
                Def::Not(x) => {
                    let _ = writeln!(self.out, "(declare-const n{} Bool)(assert (= n{} (not {})))", g, g, nm(x));
                }
                Def::None => {}
            }
        }
    }
}

fn main() {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut params = vec![];
    let mut max_steps = u64::MAX;
    let mut max_secs = 0u64;
    let mut chunk = 2000usize;
    let mut nmodels = 6usize;
    let mut trace = false;
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--ll" => ll = a[i + 1].clone(),
            "--entry" => entry = a[i + 1].clone(),
            "--out" => out = a[i + 1].clone(),
            "--param" => {
                let (k, v) = a[i + 1].split_once('=').unwrap();
                params.push((k.parse::<u32>().unwrap(), v.parse::<u32>().unwrap()));
            }
            "--max-steps" => max_steps = a[i + 1].parse().unwrap(),
            "--max-secs" => max_secs = a[i + 1].parse().unwrap(),
            "--chunk" => chunk = a[i + 1].parse().unwrap(),
            "--models" => nmodels = a[i + 1].parse().unwrap(),
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    if std::env::var("GBSYM_DBG").is_err() {
        panic::set_hook(Box::new(|i| {
            let p = i.payload();
            let t = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if t != "BUDGET" {
                eprintln!("{}", &t[..t.len().min(400)]);
            }
        }));
    }
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || real_main(ll, entry, out, params, max_steps, max_secs, chunk, nmodels, trace))
        .unwrap();
    let c = h.join().unwrap_or(2);
    std::process::exit(c);
}

#[allow(clippy::too_many_arguments)]
fn real_main(ll: String, entry: String, out: String, params: Vec<(u32, u32)>, max_steps: u64, max_secs: u64, chunk: usize, nmodels: usize, trace: bool) -> i32 {
    let t0 = std::time::Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&ll).expect("read ll").into_boxed_str());
    let m = ir::Module::parse(text);
    let mut mc = exec::Machine::new(m);
    mc.max_steps = max_steps;
    if max_secs > 0 {
        mc.deadline = Some(t0 + std::time::Duration::from_secs(max_secs));
    }
    mc.trace = trace;
    for (k, v) in &params {
        mc.params.insert(*k, *v);
    }
    let t1 = std::time::Instant::now();
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| mc.run(&entry)));
    let mut status = "complete".to_string();
    let mut error = String::new();
    if let Err(e) = r {
        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if msg == "BUDGET" {
            status = "budget".into();
        } else {
            status = "error".into();
            error = msg;
        }
    }
    let texec = t1.elapsed().as_secs_f64();
    std::fs::create_dir_all(&out).unwrap();
    // ---- queries
    let pend = if status == "budget" { mc.pending_guard() } else { F };
    let b = &mc.b;
    let mut s = Smt::new(b);
    for v in &mc.viols {
        for (p, q) in &v.parts {
            s.need(*p);
            s.need(*q);
        }
    }
    for g in mc.covers.values() {
        s.need(*g);
    }
    for g in [mc.completed, mc.assumed_out, mc.dead, pend] {
        s.need(g);
    }
    s.header();
    let mut q = std::mem::take(&mut s.out);
    let mut nq = 0;
    let emit = |q: &mut String, name: &str, body: &str| {
        let _ = writeln!(q, "(echo \"Q {}\")\n(push)\n(assert {})\n(check-sat)\n(pop)", name, body);
    };
    let viol_expr = |v: &exec::Viol| {
        let mut e = String::from("(or false");
        for (p, o) in &v.parts {
            let _ = write!(e, " (and {} (not {}))", nm(*p), nm(*o));
        }
        e.push(')');
        e
    };
    emit(&mut q, "reach", &nm(mc.completed));
    nq += 1;
    if status == "complete" {
        emit(&mut q, "total", &format!("(not (or {} {} {}))", nm(mc.completed), nm(mc.assumed_out), nm(mc.dead)));
        nq += 1;
    }
    let mut all = String::from("(or false");
    for v in &mc.viols {
        if v.guard == F {
            all.push(' ');
            all.push_str(&viol_expr(v));
        }
    }
    all.push(')');
    emit(&mut q, "all", &all);
    nq += 1;
    for (k, v) in mc.viols.iter().enumerate() {
        if v.guard != F {
            let _ = writeln!(q, "(echo \"Q v{}\")\n(push)\n(assert {})\n(check-sat)\n(get-value ({}))\n(pop)", k, viol_expr(v), if b.var_names.is_empty() { "true".into() } else { b.var_names.join(" ") });
            nq += 1;
        }
    }
    for (id, g) in &mc.covers {
        emit(&mut q, &format!("cover{}", id), &nm(*g));
        nq += 1;
    }
    // variables which occur in no needed formula still have to be declared for get-value
    let mut decl = String::new();
    for n in &b.var_names {
        if !q.contains(&format!("(declare-const {} Bool)", n)) {
            let _ = writeln!(decl, "(declare-const {} Bool)", n);
        }
    }
    let q = q.replacen("(set-logic QF_UF)\n", &format!("(set-logic QF_UF)\n{}", decl), 1);
    std::fs::write(format!("{}/main.smt2", out), &q).unwrap();
    // ---- claims
    let mut nchunks = 0;
    let mut bytes = 0usize;
    for (ci, c) in b.claims.chunks(chunk).enumerate() {
        let mut s = Smt::new(b);
        for (_, x, y, r) in c {
            s.need(*x);
            s.need(*y);
            s.need(*r);
        }
        s.header();
        let inn = |g: G| g <= T || s.mark[g as usize] != 0;
        let mut q = std::mem::take(&mut s.out);
        let lhs = |op: u32, x: G, y: G| match op {
            1 => format!("(and {} {})", nm(x), nm(y)),
            2 => format!("(or {} {})", nm(x), nm(y)),
            _ => format!("(and {} (not {}))", nm(x), nm(y)),
        };
        // earlier claims have their own queries; used as lemmas here
        for (op, x, y, r) in &b.claims[..ci * chunk] {
            if inn(*x) && inn(*y) && inn(*r) {
                let _ = writeln!(q, "(assert (= {} {}))", lhs(*op, *x, *y), nm(*r));
            }
        }
        q.push_str("(assert (or false\n");
        for (op, x, y, r) in c {
            let _ = writeln!(q, " (xor {} {})", lhs(*op, *x, *y), nm(*r));
        }
        q.push_str("))\n(check-sat)\n");
        std::fs::write(format!("{}/claims.{}.smt2", out, nchunks), &q).unwrap();
        nchunks += 1;
        // the remaining claims are reported as not re-proved
        bytes += q.len();
        if bytes > 200_000_000 {
            break;
        }
    }
    // ---- result
    let mut j = String::from("{\n");
    let _ = writeln!(j, " \"status\": {}, \"error\": {},", js(&status), js(&error));
    let _ = writeln!(
        j,
        " \"entry\": {}, \"steps\": {}, \"groups\": {}, \"exec_s\": {:.3}, \"vars\": {}, \"bdd_nodes\": {}, \"bdd_ops\": {}, \"claims\": {}, \"claim_files\": {}, \"queries\": {}, \"asserts\": {},",
        js(&entry),
        mc.steps,
        mc.groups,
        texec,
        b.num_vars(),
        b.num_nodes(),
        b.ops,
        b.claims.len(),
        nchunks,
        nq,
        mc.nassert
    );
    let _ = writeln!(j, " \"completed\": {}, \"assumed_out\": {}, \"dead\": {}, \"inputs\": {},", b.count(mc.completed), b.count(mc.assumed_out), b.count(mc.dead), b.count(T));
    let models = |g: G| -> String {
        let mut ms: Vec<String> = vec![];
        for k in 0..nmodels as u64 * 4 {
            if let Some(m) = b.model(g, k) {
                let t: Vec<String> = b.var_names.iter().zip(&m).filter(|x| *x.1).map(|x| x.0.clone()).collect();
                let t = t.join(",");
                if !ms.contains(&t) {
                    ms.push(t);
                }
            }
            if ms.len() >= nmodels {
                break;
            }
        }
        let v: Vec<String> = ms.iter().map(|m| js(m)).collect();
        format!("[{}]", v.join(", "))
    };
    let _ = writeln!(j, " \"pending\": {},", models(pend));
    let _ = writeln!(j, " \"ok\": {},", models(mc.completed));
    j.push_str(" \"violations\": [");
    let mut first = true;
    for (k, v) in mc.viols.iter().enumerate() {
        if !first {
            j.push(',');
        }
        first = false;
        let _ = write!(
            j,
            "\n  {{\"k\": {}, \"kind\": {}, \"id\": {}, \"loc\": {}, \"trace\": {}, \"sat\": {}, \"count\": {}, \"models\": {}}}",
            k,
            js(&v.kind),
            v.id,
            js(&v.loc),
            js(&v.trace),
            v.guard != F,
            b.count(v.guard),
            models(v.guard)
        );
    }
    j.push_str("],\n \"covers\": {");
    let c: Vec<String> = mc.covers.iter().map(|(k, g)| format!("\"{}\": {}", k, b.count(*g))).collect();
    j.push_str(&c.join(", "));
    j.push_str("},\n \"functions\": [");
    let mut f: Vec<String> = mc.executed.iter().map(|s| js(s)).collect();
    f.sort();
    j.push_str(&f.join(",\n  "));
    j.push_str("]\n}\n");
    std::fs::File::create(format!("{}/result.json", out)).unwrap().write_all(j.as_bytes()).unwrap();
    eprintln!(
        "{} {} steps={} groups={} vars={} nodes={} claims={} exec={:.2}s total={:.2}s {}",
        entry,
        status,
        mc.steps,
        mc.groups,
        b.num_vars(),
        b.num_nodes(),
        b.claims.len(),
        texec,
        t0.elapsed().as_secs_f64(),
        error
    );
    if status == "complete" {
        0
    } else {
        3
    }
}
