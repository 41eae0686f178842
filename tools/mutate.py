#!/usr/bin/env python3
"""Mechanical mutants of /repo/src that pass the tests, run through (a budgeted part of) the engine jobs of the
properties anchored in the file. Writes one line per mutant to OUT; survivors are candidates for stronger checks.
mutate.py OUT WORKERS [file-substring...]      (scratch space: /tmp/mut)"""
import json, os, re, subprocess, sys, time, random, shutil, concurrent.futures as cf, queue, glob
V = "/verif"; OUT = sys.argv[1]; NW = int(sys.argv[2]); FILT = sys.argv[3:]
sys.path.insert(0, V + "/bin"); import props
PROPS = {
    "compare.rs": ["G10"], "degengraph.rs": ["G15"], "dtfgraph.rs": ["G23", "G22", "G24"], "editdigraph.rs": ["G02", "G07", "G03", "G05"],
    "editgraph.rs": ["G01", "G03", "G07", "G05"], "graph.rs": ["G26", "G06", "G01", "G02", "G14"], "io.rs": ["G27", "G28"], "iterators.rs": ["G07", "G23"],
    "operations.rs": ["G04", "G05", "G08", "G09"], "ordgraph.rs": ["G14", "G15"], "reachgraph.rs": ["G16"], "algorithms/graph.rs": ["G11", "G12", "G13"],
    "algorithms/lineargraph.rs": ["G17", "G18", "G19", "G20", "G21"], "datastructures/sreach_trace_oracle.rs": ["G25"],
}
OPS = [
    (r"(?<![<>=!\-&|])<(?![<=>&'A-Za-z:])", "<="), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r"(?<=[\w)])\+1\b", ""), (r" \+ 1\b", ""), (r"-1\b(?!\w)", ""), (r" - 1\b", ""), (r"\.\.=", ".."), (r"\b1\.\.", "0.."), (r"\b0\.\.", "1.."), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bcontinue\b", "break"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\+= 1\b", "+= 2"), (r"-= 1\b", "-= 2"), (r"\bif (?!let)([^{]+) \{", r"if !(\1) {"), (r"\bif (?!let)([^{]+) \{", r"if false && (\1) {"),
    (r"\b2\b", "3"), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\.skip\(1\)", ""), (r"\*2\b|\b2\*", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\(u, ?v\)", "(v, u)"), (r"\(x, ?y\)", "(y, x)"), (r"&u, ?&v", "&v, &u"), (r"\bleft_", "right_"), (r"\bin_(?=neigh|deg|arcs)", "out_"), (r"\bout_(?=neigh|deg)", "in_"),
]
def mutants(f):
    lines = open("/repo/src/" + f).read().split("\n")
    out = []
    end = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    for i in range(end):
        l = lines[i]; t = l.strip()
        if not t or t.startswith(("//", "use ", "#", "pub fn", "fn ", "impl", "mod ", "pub mod", "where", "pub struct", "struct", "}", "assert", "/*", "*", "pub trait", "trait", "type ", "pub type")): continue
        code = l.split("//")[0]
        seen = set()
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                n = code[:m.start()] + m.expand(rep) + code[m.end():]
                if n != code and n not in seen:
                    seen.add(n); out.append((f, i, l, n))
        if t.endswith(";") and not t.startswith(("let ", "return", "}")) and "=" not in t.split("(")[0] or re.match(r"^[\w\.\*\[\]]+ [\+\-]?= .*;$", t):
            out.append((f, i, l, re.match(r"\s*", l).group() + ";"))
    return out
def prep(k):
    d = f"/tmp/mut/w{k}"
    if os.path.exists(d + "/ok"): return
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(f"cp -a /repo {d}/repo && rm -rf {d}/repo/target && mkdir -p {d}/v && cp -a {V}/harness {V}/model {V}/engine {V}/bin {d}/v/ && sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/v/harness/Cargo.toml && cp -a /tmp/w1 {d}/w && rm -rf {d}/w/t", shell=True)
    open(d + "/ok", "w").close()
def run1(d, j, secs):
    h, p = j
    o = f"{d}/o.{random.getrandbits(60):x}"
    os.makedirs(o)
    try:
        r = subprocess.run([f"{d}/w/engt/release/gbsym", "--ll", f"{d}/w/all.ll", "--entry", h, "--out", o, "--max-secs", str(secs)] + [x for k, v in p.items() for x in ("--param", f"{k}={v}")], capture_output=True, text=True, timeout=secs * 3 + 30)
        r = json.load(open(o + "/result.json"))
    except Exception as e:
        return "crash", str(e)[:100]
    finally:
        shutil.rmtree(o, ignore_errors=True)
    v = [x for x in r["violations"] if x["sat"]]
    if v: return "viol", f"{v[0]['kind']} {v[0]['id']}"
    if r["status"] != "complete": return r["status"], r["error"][:120]
    return "ok", ""
def jobs(f):
    js = []
    for a, pr in enumerate(PROPS[f]):
        for (h, p, opt) in props.P[pr]["quick"]:
            if p[98] > 1 or p[99] > 1: continue
            js.append(((p.get(0, 3) + (2 if p[97] else 0), a, p[97] * 7 % 5, random.random()), (h, p), pr))
    js.sort(key=lambda x: x[0])
    return [(j, pr) for _, j, pr in js]
def one(k, m, budget=100):
    d = f"/tmp/mut/w{k}"; f, i, old, new = m
    path = f"{d}/repo/src/{f}"
    src = open("/repo/src/" + f).read().split("\n"); src[i] = new
    open(path, "w").write("\n".join(src))
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=d + "/tt", CARGO_INCREMENTAL="1")
        try:
            r = subprocess.run("ulimit -v 16000000; exec cargo test --offline -q", shell=True, cwd=d + "/repo", env=env, capture_output=True, text=True, timeout=90)
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-f", d + "/tt/debug/deps"]); return "tests-hang", ""
        if r.returncode: return ("compile" if "error" in r.stderr and "could not compile" in r.stderr else "tests"), ""
        r = subprocess.run([f"{d}/v/bin/build_ir.sh", d + "/w"], capture_output=True, text=True)
        if r.returncode: return "ir-error", r.stderr[-300:]
        js = jobs(f); t0 = time.time(); errs = []; nrun = 0
        with cf.ThreadPoolExecutor(2) as ex:
            it = iter(js); pend = {}
            while True:
                while len(pend) < 2 and time.time() - t0 < budget:
                    nx = next(it, None)
                    if nx is None: break
                    pend[ex.submit(run1, d, nx[0], 20)] = nx
                if not pend: break
                done, _ = cf.wait(list(pend), return_when=cf.FIRST_COMPLETED)
                for x in done:
                    st, e = x.result(); j, pr = pend.pop(x); nrun += 1
                    if st == "viol":
                        for y in pend: y.cancel()
                        return "CAUGHT", f"{pr} {j[0]} {j[1]} {e} after {nrun} jobs"
                    if st != "ok": errs.append((st, e, j[0]))
        return ("UNDECIDED" if [e for e in errs if e[0] != "budget"] else "SURVIVED"), f"{nrun}/{len(js)} jobs {errs[:2]}"
    finally:
        shutil.copy("/repo/src/" + f, path)
ms = []
for f in PROPS:
    if FILT and not any(x in f for x in FILT): continue
    ms += mutants(f)
done = set()
if os.path.exists(OUT):
    done = {tuple(json.loads(l)["m"]) for l in open(OUT)}
ms = [m for m in ms if tuple(m) not in done]
random.seed(1); random.shuffle(ms)
print(len(ms), "mutants"); sys.stdout.flush()
if NW == 0: sys.exit()
for k in range(NW): prep(k)
q = queue.Queue()
for k in range(NW): q.put(k)
fo = open(OUT, "a")
def task(m):
    k = q.get()
    try: st, info = one(k, m)
    except Exception as e: st, info = "exc", repr(e)
    finally: q.put(k)
    fo.write(json.dumps(dict(m=m, st=st, info=info)) + "\n"); fo.flush()
with cf.ThreadPoolExecutor(NW) as ex: list(ex.map(task, ms))
