#!/usr/bin/env python3
"""Builds and confirms /verif/seeded/<id> from definitions (tools/seeds/*.py): mkseed.py [ID...]"""
import glob, json, os, shutil, subprocess, sys
V = "/verif"
W = "/tmp/seedw"
R = W + "/repo"
DEMO = r'''#!/bin/bash
# Exit 0 if graphbench (in the current directory) behaves as promised, nonzero otherwise.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d "${TMPDIR:-/tmp}/gbdemo.XXXXXX") || exit 2
trap 'rm -rf "${T:?}"' EXIT
mkdir -p "$T/src" "$T/run"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
graphbench = { path = "$R" }
[workspace]
TOML
cd "$T" && RUSTFLAGS="-A warnings" CARGO_TARGET_DIR="$T/t" cargo build -q --offline || exit 3
cd "$T/run" && timeout 60 "$T/t/debug/demo"
'''
HEAD = """use graphbench::algorithms::*;
use graphbench::degengraph::*;
use graphbench::editdigraph::*;
use graphbench::editgraph::*;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::iterators::*;
use graphbench::operations::*;
use graphbench::ordgraph::*;
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    seeds = {}
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["S"]:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    want = sys.argv[1:] or [s for s in seeds if not os.path.exists(f"{V}/seeded/{s}/meta.json")]
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh(f"cp -a /repo {R}")
    sh(f"git -C {R} checkout -q -- . && git -C {R} clean -fdq")
    base = sh(f"git -C {R} log --format=%H --reverse | head -1").stdout.strip()
    for i in want:
        s = seeds[i]
        d = f"{V}/seeded/{i}"
        bad = None
        try:
            bt = set()
            for f, a, b in s["edits"]:
                p = f"{R}/src/{f}"
                t = open(p).read()
                if t.count(a) != 1:
                    raise Exception(f"{f}: {t.count(a)} occurrences of {a[:300]!r}")
                open(p, "w").write(t.replace(a, b))
                bt |= set(sh(f"git -C {R} show {base}:src/{f}").stdout.splitlines())
            diff = sh(f"git -C {R} diff").stdout
            rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not any(l in bt and len(l.strip()) > 3 for l in rem):
                raise Exception("no original line is changed")
            new = [l for l in rem if l.strip() and l not in bt]
            if new:
                print(i, "note: lines not in the original:", new)
            r = sh("cargo test --offline -q 2>&1", cwd=R)
            if r.returncode:
                o = r.stdout
                k = o.rfind("error") if "error[" in o or "error:" in o and "test result" not in o else o.find("failures:")
                raise Exception("tests: " + o[max(k, 0):][:900])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.rs", "w").write(HEAD + s.get("use", "") + "\nfn main() {\n" + s["demo"].strip("\n") + "\n}\n")
            json.dump({"property": s["p"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = sh(f"bash {d}/demo.sh", cwd=R)
            if r.returncode in (0, 2, 3):
                bad = f"demo does not fail with the patch ({r.returncode}): " + r.stderr[-1500:]
            sh(f"git -C {R} checkout -q -- .")
            r = sh(f"bash {d}/demo.sh", cwd=R)
            if r.returncode != 0:
                bad = "demo fails without the patch: " + r.stderr[-1500:]
        except Exception as e:
            bad = str(e)
        sh(f"git -C {R} checkout -q -- . && git -C {R} clean -fdq")
        if bad:
            shutil.rmtree(d, ignore_errors=True)
        print(i, "REJECTED: " + bad if bad else "ok")
        sys.stdout.flush()
    shutil.rmtree(W, ignore_errors=True)


main()
