#!/usr/bin/env python3
"""Applies behaviour-preserving edits (tools/refactors) to /repo, runs the quick checks of the properties concerned, and restores.
runrefactors.py [-c] ID... | -b ID... (apply all named edits together; no ID: all); -c only compiles and tests."""
import os, subprocess, sys, time, glob
V = "/verif"; REPO = os.environ.get("REPO", "/repo")
ns = {}
for f in sorted(glob.glob(V + "/tools/refactors/*.py")):
    exec(open(f).read(), ns)
R = {i: (p, f, s) for i, p, f, s in ns["R"]}
args = [a for a in sys.argv[1:] if not a.startswith("-")] or list(R)
together = "-b" in sys.argv; conly = "-c" in sys.argv
assert not subprocess.run(f"git -C {REPO} status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
def app(i):
    p, f, subs = R[i]
    s = open(REPO + "/" + f).read()
    for a, b in subs:
        assert s.count(a) >= 1, (i, a)
        s = s.replace(a, b, 1)
    open(REPO + "/" + f, "w").write(s)
groups = [args] if together else [[a] for a in args]
for g in groups:
    try:
        for i in g: app(i)
        if conly:
            r = subprocess.run("cd " + REPO + " && CARGO_TARGET_DIR=/tmp/rft cargo test --offline -q 2>&1 | grep -E '^error|FAILED|failed|test result' -A8", shell=True, capture_output=True, text=True)
            bad = "error" in r.stdout or "FAILED" in r.stdout
            print(g, "BAD" if bad else "ok", r.stdout[-1500:] if bad else ""); sys.stdout.flush()
            continue
        for p in sorted({p for i in g for p in R[i][0]}):
            t = time.time()
            r = subprocess.run([V + "/bin/check", p, "quick"], capture_output=True, text=True)
            print(g if len(g) < 4 else len(g), p, "quiet" if r.returncode == 0 else f"ALARM rc={r.returncode} " + r.stdout[-1500:], f"{time.time()-t:.0f}s", [l for l in r.stdout.splitlines() if "undecided" in l.lower()][:3])
            sys.stdout.flush()
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
