#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property with the bug applied to /repo: runseeds.py [ID...]"""
import json, os, subprocess, sys, time
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
for i in ids:
    d = f"{V}/seeded/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    try:
        subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        r = subprocess.run([V + "/bin/check", p, "quick"], capture_output=True, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    import re
    hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
    print(i, p, "caught" if hit else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s")
    if not hit:
        print("   ", r.stdout[-600:], r.stderr[-300:])
    else:
        print("   ", [l for l in r.stdout.splitlines() if l.startswith("#")][:2])
    f = V + "/tools/seed_results.json"
    res = json.load(open(f)) if os.path.exists(f) else {}
    m = re.search(r"h_\w+", "".join(l for l in r.stdout.splitlines() if l.startswith("#")))
    res[i] = f"caught by {p} (`{m.group(0) if m else '?'}`)" if hit else f"MISSED by {p}"
    json.dump({k: res[k] for k in sorted(res)}, open(f, "w"), indent=0)
    sys.stdout.flush()
