import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in props.P:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check {i} quick",
        "thorough_cmd": f"bin/check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "solver-based bounded symbolic execution of the compiled LLVM IR (all inputs symbolic, verdict by Z3), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every input within the stated bounds (" + props.P[i]["bounds"] + "). Trusted: rustc's LLVM IR, the IR interpreter in engine/ (its formula simplifications are re-proved by Z3), the hash-container model with a fixed traversal order per run, Z3.",
    })
na = [{"property": i, "reason": props.NA.get(i, "harness not built yet")} for i in ids if i not in props.P]
git = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in git if l.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "cfg(graphbench_symex)", "enable": "RUSTFLAGS=\"--cfg graphbench_symex\" (bin/build_ir.sh); the native replay builds without it", "source_commits": hooks},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
