#!/usr/bin/env python3
"""Runs each planted bug's own check (or all, with --all) against it: applies the patch in /repo, runs, undoes it.

  matrix.py [--all] [ID...]     results are added to target/matrix.json
"""
import json, os, re, subprocess, sys, time

V = "/verif"
args = [a for a in sys.argv[1:] if a != "--all"]
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
store = V + "/target/matrix.json"
res = json.load(open(store)) if os.path.exists(store) else {}
for i in args or sorted(os.listdir(V + "/seeded")):
    d = f"{V}/seeded/{i}"
    own = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for p in props if "--all" in sys.argv else [own]:
            t = time.time()
            r = subprocess.run([sys.executable, V + "/check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            out = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION") and "built" not in l and ": exit" not in l]
            res.setdefault(i, {})[p] = "caught" if hit else ("quiet" if r.returncode == 0 else f"exit {r.returncode}")
            print(f"{i} {p}: {res[i][p]} {time.time() - t:.0f}s  {(out or [''])[-1 if not hit else 0][:250]}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    json.dump(res, open(store, "w"), indent=1)
