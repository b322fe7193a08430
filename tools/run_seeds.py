#!/usr/bin/env python3
"""run_seeds.py [--all] [ID...]: applies each planted bug to /repo in turn, runs the quick check of its property (or, with
--all, every check) and undoes it. For development only."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
PROPS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout:
    sys.exit("/repo is not clean")
for b in args or sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = os.path.join(HERE, "seeded", b)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    try:
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        for p in PROPS if "--all" in sys.argv else [prop]:
            t = time.time()
            r = subprocess.run([os.path.join(HERE, "run.py"), p, "quick"], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            ok = r.returncode == 1 and any(f"property={p} " in l for l in v)
            if p == prop or r.returncode != 0:
                print(f"{b} {p} {'caught' if ok else 'MISSED' if r.returncode == 0 else 'ODD'} rc={r.returncode} {time.time() - t:.0f}s {v[:1]}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
