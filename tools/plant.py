#!/usr/bin/env python3
"""Plants bugs: plant.py SPECS.py [ID...]

SPECS.py defines BUGS, a list of dicts with id, property, edits [(file, old, new)], demo (Rust source), needs, breaks and,
optionally, release (build the demo with --release). Each bug is confirmed in a scratch copy of /repo (it compiles, the
stable tests pass, the demonstration passes without and fails with it) and then written to /verif/seeded/ID/.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
DEMO_SH = '''#!/bin/bash
# Run with the repository as working directory; builds demo.rs against it in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/demo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
magnesia = { path = "$repo" }
rand = "0.8"
EOF
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet @FLAG@ --manifest-path "$work/Cargo.toml" 2> "$work/log" || { cat "$work/log"; exit 3; }
timeout 60 "$work/target/@DIR@/demo"
'''
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


def lock():
    """Cargo.lock of the demonstrations: the one of mc with its package renamed."""
    src = open(os.path.join(os.path.dirname(HERE), "mc", "Cargo.lock")).read()
    parts = src.split("\n[[package]]\n")
    out = [p.replace('name = "mc"\nversion = "0.1.0"', 'name = "demo"\nversion = "0.0.0"').replace(' "libc",\n', "")
           if 'name = "mc"' in p else p for p in parts]
    head, rest = out[0], sorted(out[1:], key=lambda p: p.split('"')[1])
    return "\n[[package]]\n".join([head] + [p.rstrip("\n") + "\n" for p in rest])


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def plant(b):
    wt = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(wt, "repo")
        sh(["git", "clone", "-q", "/repo", repo], wt)
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", repo)
        d = os.path.join(wt, "seed")
        os.makedirs(d)
        with open(os.path.join(d, "demo.rs"), "w") as f:
            f.write(b["demo"])
        with open(os.path.join(d, "demo.lock"), "w") as f:
            f.write(lock())
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH.replace("@FLAG@", "--release" if b.get("release") else "").replace(
                "@DIR@", "release" if b.get("release") else "debug"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode != 0:
            return f"{b['id']}: demo fails on the unchanged tree ({r.returncode})\n{r.stdout[-1500:]}"
        for file, old, new in b["edits"]:
            p = os.path.join(repo, file)
            s = open(p).read()
            n = b.get("count", {}).get(old, 1)
            if s.count(old) != n:
                return f"{b['id']}: {s.count(old)} matches in {file} of\n{old}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(wt, "target"))
        r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--skip",
                "optimize::differential_evolution"], repo, env)
        if r.returncode != 0:
            return f"{b['id']}: tests fail\n{r.stdout[-2500:]}"
        for _ in range(4):
            if sh(["cargo", "test", "--offline", "--lib", "--", "--skip", "optimize::differential_evolution"], repo, env).returncode:
                return f"{b['id']}: tests fail at times"
        # not counted as stable, but worth knowing
        note = "" if sh(["cargo", "test", "--offline", "--lib", "optimize"], repo, env).returncode == 0 else " (unstable DE test fails)"
        r = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if r.returncode in (0, 3):
            return f"{b['id']}: demo does not fail with the bug ({r.returncode})\n{r.stdout[-1500:]}"
        dst = os.path.join(SEEDED, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return f"{b['id']}: ok, demo exits {r.returncode}{note}"
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    with ThreadPoolExecutor(4) as ex:
        for msg in ex.map(plant, [b for b in bugs if not want or b["id"] in want]):
            print(msg, flush=True)


main()
