#!/usr/bin/env python3
"""Runs one check: run.py PROPERTY quick|thorough | --replay FILE | --setup

Builds the check binary of the property against /repo's working tree, once with overflow checks and debug assertions
off (main run) and once with them on (second run), runs both, and turns a crash of the process into a violation if the
recorded case crashes again on its own. Exit 0: held, 1: violation, anything else: error of the check.
"""
import hashlib, json, os, re, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "mc")
TARGET = os.path.join(CRATE, "target")
BINS = {
    "poly": ["P01", "P02", "P03"],
    "cplx": ["C01", "C02"],
    "cflt": ["C03", "C04", "C05"],
    "ring": ["R01", "R02", "I01"],
    "stat": ["S01", "S02", "S03"],
    "dynl": ["D02", "D03", "D04", "D05"],
    "expr": ["D01", "D06"],
    "funs": ["F01", "F02", "O05"],
    "de": ["O01", "O02", "O03", "O04"],
    "safe": ["M01"],
}
BIN = {p: b for b, ps in BINS.items() for p in ps}


def profiles(prop, tier):
    """(main profile, profile of the second run or None)"""
    b = BIN[prop]
    if prop == "I01":  # is about builds with overflow checks
        return ("lightchecked" if tier == "quick" else "checked", None)
    if tier == "thorough":
        return ("release", "lightchecked" if b in ("stat", "dynl", "safe") else "checked")
    if b in ("stat", "dynl", "safe"):
        return ("light", "lightchecked")
    if b in ("poly", "cplx", "expr"):
        return ("release", "lightchecked")
    return ("release", "checked")


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("MC_") and k not in ("MC_THREADS", "MC_ROOT") or k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
            del e[k]
    e.update(CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
    e.setdefault("MC_ROOT", HERE)
    e.update({k: v for k, v in kw.items() if v is not None})
    return e


def source_hash():
    h = hashlib.sha256()
    for base in ("/repo/src", "/repo/Cargo.toml"):
        files = [base] if os.path.isfile(base) else sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(jobs):
    """jobs: list of (binary, profile); builds them at the same time."""
    os.makedirs(TARGET, exist_ok=True)
    # cargo goes by modification times; sources restored with old times must not be taken for unchanged ones
    stamp, new = os.path.join(TARGET, "magnesia.sha256"), source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != new:
        for prof in {p for _, p in jobs} | {d for d in os.listdir(TARGET) if os.path.isdir(os.path.join(TARGET, d))}:
            fp = os.path.join(TARGET, prof, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("magnesia-"):
                        subprocess.run(["rm", "-rf", os.path.join(fp, d)])
        with open(stamp, "w") as f:
            f.write(new)
    procs = []
    by_profile = {}
    for b, p in jobs:
        by_profile.setdefault(p, set()).add(b)
    for p, bs in sorted(by_profile.items()):
        cmd = ["cargo", "build", "--offline", "--quiet", "--profile", p]
        for b in sorted(bs):
            cmd += ["--bin", b]
        procs.append((p, subprocess.Popen(cmd, cwd=CRATE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for p, q in procs:
        out, _ = q.communicate()
        if q.returncode != 0:
            ok = False
            print(f"build failed (profile {p}):\n{out[-6000:]}")
    return ok


def journal_cases(path):
    """Cases that were running when the process died: (suite number, part, idx)."""
    try:
        data = open(path, "rb").read()
    except OSError:
        return []
    cases = []
    for i in range(0, len(data) - 31, 32):
        s, part, idx, _ = struct.unpack("<4Q", data[i:i + 32])
        if s and idx:
            cases.append((s, part, idx))
    return cases


def launch(prop, profile, tier, tmp, replay=None, summary=None, prior=None, limit=None):
    exe = os.path.join(TARGET, profile, BIN[prop])
    journal = os.path.join(tmp, f"journal-{profile}-{time.time_ns()}")
    e = env(VERIF_TIER=tier, MC_MODE=profile, MC_JOURNAL=journal, MC_SUMMARY=summary, MC_PRIOR=prior)
    cmd = [exe, prop] + (["--replay", replay] if replay else [])
    try:
        r = subprocess.run(cmd, cwd=CRATE, env=e, timeout=limit)
        return r.returncode, journal
    except subprocess.TimeoutExpired:
        return None, journal


def crashed(rc):
    return rc is not None and (rc < 0 or rc in (134, 136, 137, 139))


def run(prop, profile, tier, tmp, **kw):
    sys.stdout.flush()
    rc, journal = launch(prop, profile, tier, tmp, **kw)
    if not crashed(rc):
        return 4 if rc is None else rc
    # the process died: find out whether one of the recorded cases does it on its own
    print(f"{prop} ({profile}): the process died with status {rc}; replaying the cases that were running", flush=True)
    root = os.environ.get("MC_ROOT", HERE)
    os.makedirs(os.path.join(root, "replays"), exist_ok=True)
    for s, part, idx in journal_cases(journal):
        f = os.path.join(root, "replays", f"{prop}-{profile}-crash-{s}-{part}-{idx}.json")
        with open(f, "w") as fh:
            fh.write(json.dumps({"property": prop, "mode": profile, "tier": tier, "suite": f"#{s}", "part": part, "idx": idx, "case": "crash", "message": "the process dies"}, separators=(",", ":")) + "\n")
        rc2, _ = launch(prop, profile, tier, tmp, replay=f, limit=300)
        if crashed(rc2):
            print(f"VIOLATION property={prop} replay={f}")
            print(f"  suite #{s}, case {part}/{idx}: the process dies (status {rc2}): stack overflow, exhausted memory or an abort inside the library")
            return 1
        if rc2 == 1:
            return 1
        os.unlink(f)
    print("the crash does not repeat with the recorded cases")
    return 5


def main():
    if sys.argv[1:2] == ["--setup"]:
        jobs = {(BIN[p], x) for p in BIN for x in profiles(p, "quick") if x}
        sys.exit(0 if build(sorted(jobs)) else 2)
    if sys.argv[1:2] == ["--replay"]:
        d = json.load(open(sys.argv[2]))
        prop, profile = d["property"], d.get("mode", "release")
        if not build([(BIN[prop], profile)]):
            sys.exit(2)
        with tempfile.TemporaryDirectory() as tmp:
            rc, _ = launch(prop, profile, d["tier"], tmp, replay=os.path.abspath(sys.argv[2]))
        if crashed(rc):
            print(f"VIOLATION property={prop} replay={sys.argv[2]}\n  the process dies (status {rc})")
            sys.exit(1)
        sys.exit(rc)
    prop, tier = sys.argv[1], sys.argv[2]
    main_profile, second = profiles(prop, tier)
    if not build([(BIN[prop], p) for p in (main_profile, second) if p]):
        sys.exit(2)
    with tempfile.TemporaryDirectory() as tmp:
        prior = None
        if second:
            prior = os.path.join(tmp, "second.json")
            print(f"-- {prop}: with overflow checks and debug assertions ({second})", flush=True)
            rc = run(prop, second, "quick", tmp, summary=prior)
            if rc != 0:
                sys.exit(rc)
        print(f"-- {prop}: main run ({main_profile})", flush=True)
        sys.exit(run(prop, main_profile, tier, tmp, prior=prior))


main()
