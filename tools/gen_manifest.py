#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
H = "/verif"
TECH = {
    "poly": "explicit-state exploration of the real polynomial code (all operand words up to a bound, closure of operator histories) in lock-step with a reference model",
    "cplx": "exhaustive enumeration of operands over finite and free rings, real code in lock-step with a reference model",
    "cflt": "exhaustive enumeration of floating-point operand grids, real code against a multi-precision reference",
    "ring": "exhaustive enumeration of element tuples of finite rings and of all nestings of ring constructors; axioms checked on every tuple",
    "stat": "exhaustive enumeration of shapes and contents and closure of in-place histories, real code in lock-step with a reference model",
    "dynl": "explicit-state search over histories of dynamic containers (all shapes, contents, operations up to a bound) in lock-step with a reference model",
    "expr": "exhaustive enumeration of expression trees up to a depth, shapes and sources, real code against an eager reference; access-log monitor",
    "funs": "exhaustive enumeration of inputs (all 2^32 f32 values in the thorough tier, exponent/mantissa grids for f64) against multi-precision references",
    "safe": "exhaustive fault injection: every operation is run once per call it makes into user code, with a panic injected there (in-place operations also with a second panic on retry); all elements accounted for",
    "de": "stateless model checking: depth-first exploration of all choices of the random generator and the comparison closure driving the real optimiser with symbolic numbers; every execution monitored",
}
BINS = {"poly": "P01 P02 P03", "cplx": "C01 C02", "cflt": "C03 C04 C05", "ring": "R01 R02 I01", "stat": "S01 S02 S03", "dynl": "D02 D03 D04 D05", "expr": "D01 D06", "funs": "F01 F02 O05", "de": "O01 O02 O03 O04", "safe": "M01"}
BIN = {p: b for b, ps in BINS.items() for p in ps.split()}
NOTE = {
    "poly": "Every execution within the bounds stated in the evidence (numbers of coefficients, rings, history depth) agrees with the model, in builds with and without overflow checks. Generic code: results over finite and free rings carry over to other rings as far as the code is parametric. Trusts rustc and the reference model.",
    "cplx": "Complete for the finite rings and fields named in the evidence; free (symbolic, non-commutative) elements cover other rings as far as the code is parametric. Trusts rustc and the reference model.",
    "cflt": "Every grid point named in the evidence is within the tolerance. Values off the grid are not covered. Trusts the multi-precision reference (self-tested against committed values) and the platform's libm.",
    "ring": "Complete for the finite rings and the nestings named in the evidence; larger rings are covered as far as the code is parametric.",
    "stat": "Complete for the shapes and contents named in the evidence (sizes up to 4 or more, including zero), with and without overflow checks. Trusts rustc and the reference model.",
    "dynl": "Complete for the shapes, contents and history depths named in the evidence, with and without overflow checks. Trusts rustc and the reference model.",
    "expr": "Complete for all expression trees up to the depth and the shapes named in the evidence, with and without overflow checks. Trusts rustc and the eager reference.",
    "funs": "Quick: dense grid of bit patterns; thorough: every f32 value, a grid over all f64 exponents. Trusts the host's f64 functions as reference for f32 and a self-tested double-double reference for f64.",
    "safe": "Complete for one panic (two for in-place operations) at every call into user code, for the operations and sizes named in the evidence. Trusts rustc and the registering element type.",
    "de": "Complete up to the budget of branching random draws per trial and the population sizes and iterations named in the evidence; draws take values from menus that select every outcome of rand's mapping. Trusts rand 0.8 and the monitors.",
}
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "./run.py --setup",
    "checks": [
        {"property": p["id"], "quick_cmd": f"./run.py {p['id']} quick", "thorough_cmd": f"./run.py {p['id']} thorough", "technique": TECH[BIN[p["id"]]], "level": "model_checking", "level_note": NOTE[BIN[p["id"]]]}
        for p in props if p["id"] in BIN
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks use the public interface only. known_findings.jsonl lists findings (status known) and repairs (status fixed). run.py --replay FILE repeats a reported case.",
}
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
