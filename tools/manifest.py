#!/usr/bin/env python3
"""writes config.json and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "govc: the obligation generator in govc/ (symbolic execution of go/ssa, Houdini loop invariants) and golang.org/x/tools go/ssa",
    "z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
    "the prelude axioms about sequences, UTF-8 coding and maps (govc prelude)",
    "the definitional axioms in specs/ (acc, need and the like)",
]
ASSUME = [
    "int and rune arithmetic is treated as mathematical; uint8..uint64 and int64 wrap exactly; floats are uninterpreted",
    "slices are values: aliasing of a backing array is modelled only for slices a function owns",
    "callbacks given by the user do not modify the tree they are called from",
    "logging and mutex calls have no effect; no concurrent access during a call",
    "sync.Pool.Get returns an object nobody else uses",
    "partial correctness: termination is not proved, except that recursion and loops are bounded in the bounded check",
    "generic code is verified once for T with T's values opaque (instance any for the interfaces)",
]

P = {}
def prop(id, proved, bounded, level="proof", proof=True, note="", assumptions=()):
    P[id] = dict(proved=proved, bounded=bounded, level=level, proof=proof, note=note, assumptions=list(assumptions))

exec(open(V + "/tools/claims.py").read())

cfg = {"trusted_base": TRUSTED, "assumptions": ASSUME,
       "properties": {k: {a: b for a, b in v.items() if a != "note"} for k, v in P.items()}}
json.dump(cfg, open(V + "/config.json", "w"), indent=1)
open(V + "/config.json", "a").write("\n")
checks = []
for k, v in sorted(P.items()):
    checks.append({
        "property": k, "quick_cmd": "./check %s quick" % k, "thorough_cmd": "./check %s thorough" % k,
        "technique": "contract-based deductive verification of the Go source (govc: VCs from go/ssa, z3/cvc5)" + (
            "; bounded executable contract for the rest and for replay" if v["proof"] else " not yet; bounded executable contract"),
        "level": v["level"],
        "level_note": ("Proved: " + v["proved"] + " " if v["proof"] else "") + "Bounded only: " + v["bounded"] + (" " + v["note"] if v["note"] else ""),
        "evidence_file": "evidence/%s.json" % k,
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA,
           "notes": "Contracts in specs/, verifier in govc/, executable contracts in harness/, driver ./check. No hooks in /repo; fix: commits are listed in known-findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
