#!/usr/bin/env python3
"""Write MANIFEST.json from the harness table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import harness_table as ht

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in ht.PROPS:
        note = ("Every path of the compiled code within the stated input bounds is explored and every assertion on it discharged by the solver; "
                "the verdict is bounded by: " + "; ".join(h["bounds"] for h in ht.PROPS[p]["harnesses"]) +
                ". Floats are modelled as exact reals; exp, ln, sqrt and erf by sound facts only. Trusts rustc, the IR interpreter (cross-checked by native runs of path models) and z3/cvc5.")
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "bounded symbolic execution of the compiled code (LLVM IR) with SMT solving (z3, cvc5); counterexamples replayed natively",
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": ht.NOT_APPLICABLE.get(p, "no check yet")})
m = {"version": 1, "setup_cmd": "bash tools/build_ir.sh /verif/.build", "checks": checks, "not_applicable": na,
     "notes": "Counterexample files under evidence/ replay with .build/native/debug/vharness --replay FILE. The hook in /repo lets the simulation take its Gaussian draws from the harness."}
m["hooks"] = {"guard": "verif_draws", "enable": "RUSTFLAGS=\"--cfg verif_draws\" (set by tools/build_ir.sh and check.py)", "source_commits": ["10bc5d0"]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
