#!/usr/bin/env python3
"""Decide one property of /repo by bounded symbolic execution of its compiled code.

usage: check.py PROPERTY        (VERIF_TIER=quick|thorough)

Builds the engine, compiles /repo's current source with the harnesses to LLVM IR,
runs every harness of the property through the engine (symbolic execution, SMT) and
writes evidence/PROPERTY.json.  Exit 0: every assertion discharged on every path.
Exit 1: an assertion fails on inputs that also fail natively.  Exit 2: no verdict.
"""
import json, os, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import harness_table

BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
CORES = 8


def fail(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def merge(reports):
    """Add up the report of an engine process and those of its workers."""
    out = reports[0]
    for r in reports[1:]:
        for k, v in r.items():
            if k in ("harness", "children", "cut_short", "load_s", "functions_executed", "wall_s"):
                continue
            if k == "solver_max_s":
                out[k] = max(out[k], v)
            elif isinstance(v, dict):
                for a, b in v.items():
                    out[k][a] = out[k].get(a, 0) + b
            elif k == "covers":
                out[k] = sorted(set(out[k]) | set(v))
            elif isinstance(v, list):
                out[k] = out[k] + v
            elif isinstance(v, (int, float)):
                out[k] += v
        out["functions_executed"] = max(out["functions_executed"], r["functions_executed"])
    return out


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in harness_table.PROPS:
        fail("usage: check.py PROPERTY; known: " + " ".join(sorted(harness_table.PROPS)))
    prop = sys.argv[1]
    spec = harness_table.PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = 820 if tier == "quick" else 3600
    os.makedirs(EVID, exist_ok=True)
    evfile = os.path.join(EVID, prop + ".json")
    if os.path.exists(evfile):
        os.remove(evfile)
    out_dir = os.path.join(BUILD, "out-" + prop)
    shutil.rmtree(out_dir, ignore_errors=True)
    os.makedirs(out_dir)

    b = subprocess.run(["bash", os.path.join(HERE, "tools", "build_ir.sh"), BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if b.returncode != 0:
        fail("build failed\n" + b.stdout[-4000:])
    build_s = time.time() - t0
    native = os.path.join(BUILD, "native/debug/vharness")
    engine = os.path.join(BUILD, "engine/release/qsym")
    listed = subprocess.run([native], stdout=subprocess.PIPE, universal_newlines=True).stdout.split()
    todo = [h for h in spec["harnesses"] if tier == "thorough" or h.get("tier", "quick") == "quick"]
    for h in todo:
        if h["name"] not in listed:
            fail("no harness " + h["name"])
    known = [k for k in map(json.loads, open(os.path.join(HERE, "known_findings.jsonl"))) if k["property"] == prop and k["status"] == "known"]

    # run, longest first, within the cores there are
    todo.sort(key=lambda h: (-h.get("jobs", 1), -h.get("cost", 1)))
    pending, running, results, stop = list(todo), [], {}, False
    env = dict(os.environ)
    env.pop("RUST_BACKTRACE", None)
    while pending or running:
        used = sum(r[1].get("jobs", 1) for r in running)
        for h in list(pending):
            j = h.get("jobs", 1)
            if not stop and (used + j <= CORES or not running):
                out = os.path.join(out_dir, h["name"] + ".json")
                left = int(budget - (time.time() - t0))
                if left < 20:
                    results[h["name"]] = {"errors": ["no time left to start"]}
                    pending.remove(h)
                    continue
                cmd = [engine, "--ir", os.path.join(BUILD, "m.ll"), "--harness", h["name"], "--native", native, "--out", out, "--outdir", out_dir,
                       "--time", str(left), "--jobs", str(j), "--validate", str(h.get("validate", 4 if tier == "quick" else 16)),
                       "--long-ms", str(h.get("long_ms", 60000 if tier == "quick" else 300000))]
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), env=env, start_new_session=True)
                running.append((p, h, out))
                pending.remove(h)
                used += j
        if stop:
            for p, _, _ in running:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            break
        time.sleep(0.05)
        for r in list(running):
            p, h, out = r
            if p.poll() is None:
                if time.time() - t0 > budget + 40:
                    os.killpg(p.pid, 9)
                    p.wait()
                    results[h["name"]] = {"errors": ["engine killed at the time limit"]}
                    running.remove(r)
                continue
            running.remove(r)
            if p.returncode != 0 or not os.path.exists(out):
                results[h["name"]] = {"errors": ["engine failed (%d): %s" % (p.returncode, open(out + ".err").read()[-600:])]}
                continue
            parts = [json.load(open(out))]
            for k in range(parts[0]["children"]):
                f = "%s.%d" % (out, k)
                if os.path.exists(f):
                    parts.append(json.load(open(f)))
                elif not parts[0]["cut_short"]:
                    parts[0]["errors"].append("worker %d left no report" % k)
            d = merge(parts)
            results[h["name"]] = d
            for v in d["violations"]:
                v["known"] = None
                for k in known:
                    if k["harness"] == h["name"] and k["check"] == v["msg"]:
                        v["known"] = k["text"]
                if v["confirmed"] and not v["known"]:
                    stop = True

    # verdict
    bad, problems, knowns = [], [], set()
    for h in todo:
        d = results.get(h["name"])
        if d is None:
            if not stop:
                problems.append(h["name"] + ": not run")
            continue
        for e in d["errors"]:
            problems.append("%s: %s" % (h["name"], e))
        if "paths" not in d:
            continue
        for v in d["violations"]:
            if v["known"]:
                knowns.add(v["known"])
            elif v["confirmed"]:
                bad.append((h["name"], v))
            else:
                problems.append("%s: counterexample to '%s' does not fail natively: %s" % (h["name"], v["msg"], v["values"]))
        for e in d["inconclusive"]:
            problems.append("%s: undecided: %s" % (h["name"], e))
        for e in d["validate_failed"]:
            problems.append("%s: engine and native run differ: %s" % (h["name"], e))
        if not d["violations"] and not d["cut_short"]:
            for c in h.get("covers", [1]):
                if c not in d["covers"]:
                    problems.append("%s: point %d never reached" % (h["name"], c))
            if d["validated"] < h.get("min_validated", 1):
                problems.append("%s: no path was confirmed by a native run" % h["name"])
            if d["checks"] == 0:
                problems.append(h["name"] + ": no assertion reached")

    def total(k):
        return sum(d.get(k, 0) for d in results.values())

    fns = {}
    for d in results.values():
        for k, v in d.get("repo_functions", {}).items():
            fns[k] = fns.get(k, 0) + v
    release = None
    if bad:
        # replay the counterexample in the release profile as well
        r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "harness"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           env=dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=os.path.join(BUILD, "release"), CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg verif_draws"))
        if r.returncode == 0:
            q = subprocess.run(["timeout", "60", os.path.join(BUILD, "release/release/vharness"), "--replay", bad[0][1]["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            release = "fails as well" if q.returncode == 77 else "exit %d" % q.returncode
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total("paths") + total("infeasible") + total("forks"),
            "transitions": total("steps"),
            "traces_validated_against_impl": total("validated"),
            "samples": [s for d in results.values() for s in d.get("samples", [])[:2]][:24],
            "paths_completed": total("paths"),
            "assertions_on_paths": total("checks"),
            "assertions_decided_by_solver": total("checks_solver"),
            "assertions_decided_by_simplification": total("checks_trivial"),
            "assertions_within_tolerance_only": total("tol_checks"),
            "assertions_by_equal_normal_forms": total("norm_checks"),
            "solver_queries": total("queries"), "sat": total("sat"), "unsat": total("unsat"), "unknown": total("unknown"), "answered_from_cache": total("cached"),
            "solver_seconds": round(total("solver_s"), 2),
            "answered_by": {"z3 4.8.12 (incremental)": total("by_z3"), "cvc5": total("by_cvc5"), "other z3 runs": total("by_other")},
            "repo_functions_encoded": len(fns),
            "functions": sorted(fns),
            "harnesses": [dict({k: d[k] for k in ("paths", "infeasible", "checks", "queries", "validated", "covers", "check_ids", "wall_s", "solver_max_s") if k in d}, name=n, bounds=next(h["bounds"] for h in todo if h["name"] == n)) for n, d in sorted(results.items())],
            "undecided": problems, "build_seconds": round(build_s, 1),
        },
        "assumptions": harness_table.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        "violations": len(bad), "wall_s": round(time.time() - t0, 2),
    }
    if bad:
        evidence["coverage"]["counterexample"] = {"harness": bad[0][0], "assertion": bad[0][1]["msg"], "inputs": bad[0][1]["values"], "native": bad[0][1]["native"][-800:], "release_build": release}
    json.dump(evidence, open(evfile, "w"), indent=1)
    for k in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for p in problems:
        print("UNDECIDED: " + p)
    if bad:
        name, v = bad[0]
        replay = os.path.join(EVID, "%s-%s.replay" % (prop, name))
        shutil.copy(v["replay"], replay)
        print("%s: %s fails for %s (release build: %s)" % (name, v["msg"], v["values"], release))
        print("replay with: %s --replay %s" % (native, replay))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.stdout.flush()
        sys.exit(1)
    if problems:
        fail("no verdict for " + prop)
    print("%s held: %d paths, %d assertions, %d solver queries, %d paths confirmed natively, %.0f s" % (prop, total("paths"), total("checks"), total("queries"), total("validated"), time.time() - t0))


if __name__ == "__main__":
    main()
