#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property on /repo's current working tree by symbolic execution of
the compiled (LLVM IR) rowan sources: rebuilds everything, runs the property's
harness entries through engine/ (rsx), replays every counterexample natively
and writes evidence/<id>.json.

exit 0  every path within the bounds explored, every assertion discharged
exit 1  a counterexample that also fails natively (VIOLATION line)
exit 2  no answer (build failure, unsupported code, limits, engine/native
        disagreement, vacuous harness)
"""
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
sys.path.insert(0, HERE)
from checks import CHECKS, ASSUMPTIONS  # noqa: E402


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def build(*targets):
    r = subprocess.run([os.path.join(HERE, "build.sh"), OUT, *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_all(*more):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = {t: ex.submit(build, t) for t in ("engine", "ir", "native-dev") + more}
        for t, f in fs.items():
            rc, out = f.result()
            if rc != 0:
                die("building %s failed:\n%s" % (t, out[-4000:]))


def native(profile, entry, path, timeout=60):
    exe = os.path.join(OUT, "native", profile, "replay")
    try:
        r = subprocess.run([exe, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout, None
    out = r.stdout.decode("utf-8", "replace")
    if r.returncode == 42:
        m = re.search(r"REPLAY-VIOLATION (.*)", out)
        return "violation", m.group(1) if m else "?", None
    if r.returncode == 43:
        return "invalid", out.strip(), None
    if r.returncode < 0:
        return "crash", "signal %d" % -r.returncode, None
    if r.returncode == 0 and "REPLAY-OK" in out:
        m = re.search(r"^TRACE(.*)$", out, re.M)
        return "ok", "", [int(x) for x in m.group(1).split()]
    return "error", "rc %d: %s %s" % (r.returncode, out[-300:], r.stderr.decode("utf-8", "replace")[-300:]), None


def miri(entry, path):
    """The real code on one input with many thread schedules, in the Miri
    interpreter (which also reports data races weak orderings allow)."""
    flags = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
    for seeds, rate in (("0..48", "0.3"), ("48..160", "0.1")):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(OUT, "miri"),
                   MIRIFLAGS="%s -Zmiri-many-seeds=%s -Zmiri-preemption-rate=%s" % (flags, seeds, rate))
        env.pop("RUSTFLAGS", None)
        try:
            r = subprocess.run(["cargo", "+nightly", "miri", "run", "--manifest-path", os.path.join(HERE, "harness/Cargo.toml"),
                                "--offline", "-q", "--features", "native", "--bin", "replay", "--", entry, path],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200, env=env)
        except subprocess.TimeoutExpired:
            return "error", "Miri took too long"
        m = re.search(r"REPLAY-VIOLATION (.*)", r.stdout) or re.search(r"(Undefined Behavior: .*)", r.stdout) or re.search(r"(the evaluated program (?:deadlocked|aborted).*|abnormal termination.*)", r.stdout)
        if r.returncode != 0 and m:
            return "violation", m.group(1)[:300]
        if r.returncode != 0:
            return "error", "Miri: " + r.stdout[-400:]
    return "ok", ""


def write_inputs(path, entry, params, inputs, note, schedule=()):
    with open(path, "w") as f:
        for x in schedule:
            f.write("# %s\n" % x)
        f.write("# %s\n" % note.replace("=", ":").replace("\n", " "))
        f.write("# run with /verif/replay.sh %s\n" % path)
        f.write("entry:%s\n" % entry)
        for k, v in params.items():
            f.write("param:%s=%d\n" % (k, v))
        for k, v in inputs:
            f.write("%s=%d\n" % (k, v))


def load_findings(prop):
    """finding: property=ID entry=E msg=<text> where a#0=1,b#1=2 :: description"""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return res
    for line in open(p):
        m = re.match(r"finding: property=(\S+) entry=(\S+) msg=\"(.*?)\" where (\S*) :: (.*)", line.strip())
        if m and m.group(1) == prop:
            w = [x.split("=") for x in m.group(4).split(",") if x]
            res.append({"entry": m.group(2), "msg": m.group(3), "where": {k: int(v) for k, v in w}, "text": m.group(5)})
    return res


def known(findings, entry, v):
    ins = dict((k, x) for k, x in v["inputs"])
    for f in findings:
        if f["entry"] == entry and f["msg"] == v["msg"] and all(ins.get(k) == x for k, x in f["where"].items()):
            return f
    return None


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=20)
        out = r.stdout.split("\n")
        if r.returncode == 0 and len(out) >= len(names):
            return out[: len(names)]
    except Exception:
        pass
    return names


def reduced(params, level):
    """Smaller bounds for code that is too slow to explore within the planned
    ones (concrete token lengths, fewer elements and steps)."""
    p = dict(params)
    cap = {1: {"n": 4, "n2": 2, "m": 3, "steps": 2, "ktab": 3, "ttab": 3, "more": 3, "len": 20},
           2: {"n": 2, "n2": 2, "m": 2, "steps": 1, "ktab": 2, "ttab": 2, "more": 2, "len": 10}}[level]
    if "threads" in p:
        cap = {1: {"ops": 6, "m": 1, "shapes": 2}, 2: {"threads": 2, "ops": 6, "m": 1, "shapes": 2}}[level]
    for k, c in cap.items():
        if k in p:
            p[k] = min(p[k], c)
    for k, c in {"pads": 1, "tail": 2, "nest": 5, "base": 6}.items():
        if k in p:
            p[k] = min(p[k], c) if level == 1 else 0
    if "around" in params:
        for k in ("m", "d"):
            if k in p:
                p[k] = min(params[k], {1: 270, 2: 30}[level])
        p["around"] = params["around"] and {1: 256, 2: 17}[level]
        return p
    if "sizes" in p:
        p["sizes"] = min(p["sizes"], {1: 6, 2: 3}[level])
        return p
    if level == 1 and "n" in p and p["n"] > 2 and p["n"] == params["n"]:
        p["n"] -= 1
    p["conc"] = 1
    return p


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if prop not in CHECKS:
        die("unknown property " + prop)
    spec = CHECKS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    build_all(*(["ir-release"] if any(p.get("rel") for r in spec["runs"] for p in r[tier]) else []))
    t_build = time.time() - t0
    findings = load_findings(prop)
    known_seen = {}
    problems = []
    violation = None
    tot = {}
    runs = []
    funcs = {}
    samples_out = []
    validated = 0
    budget = 780 if tier == "quick" else 3300
    slow = False
    covered = {}
    for run in spec["runs"]:
        entry = run["entry"]
        todo = [(p, p, 0) for p in run[tier]]
        while todo:
            asked, params, level = todo.pop(0)
            left = budget - (time.time() - t0)
            if left < 5:
                problems.append("%s: time budget exhausted before it started" % entry)
                continue
            # code may turn out much slower than planned for: smaller bounds then
            tlim = left if level == 2 else min(left, (60 if slow else 240) if tier == "quick" else (300 if slow else 1500))
            if params.get("big"):
                tlim = min(tlim, 60 if tier == "quick" else 300)
            of = os.path.join(OUT, "out.json")
            cmd = [os.path.join(OUT, "engine/release/rsx"), os.path.join(OUT, "hx_rel.ll" if params.get("rel") else "hx.ll"), "--entry", entry,
                   "--time-limit", "%.0f" % tlim, "--out", of, "--jobs", str(os.cpu_count() or 8),
                   "--step-limit", str(run.get("steps", 20000000))]
            for k, v in params.items():
                cmd += ["--param", "%s=%d" % (k, v)]
            if os.path.exists(of):
                os.remove(of)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 or not os.path.exists(of):
                problems.append("%s: executor failed (%d): %s" % (entry, r.returncode, r.stdout[-600:]))
                continue
            o = json.load(open(of))
            for k in ("paths", "forks", "insts", "asserts", "symbolic_asserts", "branch_decisions", "queries", "z3_calls",
                      "cache_hits", "model_reuse", "sat", "unsat", "solver_us"):
                tot[k] = tot.get(k, 0) + o.get(k, 0)
            runs.append({"entry": entry, "bounds": params, "planned_bounds": asked, "what": run.get("what", ""),
                         "paths": o["paths"], "instructions": o["insts"], "assertions": o["asserts"],
                         "symbolic_assertions": o["symbolic_asserts"], "queries": o["queries"],
                         "z3_calls": o["z3_calls"], "solver_s": o["solver_us"] / 1e6,
                         "max_steps_on_a_path": o["max_steps"], "complete": o["complete"], "wall_s": o["wall_s"]})
            # `big` claims texts longer than what is allocated: an implementation
            # that reads the bytes cannot be run that way
            if params.get("big") and (not o["complete"] or any(v["kind"] not in ("assert", "panic", "arith") for v in o["violations"])):
                o["complete"] = False
                runs[-1]["complete"] = False
                if not any(v["kind"] in ("assert", "panic", "arith") for v in o["violations"]):
                    small = {k: v for k, v in params.items() if k != "big"}
                    todo.insert(0, (asked, small, 0))
                    covered[id(run)] = -1
                    continue
                o["violations"] = [v for v in o["violations"] if v["kind"] in ("assert", "panic", "arith")]
            for n, h, t in o["functions"]:
                a = funcs.get(n, (0, t))
                funcs[n] = (max(a[0], h), t)
            # counterexamples: replay each natively
            new = []
            for v in o["violations"]:
                f = known(findings, entry, v)
                if f:
                    known_seen[f["text"]] = known_seen.get(f["text"], 0) + 1
                else:
                    new.append(v)
            unconfirmed = []
            for i, v in enumerate(new):
                path = os.path.join(REPLAYS, "%s-%s-%d.txt" % (prop, entry, i))
                write_inputs(path, entry, params, v["inputs"], "%s: %s at %s" % (v["kind"], v["msg"], " < ".join(v["stack"][:4])),
                             [x for x in v["stack"] if x.startswith("[")])
                if run.get("threads"):
                    if i >= 4:
                        continue
                    res, text = miri(entry, path)
                    prof = "Miri"
                else:
                    res, text, _ = native("debug", entry, path)
                    prof = "debug"
                if res == "ok" and not run.get("threads"):
                    if not os.path.exists(os.path.join(OUT, "native/release/replay")) or not run.get("_rel"):
                        rc, out = build("native-release")
                        run["_rel"] = True
                    res, text, _ = native("release", entry, path)
                    prof = "release"
                if res in ("violation", "crash", "hang"):
                    violation = (path, v, res, text, prof)
                    break
                unconfirmed.append("%s: counterexample not reproduced natively (%s %s): %s %s" % (entry, res, text, v["kind"], v["msg"]))
            if violation:
                break
            if new and level < 2 and all(v["kind"] in ("steps", "stack") for v in new):
                # terminates natively: just slow or deep
                slow = True
                runs[-1]["complete"] = False
                todo.insert(0, (asked, reduced(asked, level + 1), level + 1))
                continue
            problems += unconfirmed
            if o["unsupported"]:
                problems.append("%s: unsupported: %s" % (entry, " | ".join(o["unsupported"][:3])[:1500]))
            if not o["complete"] and not new and not o["unsupported"] and level < 2:
                slow = True
                todo.insert(0, (asked, reduced(asked, level + 1), level + 1))
                continue
            if not o["complete"] and not new:
                problems.append("%s %s: not finished (%d states left)" % (entry, params, o.get("remaining", 0)))
            # reachability witnesses
            covered[id(run)] = covered.get(id(run), 0) | o["covers"]
            if level or new or not o["complete"]:
                covered[id(run)] |= -1
            if o["complete"] and o["paths"] == 0:
                problems.append("%s: vacuous: no path" % entry)
            # differential validation of the executor against the native code
            for i, s in enumerate(o["samples"][: 0 if params.get("rel") else 12]):
                path = os.path.join(OUT, "sample.txt")
                write_inputs(path, entry, params, s["inputs"], "sample")
                res, text, tr = native("debug", entry, path)
                if res != "ok" or tr != s["trace"]:
                    problems.append("%s: executor and native run disagree (%s %s) native %s engine %s on %s" % (entry, res, text, str(tr)[:200], str(s["trace"])[:200], s["inputs"][:20]))
                    break
                validated += 1
                if i == 0:
                    samples_out.append({"entry": entry, "inputs": dict((k, v) for k, v in s["inputs"][:60]), "trace": s["trace"][:40]})
        if violation:
            break
        want = (1 << run.get("covers", 0)) - 1
        got = covered.get(id(run), 0)
        if got & want != want:
            problems.append("%s: vacuous: cover points %s not reached" % (entry, [k for k in range(64) if want >> k & 1 and not got >> k & 1]))
    names = sorted(funcs)
    dn = demangle(names)
    rowan = []
    other = 0
    for n, d in zip(names, dn):
        if re.search(r"\browan\b|5rowan", d):
            rowan.append("%s (%d/%d blocks)" % (re.sub(r"::h[0-9a-f]{16}$", "", d)[:180], funcs[n][0], funcs[n][1]))
        else:
            other += 1
    bounds = spec.get("bounds", "")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0) + tot.get("forks", 0),
            "transitions": tot.get("insts", 0),
            "traces_validated_against_impl": validated,
            "samples": samples_out[:6],
            "exhaustive": not problems and not violation,
            "paths": tot.get("paths", 0),
            "assertions_checked": tot.get("asserts", 0),
            "assertions_over_symbolic_values": tot.get("symbolic_asserts", 0),
            "branch_decisions": tot.get("branch_decisions", 0),
            "queries": tot.get("queries", 0),
            "queries_sat": tot.get("sat", 0),
            "queries_unsat": tot.get("unsat", 0),
            "queries_answered_by_z3": tot.get("z3_calls", 0),
            "queries_answered_from_cache_or_model": tot.get("cache_hits", 0) + tot.get("model_reuse", 0),
            "solver_s": tot.get("solver_us", 0) / 1e6,
            "build_s": t_build,
            "bounds": bounds,
            "runs_with_reduced_bounds": [x["entry"] for x in runs if x["bounds"] != x["planned_bounds"] and x["complete"]],
            "runs_abandoned_for_smaller_bounds": [x["entry"] for x in runs if not x["complete"]],
            "outside_bounds": spec.get("outside", ""),
            "runs": runs,
            "functions_encoded": rowan,
            "other_functions_encoded": other,
            "explanation": "states: symbolic states explored (finished paths plus forks); transitions: LLVM IR instructions executed symbolically; every feasible path within the bounds is followed and every assertion on it is decided by Z3 for all values of the symbolic inputs. rowan functions inlined by the compiler into a listed function or into the harness are encoded with it.",
            "problems": problems,
        },
        "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": time.time() - t0,
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d instructions, %d assertions (%d symbolic), %d queries, solver %.2f s, %d traces validated, %.1f s" % (
        prop, tier, tot.get("paths", 0), tot.get("insts", 0), tot.get("asserts", 0), tot.get("symbolic_asserts", 0),
        tot.get("queries", 0), tot.get("solver_us", 0) / 1e6, validated, time.time() - t0))
    for r in runs:
        print("  %-28s %s paths=%d queries=%d %.1fs%s" % (r["entry"], r["bounds"], r["paths"], r["queries"], r["wall_s"], "" if r["complete"] else " INCOMPLETE (over its time)"))
    for text in known_seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if violation:
        path, v, res, text, prof = violation
        print("counterexample: %s: %s" % (v["kind"], v["msg"]))
        print("  natively (%s build): %s %s" % (prof, res, text))
        for k, x in v["inputs"]:
            print("    %s = %d" % (k, x))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        sys.exit(1)
    if problems:
        for p in problems:
            print("ERROR: " + p)
        sys.stdout.flush()
        sys.exit(2)
    print("OK")


main()
