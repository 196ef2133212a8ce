#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--first]  (--first: stop after the first harness that shows a violation)

Builds the harness against /repo's current tree, runs the symbolic executor on the LLVM IR of harness + rsasl,
replays what it finds (and a sample of its paths) on the native build, writes evidence/PROPERTY.json.
Exit 0: held on everything explored; 1 and a VIOLATION line: broken; 3: no verdict."""
import sys, os, json, subprocess, time, re, shutil, fcntl
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, COMMON, ASSUME
WORK = os.path.join(ROOT, "work")
T = os.path.join(WORK, "t")
ENGINE = os.path.join(WORK, "engine", "release", "irsym")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = os.cpu_count() or 8

def die(msg):
    print("NO VERDICT:", msg); sys.exit(3)

def build():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, "engine"), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.82.0")
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(ROOT, "engine"), env=e, capture_output=True, text=True)
        if r.returncode: die("the engine does not build\n" + r.stderr[-3000:])
        r = subprocess.run([os.path.join(ROOT, "harness", "build.sh"), T], capture_output=True, text=True)
        if r.returncode: die("the harness does not build against /repo\n" + r.stderr[-4000:])
        ll = [f for f in os.listdir(os.path.join(T, "release", "deps")) if re.match(r"vh-[0-9a-f]+\.ll$", f)]
        if len(ll) != 1: die("expected one IR file, found %s" % ll)
        run = os.path.join(WORK, "run.%d" % os.getpid())
        os.makedirs(run, exist_ok=True)
        shutil.copy(os.path.join(T, "release", "deps", ll[0]), os.path.join(run, "vh.ll"))
        shutil.copy(os.path.join(T, "release", "vh"), os.path.join(run, "vh"))
        return run

def texts():
    """check id -> (text, place, properties) from the comments in the harness sources; properties in brackets at the end are broken, too, if the check fails"""
    out = {}
    d = os.path.join(ROOT, "harness", "src")
    for f in sorted(os.listdir(d)):
        for n, l in enumerate(open(os.path.join(d, f)), 1):
            for m in re.finditer(r"\bcheck\((\d+),", l):
                c = l.split("//", 1)[1].strip() if "//" in l else l.strip()
                also = re.search(r"\[((C\d\d ?)+)\]$", c)
                i = int(m.group(1))
                old = out.get(i, ("", "", {i // 100}))
                ps = old[2] | ({int(x[1:]) for x in also.group(1).split()} if also else set())
                out[i] = (c[:also.start()].strip() if also else c, "%s:%d" % (f, n), ps)
    return out

def native(run, h, params, lines, timeout, pre=()):
    """replay inputs; returns (list of (status, trace, failed) or None, returncode, stderr)"""
    try:
        r = subprocess.run([*pre, os.path.join(run, "vh"), h, params], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, "timeout", ""
    return [tuple(l.split("\t")) for l in r.stdout.splitlines()], r.returncode, r.stderr

def confirm(run, h, params, v):
    """does the violation happen on the native build? -> text or None"""
    res, rc, err = native(run, h, params, [v["input"]], 20)
    if rc == "timeout": return "does not terminate (20 s)"
    if v["kind"] == "check" and res and v["msg"] in res[0][2].split(","): return "check %s fails" % v["msg"]
    if rc not in (0, 1, 77): return "ends with %s: %s" % ("signal %d" % -rc if rc < 0 else "status %d" % rc, " ".join(err.split())[:300])
    if v["kind"] in ("memory", "ub") and shutil.which("valgrind"):
        res, rc, err = native(run, h, params, [v["input"]], 120, ("valgrind", "-q", "--error-exitcode=99"))
        if rc == 99: return "valgrind: " + " ".join(err.split())[:300]
    return None

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--only") + 1] if "--only" in a else None
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    tx = texts()
    run = build()
    build_s = time.time() - t0
    os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
    num = int(prop[1:])
    own = ",".join(map(str, sorted({i for i, x in tx.items() if num in x[2]} | set(range(100 * num, 100 * num + 100)))))
    tot = {}
    rows, viols, finds, samples, funcs, notes, validated, mism = [], [], [], [], {}, [], 0, []
    try:
        for h in PLAN[prop]:
            if only and h["fn"] != only: continue
            if "--first" in a and viols: break
            q = h[tier]
            params = q["p"]
            if params is None: continue
            t = q["t"] if tier == "thorough" else max(5, min(q["t"], int(780 - (time.time() - t0))))
            out = os.path.join(run, "out.json")
            cmd = [ENGINE, "--ll", os.path.join(run, "vh.ll"), "--harness", h["fn"], "--param", params or "0", "--checks", own, "--out", out, "--jobs", str(JOBS),
                   "--time", str(t), "--seed", str(SEED), "--samples", "40"]
            try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=t + 120)
            except subprocess.TimeoutExpired: notes.append("%s(%s): engine timed out" % (h["fn"], params)); continue
            if r.returncode: notes.append("%s(%s): engine failed: %s" % (h["fn"], params, r.stderr[-500:])); continue
            d = json.load(open(out))
            for k, v in d.items():
                if isinstance(v, int) and not isinstance(v, bool): tot[k] = max(tot.get(k, 0), v) if k.startswith("max_") else tot.get(k, 0) + v
            for f in d["functions"]:
                k = (f["file"], f["fn"])
                funcs[k] = max(funcs.get(k, 0), f["lines"])
            want = h.get("covers", [])
            miss = [c for c in want if str(c) not in d["covers"]]
            row = {"harness": h["fn"], "bounds": h["bounds"].format(*[x for x in params.split(",")]), "params": params, "complete": d["complete"], "paths": d["paths"],
                   "assertions": d["checks"], "z3_queries": d["z3_queries"], "z3_s": round(d["z3_us"] / 1e6, 2), "wall_s": d["wall_s"], "cases_reached": d["covers"]}
            if d["left"]: row["unexplored_states"] = d["left"]
            if d["internal"]: row["not_encoded"] = d["internal"][:10]
            if miss: row["cases_not_reached"] = miss
            if not d["checks"] and num > 2: notes.append("%s(%s): no assertion of %s was evaluated" % (h["fn"], params, prop))
            rows.append(row)
            if not d["complete"]: notes.append("%s(%s): exploration incomplete (%d states left, %s)" % (h["fn"], params, d["left"], "; ".join(x["msg"][:160] for x in d["internal"][:3])))
            # a sample of the explored paths on the native build
            lines = [s[0] for s in d["samples"]]
            if lines:
                res, rc, err = native(run, h["fn"], params, lines, 120)
                for (inp, tr), o in zip(d["samples"], res or []):
                    if len(o) >= 2 and o[1] == tr: validated += 1
                    else: mism.append({"harness": h["fn"], "params": params, "input": inp, "engine": tr, "native": o})
                if res is None or len(res) < len(lines): mism.append({"harness": h["fn"], "params": params, "native": "stopped after %s of %d: %s %s" % (len(res or []), len(lines), rc, err[-300:])})
                for inp, tr in d["samples"][-3:]: samples.append({"harness": h["fn"], "params": params, "input_hex": inp, "observed": tr})
            done = set()
            for v in d["violations"]:
                cid = int(v["msg"]) if v["kind"] == "check" else None
                if cid is not None and cid >= 100 and num not in tx.get(cid, (0, 0, {cid // 100}))[2]: continue
                site = v["msg"] if cid is not None else v["kind"] + "|" + (v["stack"][0] if v["stack"] else "")
                if site in done: continue
                ok = confirm(run, h["fn"], params, v)
                if ok is None:
                    notes.append("%s(%s): %s %s input %s is not reproduced by the native build" % (h["fn"], params, v["kind"], v["msg"], v["input"]))
                    continue
                done.add(site)
                what = (tx.get(cid, ("", "", 0))[0] if cid is not None else "%s: %s" % (v["kind"], v["msg"]))
                rec = {"property": prop, "harness": h["fn"], "params": params, "input_hex": v["input"], "kind": v["kind"], "check": cid, "what": what, "at": v["stack"], "native": ok,
                       "reproduce": "echo %s | %s/work/t/release/vh %s %s" % (v["input"], ROOT, h["fn"], params)}
                k = next((k for k in known if matches(k, rec)), None)
                if k: finds.append((k, rec)); continue
                p = os.path.join(WORK, "replays", "%s-%s-%d.json" % (prop, h["fn"], len(viols)))
                json.dump(rec, open(p, "w"), indent=1)
                viols.append((p, rec))
    finally:
        shutil.rmtree(run, ignore_errors=True)
    if mism: notes.append("engine and native build disagree: " + json.dumps(mism[:3]))
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
          "coverage": {"states": tot.get("forks", 0) + tot.get("paths", 0), "transitions": tot.get("instrs", 0), "traces_validated_against_impl": validated, "samples": samples[:40],
                       "paths": tot.get("paths", 0), "paths_cut_by_assumptions": tot.get("assumed", 0), "branch_decisions": tot.get("decisions", 0), "decided_without_z3": tot.get("dom_sat", 0) + tot.get("dom_unsat", 0),
                       "assertions_evaluated": tot.get("checks", 0), "assertions_symbolic": tot.get("checks_sym", 0), "assertions_proved_by_solver": tot.get("checks_proved", 0),
                       "z3_queries": tot.get("z3_queries", 0), "z3_sat": tot.get("z3_sat", 0), "z3_unsat": tot.get("z3_unsat", 0), "solver_s": round(tot.get("z3_us", 0) / 1e6, 2),
                       "harnesses": rows, "functions_encoded": [{"file": f, "fn": n, "lines": l} for (f, n), l in sorted(funcs.items())],
                       "complete_within_bounds": bool(rows) and all(r["complete"] for r in rows), "notes": notes, "build_s": round(build_s, 1),
                       "known_findings": [k["id"] for k, _ in finds]},
          "assumptions": COMMON + ASSUME.get(prop, []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for n in notes: print("note:", n[:600])
    for r in rows: print("%s %-26s %-60s paths %d, assertions %d, z3 %d (%.1f s), %.1f s%s" % (prop, r["harness"], r["bounds"][:60], r["paths"], r["assertions"], r["z3_queries"], r["z3_s"], r["wall_s"], "" if r["complete"] else ", INCOMPLETE"))
    seen = set()
    for k, rec in finds:
        if k["id"] not in seen: seen.add(k["id"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for p, rec in viols:
        print("%s: %s [%s, input %s, %s]" % (prop, rec["what"], rec["native"], rec["input_hex"], rec["at"][0] if rec["at"] else ""))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if viols: sys.exit(1)
    if mism: die("engine and native build disagree")
    if not rows or not any(r["paths"] for r in rows): die("nothing explored")
    sys.exit(0)

def matches(k, rec):
    if k["property"] != rec["property"] or k["harness"] != rec["harness"]: return False
    if k.get("check") is not None: 
        if k["check"] != rec["check"]: return False
    elif rec["kind"] == "check": return False
    if k.get("kind") and k["kind"] != rec["kind"]: return False
    if k.get("at") and not any(k["at"] in s for s in rec["at"][:6]): return False
    return True
main()
