#!/usr/bin/env python3-vt
"""check.py PROP [--tier quick|thorough]

1. proves the contracts of contracts/<prop>.py against /repo's current source (pyvc, z3; cvc5 as second back end)
2. evaluates the same contracts on the real code (harness/<prop>.py): failing inputs, bounded stand-ins
3. writes evidence/<PROP>.json, prints VIOLATION / KNOWN-FINDING lines
exit 0: held; 1: violation; 2: the check itself is broken
"""
import argparse, importlib, json, multiprocessing as mp, os, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

TRUSTED = ["CPython executing the (loop-instrumented) source of /repo", "pyvc symbolic semantics of numpy and python builtins",
           "z3 %s" % "4", "real arithmetic in place of IEEE double arithmetic"]


def run_unit(job):
    """in a worker process: verify unit number i of contracts.<mod> in the given mode"""
    mod, i, modular, tier, limit = job
    t = time.time()
    try:
        from pyvc import core
        core.STATS.__init__()
        core.SECOND["cvc5"] = tier == "thorough"
        m = importlib.import_module("contracts." + mod)
        u = m.units(modular)[i]
        if limit:
            u.time_limit = min(limit, u.time_limit) if tier == "quick" else limit
        u.verify()
        # vacuity: a canary contract that must be refuted on some path
        return dict(name=u.name, mode="modular" if modular else "inlined", ok=bool(u.ok), functions=u.functions,
                    top=getattr(u, "top", True), bounded=getattr(u, "bounded", None),
                    unsupported=u.unsupported, tb=getattr(u, "tb", None),
                    obligations=len(u.obligations), proved=sum(o.status == "proved" for o in u.obligations),
                    completed=u.completed, failed=[o.as_dict() for o in u.failed][:20],
                    invariants={str(k): list(map(str, v)) for k, v in u.inv_used.items()},
                    loops=sorted(map(str, u.loops_cut)), secs=time.time() - t,
                    queries=core.STATS.queries, solver_s=core.STATS.solver_s, paths=core.STATS.paths,
                    second=(core.STATS.second_backend, core.STATS.second_backend_agree))
    except BaseException as e:
        return dict(name="%s[%d]" % (mod, i), mode="modular" if modular else "inlined", ok=False, functions=[],
                    top=True, bounded=None, unsupported="verifier crashed: %s: %s" % (type(e).__name__, e),
                    tb=traceback.format_exc(), obligations=0, proved=0, completed=0, failed=[], invariants={},
                    loops=[], secs=time.time() - t, queries=0, solver_s=0., paths=0, second=(0, 0))


def names_of(mod, modular):
    m = importlib.import_module("contracts." + mod)
    return [(i, u.name, getattr(u, "top", True)) for i, u in enumerate(m.units(modular))]


def prove(mod, tier, procs):
    """returns (results used for the verdict, all results)"""
    limit = 200 if tier == "quick" else 1200
    units = names_of(mod, True)
    with mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        first = pool.map(run_unit, [(mod, i, True, tier, limit) for i, _, _ in units], chunksize=1)
    if all(r["ok"] for r in first) or getattr(importlib.import_module("contracts." + mod), "INLINED", False):
        return first, first
    # an internal contract no longer fits: prove the postconditions of the property with the callees inlined
    units = [x for x in names_of(mod, False) if x[2]]
    with mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        second = pool.map(run_unit, [(mod, i, False, tier, limit) for i, _, _ in units], chunksize=1)
    return second, first + second


def harness_start(prop, seed, tier, budget, only=None):
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    cmd = [PY, os.path.join(ROOT, "harness", "run.py"), prop, "--seed", str(seed), "--tier", tier, "--budget",
           str(budget), "--out", out]
    if only:
        cmd += ["--only", only]
    env = dict(os.environ)
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=ROOT)
    return p, out, " ".join(cmd[:-2] if not only else cmd[:-4])


def harness_end(x, timeout):
    p, out, cmd = x
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        err = b"timeout"
    try:
        with open(out) as f:
            r = json.load(f)
    except Exception:
        r = dict(ok=False, crash=("no result (exit %s) " % p.returncode) + err.decode()[-3000:], timeout=err == b"timeout")
    finally:
        if os.path.exists(out):
            os.unlink(out)
    r["cmd"] = cmd
    return r


def load_findings(prop):
    known = []
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known: property=%s " % prop):
                known.append(line.split(" ", 2)[2].strip())
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    prop, mod = a.prop, a.prop.lower()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    procs = min(8, os.cpu_count() or 4)
    t0 = time.time()
    m = importlib.import_module("contracts." + mod)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay = os.path.join(ROOT, "evidence", prop + ".replay.json")
    if os.path.exists(replay):
        os.unlink(replay)
    budget = getattr(m, "BUDGET", 60) * (1 if a.tier == "quick" else 8)
    has_h = os.path.exists(os.path.join(ROOT, "harness", mod + ".py")) and not a.no_harness
    hx = harness_start(prop, seed, a.tier, budget) if has_h else None
    used, everything = ([], []) if a.no_proof else prove(mod, a.tier, procs - 1)
    hr = harness_end(hx, 400 if a.tier == "quick" else 5400) if hx else dict(ok=True, failures=[], evals=0)
    if hx and not hr.get("ok"):           # one retry: the harness itself must not be flaky
        hr = harness_end(harness_start(prop, seed, a.tier, budget), 300 if a.tier == "quick" else 5400)

    failed = [(r, o) for r in used for o in r["failed"]]
    unsup = [r for r in used if r["unsupported"]]
    undecided = [r for r in used if not r["ok"] and not r["failed"] and not r["unsupported"]]
    harness_runs = [hr]
    if (failed or unsup or undecided) and has_h and not hr.get("failures"):
        # look harder for a failing input / bounded stand-in for what left the verifier's subset
        for s in range(1, 3 if a.tier == "quick" else 6):
            if time.time() - t0 > 500 and a.tier == "quick":
                break
            r2 = harness_end(harness_start(prop, seed + 1000 * s, a.tier, min(budget * 1.5, 120 if a.tier == "quick" else 9999)), 300 if a.tier == "quick" else 5400)
            harness_runs.append(r2)
            if r2.get("failures"):
                break
    hfail = [(r, f) for r in harness_runs for f in (r.get("failures") or [])]
    known = load_findings(prop)
    new, seen_known = [], set()
    for r, f in hfail:
        k = next((k for k in known if k in f["what"]), None)
        if k:
            seen_known.add(k)
        else:
            new.append((r, f))
    broken = None
    if has_h and not hr.get("ok") and not hr.get("failures"):
        broken = "harness crashed: " + str(hr.get("crash"))[-2500:]
    n_obl = sum(r["obligations"] for r in used)
    n_ok = sum(r["proved"] for r in used)
    if not a.no_proof and n_obl == 0 and not unsup:
        broken = "no obligations were generated"

    violations = 0
    lines = []
    for k in sorted(seen_known):
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, k))
    doc = None
    if new:
        violations = len(new)
        r, f = new[0]
        doc = dict(property=prop, kind="failing input on the real code", failing_input=f, others=[x[1]["what"] for x in new[1:]],
                   replay_cmd=r["cmd"] + " --only " + str(f["case"]),
                   failed_obligations=[dict(unit=q["name"], mode=q["mode"], **o) for q, o in failed][:10])
        lines.append("VIOLATION property=%s replay=%s" % (prop, replay))
    elif failed:
        violations = len(failed)
        doc = dict(property=prop, kind="failed obligation, no failing input found",
                   obligation=failed[0][1]["label"], unit=failed[0][0]["name"], functions=failed[0][0]["functions"],
                   verifier_output=[dict(unit=q["name"], mode=q["mode"], **o) for q, o in failed][:10],
                   invariants=failed[0][0]["invariants"])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    if doc:
        with open(replay, "w") as f:
            json.dump(doc, f, indent=1)

    sup = [r for r in used if r["ok"]]
    cov = dict(
        obligations=n_obl, discharged=n_ok,
        checker_cmd="python3-vt %s %s --tier %s" % (os.path.join(ROOT, "check.py"), prop, a.tier),
        trusted_base=TRUSTED + list(getattr(m, "TRUSTED", [])),
        functions_under_contract=sorted({f for r in sup for f in r["functions"]}),
        units=[dict(name=r["name"], mode=r["mode"], ok=r["ok"], obligations=r["obligations"], discharged=r["proved"],
                    paths=r["completed"], loops_cut=len(r["loops"]), secs=round(r["secs"], 2),
                    solver_s=round(r["solver_s"], 2), queries=r["queries"], unsupported=r["unsupported"],
                    label=("bounded: " + r["bounded"]) if r["bounded"] else "unbounded") for r in used],
        back_ends={"z3": n_ok, "cvc5 (second opinion: asked, agreed)": [sum(r["second"][0] for r in used), sum(r["second"][1] for r in used)]},
        solver_time_s=round(sum(r["solver_s"] for r in everything), 2),
        solver_queries=sum(r["queries"] for r in everything),
        proof_mode=sorted({r["mode"] for r in used}),
        bounded_standins=["%s: %s -- bounded by the runtime harness only (%s)" % (r["name"], r["unsupported"], hr.get("bound", ""))
                          for r in unsup],
        runtime_contracts=[dict(evaluations=r.get("evals", 0), distinct=r.get("distinct", 0), skips=r.get("skips", 0),
                                secs=round(r.get("secs", 0), 1), bound=r.get("bound", ""), rule=r.get("rule", ""),
                                notes=r.get("notes", {}), samples=r.get("samples", [])[:1]) for r in harness_runs] if has_h else [])
    level = getattr(m, "LEVEL", "proof")
    if unsup and len(unsup) == len(used):
        level = "exploration"
    if level == "exploration":
        cov.update(evaluations=sum(r.get("evals", 0) for r in harness_runs),
                   distinct_nontrivial=sum(r.get("distinct", 0) for r in harness_runs),
                   rule=hr.get("rule", ""), samples=hr.get("samples", [])[:3])
    ev = dict(property=prop, tier=a.tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(m, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d obligations discharged in %d units (%s), %d runtime evaluations, %.1fs"
          % (prop, a.tier, n_ok, n_obl, len(used), "/".join(cov["proof_mode"]), sum(r.get("evals", 0) for r in harness_runs),
             time.time() - t0))
    for r in unsup:
        print("BOUNDED-STAND-IN %s: outside the verifier's subset (%s)" % (r["name"], r["unsupported"]))
    for r, o in failed[:6]:
        print("  obligation %s [%s]: %s (%s) %s" % (o["label"], r["name"], o["status"], r["mode"], (o["detail"] or "")[:300]))
    for r, f in new[:3]:
        print("  failing input: %s case %s %s" % (f["what"], f["case"], f.get("error", "")))
    for l in lines:
        print(l)
    if new or failed:
        return 1
    if broken:
        print("CHECK-BROKEN " + broken)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
