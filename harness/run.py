"""/opt/venv/bin/python harness/run.py PROP --seed N --tier T --budget S --out FILE [--only CASE]"""
import argparse, importlib, json, os, shutil, sys, tempfile, time, traceback

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--tier", default="quick")
ap.add_argument("--budget", type=float, default=60)
ap.add_argument("--out", default="")
ap.add_argument("--only", default=None)
a = ap.parse_args()

scratch = tempfile.mkdtemp(prefix="pydsge_verif_")
for k, v in dict(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=scratch, NUMBA_CACHE_DIR=scratch,
                 HOME=scratch, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1").items():
    os.environ[k] = v
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
res = dict(ok=False)
cwd = os.getcwd()
try:
    os.chdir(scratch)
    import numpy as np
    np.random.seed(a.seed)
    import warnings
    warnings.simplefilter("ignore")
    from harness import lib
    mod = importlib.import_module("harness." + a.prop.lower())
    if not getattr(mod, "JIT", False):
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    h = lib.H(a.prop, a.seed, a.tier, a.budget, scratch, a.only)
    t = time.time()
    try:
        mod.run(h)
        from harness import near
        getattr(near, a.prop.lower(), lambda h: None)(h)
        res["ok"] = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res["crash"] = traceback.format_exc()[-4000:]
        res["crash_in_repo"] = any("/pydsge/" in f.filename for f in tb)
        if res["crash_in_repo"]:
            h.failures.append(dict(case=h._case, what="no exception on valid input", inputs={},
                                   error="%s: %s" % (type(e).__name__, e), traceback=res["crash"]))
            res["ok"] = True
    res.update(evals=h.evals, distinct=len(h.distinct), samples=h.samples, failures=h.failures, skips=h.skips,
               notes=h.notes, secs=time.time() - t, bound=getattr(mod, "BOUND", ""), rule=(mod.__doc__ or "").strip())
except BaseException as e:
    res["crash"] = traceback.format_exc()[-4000:]
    res["crash_in_repo"] = "/pydsge/" in res["crash"]
finally:
    os.chdir(cwd)
    shutil.rmtree(scratch, ignore_errors=True)
if a.out:
    with open(a.out, "w") as f:
        json.dump(res, f)
else:
    print(json.dumps(res, indent=1)[:6000])
sys.exit(0 if res.get("ok") and not res.get("failures") else 1)
