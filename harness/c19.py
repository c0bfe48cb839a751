"""random models compiled by numba: tables of parallel and sequential preprocessing, and trajectory tables against the
uncompiled Python function, on several sizes and repeated runs (8 threads)"""
import numpy as np

JIT = True
BOUND = "random models, up to 3 table sizes each, repeated runs with 2-8 threads"


def run(h):
    import os
    import numba
    from harness.lib import World
    from pydsge import engine
    nt = min(8, os.cpu_count() or 1)
    for i in h.cases("models", 20 if h.thorough else 4, 2):
        r = h.rng("models", i)
        with h.guard("tables", case=i):
            w = World(h, r, "c19_%d" % i, l_max=2, k_max=4, parallel=False)
            for l, k in ((2, 4), (5, 14), (3, 9))[: 3 if h.thorough else 2]:
                with h.quiet():
                    w.m.set_par("calib", l_max=l, k_max=k, parallel=False)
                seq = [np.array(x) for x in w.m.precalc_mat]
                w.m.traj(np.zeros(w.m.dimq), l=0, k=0, verbose=False)
                tm = [np.array(x) for x in w.m.precalc_tmat]
                for rep in range(4):
                    numba.set_num_threads([nt, max(1, nt // 2), min(2, nt), nt][rep])
                    with h.quiet():
                        w.m.set_par("calib", l_max=l, k_max=k, parallel=True)
                    par = w.m.precalc_mat
                    names = ("rules of controls", "rules of states", "constants of controls", "constants of states",
                             "forecast rows", "forecast constants")
                    for nm, a, b in zip(names, par, seq):
                        a, b = np.array(a), np.array(b)
                        if nm.startswith("forecast"):       # entries that are never consulted are not initialised
                            for z in (a, b):
                                z[1, 0] = 0
                                z[3, 0, 0] = 0
                        sc = 1 + np.max(np.abs(b[np.isfinite(b)])) if np.any(np.isfinite(b)) else 1
                        ok = a.shape == b.shape and np.all((np.abs(a - b) <= 1e-9 * sc) | (np.isnan(a) & np.isnan(b)))
                        h.check(ok, "parallel and sequential preprocessing agree: " + nm, model=w.desc(), l_max=l, k_max=k)
                    w.m.traj(np.zeros(w.m.dimq), l=0, k=0, verbose=False)
                    py = getattr(engine.preprocess_tmats_jit, "py_func", None)
                    for nm, a, b in zip(("rows", "constants"), w.m.precalc_tmat, tm):
                        h.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9),
                                "trajectory tables do not depend on the schedule: " + nm, model=w.desc(), l_max=l, k_max=k)
                # tables of other parameters, prepared in parallel after the ones above were in use
                p = np.array(w.m.par_fix, float)
                p[w.m.prior_arg] *= 1.01
                st = np.zeros(w.m.dimq)
                st[-1] = 2 * w.spec.x_bar
                res = []
                for pl in (True, False):
                    try:
                        with h.quiet():
                            w.m.set_par("calib", l_max=l, k_max=k, parallel=pl)
                            w.m.traj(st, l=1, k=1, verbose=False)
                            w.m.set_par(p, l_max=l, k_max=k, parallel=pl)
                        res.append([np.array(q) for q in (w.m.traj(st, l=1, k=1, verbose=False), *w.m.precalc_tmat)])
                    except ValueError:
                        break
                if len(res) == 2:
                    h.check(all(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True) for a, b in zip(*res)),
                            "trajectories after parallel and after sequential preprocessing agree", model=w.desc(), par=p, l_max=l, k_max=k)
                with h.quiet():
                    w.m.set_par("calib", l_max=l, k_max=k)
                # the compiled variants against the uncompiled source
                f = h.internal(engine, "preprocess_tmats_jit", ("pmat", "pterm", "qmat", "qterm", "fq1", "fp1", "fq0", "omg", "l_max", "k_max"))
                if f is not None and hasattr(f, "py_func") and rep == 3:
                    pm, qm, pt, qt = w.m.precalc_mat[:4]
                    lm, km = (int(v) for v in w.m.lks)
                    a = f.py_func(pm, pt, qm, qt, *w.m.ff, w.m.sys[0], lm, km)
                    h.check(all(np.allclose(x, y, rtol=1e-8, atol=1e-8) for x, y in zip(a, tm)),
                            "compiled trajectory tables equal the uncompiled ones", model=w.desc(), l_max=l, k_max=k)
