"""random models and samples: contributions of the shocks sum to the path of the oracle, the mean path is the transition
recursion, contributions of a linear model are driven by the own innovations; sorted decompositions"""
import numpy as np

BOUND = "random models, up to 3 samples of up to 9 periods; random decompositions for sorting"


def run(h):
    from harness.lib import World
    for i in h.cases("models", 60 if h.thorough else 14, 6):
        r = h.rng("models", i)
        with h.guard("decomposition", case=i):
            w = World(h, r, "c13_%d" % i, dict(two_shocks=True, cnst_shock=bool(i % 2)) if i % 4 else None)
            for j in range(4):
                one(h, w, r)
    for i in h.cases("sort", 200 if h.thorough else 40, 20):
        with h.guard("sorting", case=i):
            sort(h, h.rng("sort", i))


def one(h, w, r):
    import contextlib, io
    import pandas as pd
    from harness.c06 import draws
    m = w.m
    n, T = int(r.integers(1, 4)), int(r.integers(1, 9))
    P, O = draws(h, w, r, n)
    n = len(P)
    if not n:
        return
    nx, ne = len(m.vv), w.oracle.m
    names = [str(o) for o in m.observables]
    ix = pd.RangeIndex(5, 5 + T + 1)
    m.load_data(pd.DataFrame(r.normal(size=(T + 1, len(names))), columns=names, index=ix))
    init, xs, eps = np.zeros((n, nx)), [], np.zeros((n, T, ne))
    lin = bool(r.integers(3) == 0)
    for i in range(n):
        with h.quiet():
            m.set_par(P[i])
        w.oracle, keep = O[i], w.oracle
        init[i], x = w.walk(r, int(r.integers(0, 3)), nonlinear=False)
        xs.append(x)
        w.oracle = keep
        for t in range(T):
            eps[i, t] = w.eps(r, w.spec.x_bar * float(r.choice([.2, 3.])))
    with h.quiet():
        m.set_par("calib", verbose=False)
    d = dict(init=init, pars=np.array(P), resid=eps)
    keep = {k: v.copy() for k, v in d.items()}
    info = dict(model=w.desc(), init=init, pars=P, names=m.prior_names, resid=eps, linear=lin)
    with h.quiet(), contextlib.redirect_stderr(io.StringIO()):
        hd, means = m.nhd(d, **(dict(linear=True) if lin else {}))
        m.set_par("calib", verbose=False)
    h.check(all(np.array_equal(d[k], keep[k]) for k in d), "inputs are not modified", **info)
    if not h.check(len(hd) == ne and all(np.shape(x) == (T + 1, nx) for x in hd) and np.shape(means) == (T + 1, nx), "one decomposition per shock",
                   got=[np.shape(x) for x in hd], **info):
        return
    h.check(all(list(x.columns) == list(m.vv) and list(x.index) == list(ix) for x in list(hd) + [means]), "decompositions are labelled with variables and dates", **info)
    # recursion of the oracle, and of its contributions
    paths, parts, good = [], [], T + 1
    for i in range(n):
        o, x = O[i], xs[i]
        cs = [x / ne for _ in range(ne)]
        path, part = [x], [list(cs)]
        for t in range(T):
            e = eps[i, t]
            f = (0, 0, 0) if lin else o.search(x, e, w.L, w.K)
            if f is None:
                good = min(good, t + 1)
                break
            try:
                X, Z, c = o.rule(f[0], f[1])
            except ValueError:
                good = min(good, t + 1)
                break
            wt = np.zeros(ne)
            if f[1]:
                # contribution of every shock to the expected constraint under this regime, without the constants
                q = []
                for s in range(ne):
                    es = np.zeros(ne)
                    es[s] = e[s]
                    a = o.path(cs[s], es, f[0], f[1], 1)[1][0] - o.path(np.zeros(o.n), np.zeros(ne), f[0], f[1], 1)[1][0]
                    q.append(a)
                q = np.array(q)
                if abs(q.sum()) < 1e-4 * np.abs(q).sum() or np.abs(q).sum() < 1e-9:
                    good = min(good, t + 1)
                    break
                wt = q / q.sum()
            ncs = []
            for s in range(ne):
                es = np.zeros(ne)
                es[s] = e[s]
                ncs.append(X @ cs[s] + Z @ es + wt[s] * c)
            cs = ncs
            x = o.step(x, e, f[0], f[1])
            if np.max(np.abs(x)) > 1e5:
                good = min(good, t + 1)
                break
            path.append(x)
            part.append(list(cs))
        paths.append(path)
        parts.append(part)
    H = np.array([x.values for x in hd])
    for t in range(good):
        x = np.mean([p[t] for p in paths], axis=0)
        if not w.same(h, means.values[t], x, "mean path is the transition recursion from the initial state", t=t, **info):
            break
        tol = 1e-6 * (1 + np.max(np.abs(H[:, t])))
        if not h.check(np.all(np.abs(H[:, t].sum(axis=0) - means.values[t]) < tol), "contributions sum to the path", t=t, got=H[:, t].sum(axis=0), want=means.values[t], **info):
            break
        ok = True
        for s in range(ne):
            c = np.mean([p[t][s] for p in parts], axis=0)
            ok = ok and w.same(h, H[s, t], c, "contribution of a shock is driven by its own innovations and its share in the constraint", shock=s, t=t, tol=1e-5, **info)
        if not ok:
            break


def sort(h, r):
    import pandas as pd
    from pydsge.stats import sort_nhd
    n, T, k = int(r.integers(1, 6)), int(r.integers(1, 6)), int(r.integers(1, 4))
    hd = r.normal(size=(n, T, k)) * (r.random((n, T, k)) < .8)
    arg = [[x for x in hd], hd, [pd.DataFrame(x) for x in hd]][int(r.integers(3))]
    lo, hi = sort_nhd(arg)
    info = dict(hd=hd)
    if not h.check(len(lo) == n and len(hi) == n and all(np.shape(x) == (2, T, k) for x in list(lo) + list(hi)), "one band per contribution", **info):
        return
    pos = neg = np.zeros((T, k))
    for s in range(n):
        h.close(hi[s][0], pos, "positive contributions are cumulated (start)", s=s, **info)
        h.close(lo[s][0], neg, "negative contributions are cumulated (start)", s=s, **info)
        pos, neg = pos + np.maximum(hd[s], 0), neg + np.minimum(hd[s], 0)
        h.close(hi[s][1], pos, "positive contributions are cumulated (end)", s=s, **info)
        h.close(lo[s][1], neg, "negative contributions are cumulated (end)", s=s, **info)
    h.close(hi[-1][1] + lo[-1][1], hd.sum(axis=0), "total is the sum of all contributions", **info)
