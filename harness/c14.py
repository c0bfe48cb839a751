"""random models, samples of states, innovations and parameters: variance shares against responses of the oracle"""
import itertools
import numpy as np

BOUND = "random models, up to 3 parameter vectors with up to 3 periods each, horizons up to 9"


def respond(w, o, x, e, T, lin):
    """state of the oracle after T periods if e hits in the first one; None if the regime is not clear"""
    prev = None
    for t in range(T):
        u = e if t == 0 else np.zeros_like(e)
        f = (0, 0, 0) if lin else o.search(x, u, w.L, w.K)
        if f is None:
            return None
        if prev is not None and not lin:
            c = (prev[0] - 1, prev[1]) if prev[0] else (0, max(prev[1] - 1, 0))
            if f[:2] != c:          # several equilibria: selection is not specified
                return None
        prev = f[:2]
        try:
            x = o.step(x, u, f[0], f[1])
        except ValueError:
            return None
        if np.max(np.abs(x)) > 1e6:
            return None
    return x


def run(h):
    from harness.lib import World
    for i in h.cases("models", 40 if h.thorough else 10, 5):
        r = h.rng("models", i)
        with h.guard("variance shares", case=i):
            w = World(h, r, "c14_%d" % i, dict(two_shocks=True, cnst_shock=bool(i % 2)))
            for j in range(3):
                one(h, w, r)


def one(h, w, r):
    from harness.c06 import draws
    m = w.m
    n, T = int(r.integers(1, 4)), int(r.integers(1, 4))
    P, O = draws(h, w, r, n)
    n = len(P)
    if not n:
        return
    nx, ne = len(m.vv), w.oracle.m
    means, xs, eps = np.zeros((n, T + 1, nx)), [], np.zeros((n, T, ne))
    lin, hor = bool(r.integers(2)), int(r.choice([1, 1, 2, 3, 6, 9]))
    for i in range(n):
        with h.quiet():
            m.set_par(P[i])
        w.oracle, keep = O[i], w.oracle
        for t in range(T + 1):
            s, x = w.walk(r, int(r.integers(0, 3)), nonlinear=False)
            means[i, t] = s
            xs.append(x) if t < T else None
            if t < T:
                eps[i, t] = w.eps(r, w.spec.x_bar * float(r.choice([.2, 3.])))
        w.oracle = keep
    with h.quiet():
        m.set_par("calib", verbose=False)
    d = dict(means=means, pars=np.array(P), resid=eps)
    keep = {k: v.copy() for k, v in d.items()}
    kw = dict(horizon=hor) if hor > 1 or r.integers(2) else {}
    if lin:
        kw["linear"] = True
    ns = None
    if r.integers(2):
        ns = kw["nsamples"] = int(r.integers(1, n * T + 1))
    info = dict(model=w.desc(), means=means, pars=P, names=m.prior_names, resid=eps, options=kw)
    with h.quiet():
        vd = m.gfevd(d, verbose=0, **kw)
        m.set_par("calib", verbose=False)
    h.check(all(np.array_equal(d[k], keep[k]) for k in d), "inputs are not modified", **info)
    if not h.check(list(map(str, vd.index)) == list(w.spec.shocks) and list(vd.columns) == list(m.vv), "shares are labelled with shocks and variables",
                   got=[list(vd.index), list(vd.columns)], **info):
        return
    V = vd.values
    dead = np.all(np.isnan(V), axis=0)
    h.check(np.all((V[:, ~dead] >= 0) & (V[:, ~dead] <= 1 + 1e-12)), "shares lie between zero and one", got=V, **info)
    h.check(np.allclose(V[:, ~dead].sum(axis=0), 1), "shares sum to one", got=V, **info)
    # responses of every sample
    G = []
    for i in range(n):
        for t in range(T):
            g = np.zeros((ne, O[i].n))
            x0 = xs[i * T + t]
            void = respond(w, O[i], x0, np.zeros(ne), hor, lin)
            if void is None:
                return
            for j in range(ne):
                e = np.zeros(ne)
                e[j] = eps[i, t, j]
                y = respond(w, O[i], x0, e, hor, lin)
                if y is None:
                    return
                g[j] = (y - void) ** 2
            G.append(g)
    cols = [(w.pos[v], w.oracle.ix[v]) for v in w.names()]
    best, resp = np.inf, None
    subsets = [range(n * T)] if ns is None else itertools.combinations(range(n * T), ns)
    for sub in subsets:
        g = sum(G[q] for q in sub)
        tot = g.sum(axis=0)
        err = 0.
        for a, b in cols:
            if tot[b] > 1e-12 * (1 + tot.max()):
                err = max(err, np.max(np.abs(V[:, a] - g[:, b] / tot[b])) if not dead[a] else np.inf)
        best = min(best, err)
    h.check(best < 1e-5, "share of a shock is its squared response summed over the samples relative to all shocks", error=best, got=V, **info)
