"""random models, series and stacks of series, parameter vectors and covariances: observables against the written observation
equations, bands against 1.96 standard deviations"""
import numpy as np

BOUND = "random models, series of up to 8 periods, stacks of up to 4 series, up to 4 parameter vectors, random covariances"


def equation(w, par):
    """matrix and constants of the written observation equations for the vector of variables"""
    P = dict(par)
    for k, v in w.spec.parafunc.items():
        P[k] = eval(v, {}, dict(P))
    Z, d = np.zeros((len(w.spec.obs), len(w.m.vv))), np.zeros(len(w.spec.obs))
    for j, (o, terms) in enumerate(w.spec.obs):
        for c, v, l in terms:
            val = float(eval(str(c), {"np": np}, dict(P)))
            if v == "":
                d[j] += val
            else:
                Z[j, w.pos[v]] += val
    return Z, d


def run(h):
    from harness.lib import World
    for i in h.cases("models", 60 if h.thorough else 14, 5):
        r = h.rng("models", i)
        with h.guard("observables", case=i):
            w = World(h, r, "c18_%d" % i, dict(static=bool(i % 2), two_shocks=bool(i % 3), mixobs=i % 4 != 3))
            for j in range(6):
                one(h, w, r)
            several(h, w, r)
            changed(h, w, r)


def one(h, w, r):
    m, n = w.m, len(w.m.vv)
    Z, d = equation(w, dict(w.spec.par, x_bar=w.spec.x_bar))
    T, N = int(r.integers(1, 9)), int(r.integers(1, 5))
    h.check([str(o) for o in m.observables] == [o for o, _ in w.spec.obs], "observables are in the declared order", got=list(map(str, m.observables)), model=w.desc())
    S = r.normal(size=(T, n)) * 3
    B = r.normal(size=(N, T, n)) * 3
    info = dict(model=w.desc(), variables=list(map(str, m.vv)))
    keep = S.copy()
    h.close(m.o_func(S), S @ Z.T + d, "observables of a series follow the observation equation", state=S, **info)
    h.check(np.array_equal(keep, S), "the series is not modified", **info)
    got = np.asarray(m.o_func(B))
    if h.check(got.shape == (N, T, len(d)), "one series of observables per series", got=got.shape, **info):
        for i in range(N):
            h.close(got[i], B[i] @ Z.T + d, "observables of a stack follow the observation equation", series=i, state=B, **info)
    A = r.normal(size=(T, n, n)) * r.choice([.1, 1., 3.])
    C = np.einsum("tij,tkj->tik", A, A)
    C0 = C.copy()
    out = m.o_func(S, covs=C)
    h.check(np.array_equal(C, C0) and np.array_equal(keep, S), "inputs are not modified", **info)
    if not h.check(len(out) == 2 and np.shape(out[0]) == (3, T, len(d)) and np.shape(out[1]) == (3, T, n), "bands of observables and of states",
                   got=[np.shape(x) for x in out], **info):
        return
    sd = np.array([[np.sqrt(C[t, i, i]) for i in range(n)] for t in range(T)])
    so = np.array([[np.sqrt(Z[j] @ C[t] @ Z[j]) for j in range(len(d))] for t in range(T)])
    for nm, x, mid, s in (("variables", out[1], S, sd), ("observables", out[0], S @ Z.T + d, so)):
        h.close(x[1], mid, "point estimate of the %s lies in the middle of the band" % nm, state=S, covs=C, **info)
        h.close(x[0], mid - 1.96 * s, "lower band of the %s is 1.96 standard deviations below" % nm, state=S, covs=C, **info)
        h.close(x[2], mid + 1.96 * s, "upper band of the %s is 1.96 standard deviations above" % nm, state=S, covs=C, **info)


def draw(w, r):
    """a full vector of parameters with other constants"""
    m = w.m
    v = np.array(m.par_fix, float)
    P = dict(w.spec.par, x_bar=w.spec.x_bar)
    for nm in ("y_mean", "pi_mean"):
        P[nm] = float(np.round(r.normal(), 3))
        v[list(map(str, m.parameters)).index(nm)] = P[nm]
    return v, P


def several(h, w, r):
    m, n = w.m, len(w.m.vv)
    N, T = int(r.integers(1, 5)), int(r.integers(1, 8))
    D = [draw(w, r) for _ in range(N)]
    S = r.normal(size=(N, T, n))
    with h.quiet():
        got = np.asarray(m.o_func(S, pars=[v for v, _ in D]))
        m.set_par("calib", verbose=False)
    info = dict(model=w.desc(), variables=list(map(str, m.vv)), pars=[v for v, _ in D], state=S)
    if h.check(got.shape == (N, T, len(w.spec.obs)), "one series of observables per parameter vector", got=got.shape, **info):
        for i in range(N):
            Z, d = equation(w, D[i][1])
            h.close(got[i], S[i] @ Z.T + d, "each series uses the equation of its own parameters", series=i, **info)


def changed(h, w, r):
    """after the parameters were changed"""
    m = w.m
    v, P = draw(w, r)
    S = r.normal(size=(4, len(m.vv)))
    with h.quiet():
        if r.integers(2):
            m.set_par(v)
        else:
            for nm in ("y_mean", "pi_mean"):
                m.set_par(nm, P[nm])
        Z, d = equation(w, P)
        h.close(m.o_func(S), S @ Z.T + d, "observables use the current parameters", state=S, model=w.desc(), parameters=P)
        m.set_par("calib", verbose=False)
