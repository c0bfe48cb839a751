"""random models: innovations from pairs of consecutive states; extraction with the linear filter against the conditional
expectation of the states given the data (joint normal distribution of the oracle)"""
import numpy as np

BOUND = "random models with two or three observables, up to 3 parameter vectors, up to 8 periods of data"


def smooth(o, sd, R, data):
    """conditional expectation of all states given all data"""
    from harness import estim
    X, Z, _ = o.X0
    M, c = estim.H(o)
    T, n, k = len(data), o.n, len(c)
    V = estim.stationary(o, sd)
    C = np.zeros((T * n, T * n))
    for s in range(T):
        A = V
        for t in range(s, T):
            C[t * n:(t + 1) * n, s * n:(s + 1) * n] = A
            C[s * n:(s + 1) * n, t * n:(t + 1) * n] = A.T
            A = X @ A
    MM = np.kron(np.eye(T), M)
    S = MM @ C @ MM.T + np.kron(np.eye(T), R)
    return (C @ MM.T @ np.linalg.solve(S, (data - c).ravel())).reshape(T, n)


def run(h):
    from harness import estim
    for i in h.cases("models", 50 if h.thorough else 10, 5):
        r = h.rng("models", i)
        with h.guard("extraction", case=i):
            w = estim.world(h, r, "c12_%d" % i, T=int(r.integers(3, 9)))
            with h.quiet():
                w.m.create_filter(ftype="KalmanFilter")
                w.m.filter.R = w.m.create_obs_cov(float(r.choice([.05, .3])))
            implied(h, w, r)
            for j in range(2):
                extraction(h, w, r)


def implied(h, w, r):
    from harness.models import Oracle
    from harness import estim
    m = w.m
    base = {k: w.spec.par[k] for k in w.spec.prior}
    for j in range(3):
        cur = {k: v * float(r.uniform(.92, 1.06)) for k, v in base.items()}
        try:
            o = Oracle(w.spec, cur)
        except ValueError:
            continue
        if np.linalg.cond(o.X0[1]) > 1e8:
            continue            # innovations are not identified
        with h.quiet():
            m.set_par(np.array([cur[k] for k in base]))
            m.run_filter(smoother=False)
        s, x = w.walk_lin(o, r, int(r.integers(0, 4)))
        for q in range(4):
            e = w.eps(r, w.spec.x_bar)
            n = m.t_func(s, e, linear=True, return_flag=False)
            a, b = n.copy(), s.copy()
            got = m.get_eps_lin(n, s)
            info = dict(model=w.desc(), par=cur, state=s, eps=e)
            h.close(got, e, "the innovation that generated a state is recovered", 1e-6, **info)
            h.check(np.array_equal(a, n) and np.array_equal(b, s), "states are not modified", **info)
            s = n


def extraction(h, w, r):
    from harness.models import Oracle
    from harness import estim
    m = w.m
    base = {k: w.spec.par[k] for k in w.spec.prior}
    n = int(r.integers(1, 4))
    P, O = [], []
    for _ in range(20):
        cur = {k: v * float(r.uniform(.92, 1.06)) for k, v in base.items()}
        try:
            o = Oracle(w.spec, cur)
            estim.stationary(o, estim.stds(w, o.P))
        except ValueError:
            continue
        if np.linalg.cond(o.X0[1]) > 1e6:
            continue
        P.append(np.array([cur[k] for k in base]))
        O.append(o)
        if len(P) == n:
            break
    if not P:
        return
    full = bool(r.integers(2))
    A = []
    for p in P:
        if full:
            q = np.array(m.par_fix)
            q[m.prior_arg] = p
            A.append(q)
        else:
            A.append(p)
    mode = "current" if len(P) == 1 and r.integers(2) else "sample"
    with h.quiet():
        if mode == "current":
            m.set_par(A[0])
            ed = m.extract(verbose=0)
        else:
            m.set_par("calib")
            ed = m.extract(A[0] if len(A) == 1 and r.integers(2) else A, verbose=0, nsamples=int(r.choice([1, 1, 3])))
    info = dict(model=w.desc(), pars=A, names=list(base), data=w.data.values, R=m.filter.R)
    T = len(w.data)
    if len(P) == 1 and hasattr(ed["resid"][0], "columns"):
        d = ed["resid"][0]
        h.check([str(q) for q in d.columns] == [str(q) for q in m.shocks] and list(d.index) == list(w.data.index[:-1]),
                "innovations are labelled with shocks and with the periods that their transitions start from", got=(list(d.index), list(d.columns)), **info)
    init, resid = np.asarray(ed["init"]), np.asarray(ed["resid"], float)
    pars = np.asarray(ed["pars"])
    if not h.check(init.shape == (len(P), len(m.vv)) and resid.shape == (len(P), T - 1, len(m.shocks)) and len(pars) == len(P), "one initial state and T-1 innovations per parameter vector",
                   got=(init.shape, resid.shape, pars.shape), **info):
        return
    for i in range(len(P)):
        want = A[i]
        if mode == "current" and not full:
            want = np.array(m.par_fix)
            want[m.prior_arg] = P[i]
        h.check(np.array_equal(pars[i], want), "parameters are stored with their results", got=pars[i], want=want, **info)
        sm = smooth(O[i], estim.stds(w, O[i].P), np.asarray(m.filter.R, float), w.data.values)
        sc = 1 + np.abs(sm).max()
        w.same(h, init[i], sm[0], "initial state is the smoothed state of the first period", 1e-5 * sc, sample=i, **info)
        with h.quiet():
            m.set_par(A[i])
        s = init[i]
        for t in range(T - 1):
            s = m.t_func(s, resid[i, t], linear=True, return_flag=False)
            if not w.same(h, s, sm[t + 1], "innovations fed back into the transition reproduce the smoothed states", 1e-4 * sc, sample=i, t=t, **info):
                return
    with h.quiet():
        m.set_par("calib")
