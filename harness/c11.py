"""random models and sequences of parameters: covariances that the filters start with against those of the oracle"""
import numpy as np

BOUND = "random models with two or three observables, three kinds of filters, sequences of up to 6 parameter vectors"


def spy(f):
    """records what the filter is run with"""
    rec = {}
    orig = f.batch_filter

    def batch(*a, **k):
        rec["P"], rec["Q"], rec["R"] = np.array(f.P, copy=True), np.array(f.Q, copy=True), np.array(f.R, copy=True)
        rec["n"] = rec.get("n", 0) + 1
        rec["F"] = np.array(f.F, copy=True) if f.name == "KalmanFilter" else None
        rec["H"] = tuple(np.array(x, copy=True) for x in f.H) if f.name == "KalmanFilter" else None
        return orig(*a, **k)
    f.batch_filter = batch
    return rec


def small(r, name):
    """a model with as many variables as shocks"""
    from harness.models import Spec
    u = lambda a, b: float(np.round(r.uniform(a, b), 3))
    par = dict(rho_y=u(.3, .8), phi=u(1.1, 2.), sig_y=u(.2, .6), sig_r=u(.1, .3), g=u(.1, .4))
    eqs = [("y", [("rho_y", "y", -1), ("-g", "r", 0), ("1", "e_y", 0), (".5", "e_r", 0)])]
    cn = ("r", [("phi", "y", 0), ("1", "e_r", 0)])
    obs = [("Out", [("1", "y", 0), ("0.3", "", 0)]), ("Rate", [("1", "r", 0)])]
    return Spec(name, ["y", "r"], ["e_y", "e_r"], eqs, cn, obs, par, -u(.5, 2.), dict(e_y="sig_y", e_r="sig_r"), None,
                {"rho_y": [.5, .1, .9, "beta", .5, .1], "sig_y": [.3, .1, .9, "inv_gamma_dynare", .3, 2], "phi": [1.5, 1., 2., "normal", 1.5, .1]})


def run(h):
    from harness import estim
    from harness.lib import World
    import pandas as pd
    for i in h.cases("small", 12 if h.thorough else 3, 2):
        r = h.rng("small", i)
        with h.guard("filter", case=i):
            w = World(h, r, "c11s_%d" % i, spec=small(r, "c11s_%d" % i))
            w.data = pd.DataFrame(r.normal(size=(6, 2)), columns=[n for n, _ in w.spec.obs])
            w.m.load_data(w.data.copy())
            sequence(h, w, r)
    for i in h.cases("models", 50 if h.thorough else 10, 5):
        r = h.rng("models", i)
        with h.guard("filter", case=i):
            w = estim.world(h, r, "c11_%d" % i, T=5, unit=[1., 1e-3, 1., 30.][i % 4])
            sequence(h, w, r)


def sequence(h, w, r):
    from harness.models import Oracle
    from harness import estim
    m = w.m
    base = {k: w.spec.par[k] for k in w.spec.prior}
    other = [k for k in w.spec.par if k not in base and k.startswith("sig")]
    cur = dict(w.spec.par)
    log = []
    kind = None
    for step in range(6):
        if kind is None or r.integers(3) == 0:
            kind = str(r.choice(["KF", "TEnKF", "reduced"]))
            if hasattr(m, "filter") and r.integers(2):
                m.filter.init_cov = np.eye(3)           # belongs to the filter that is replaced
            with h.quiet():
                if kind == "KF":
                    m.create_filter(ftype=str(r.choice(["KF", "KalmanFilter"])))
                else:
                    m.create_filter(N=8, ftype="TEnKF", reduced_form=kind == "reduced", seed=0)
            m.filter.R = m.create_obs_cov(.3)
            rec = spy(m.filter)
            log.append(("filter", kind))
        # change parameters, or not
        if r.integers(3):
            new = dict(cur)
            if other and r.integers(3) == 0:
                k = other[int(r.integers(len(other)))]
                new[k] = w.spec.par[k] * float(r.uniform(.5, 2.))
                call = lambda: m.set_par(k, new[k])
            else:
                new.update({k: v * float(r.uniform(.9, 1.06)) for k, v in base.items()})
                call = lambda: m.set_par(np.array([new[k] for k in base]))
            try:
                Oracle(w.spec, new)
            except ValueError:
                new = cur
            if new is not cur:
                with h.quiet():
                    call()
                cur = new
                log.append(("set_par", {k: v for k, v in cur.items() if v != w.spec.par.get(k)}))
        o = Oracle(w.spec, cur)
        sd = estim.stds(w, o.P)
        try:
            V = estim.stationary(o, sd)
        except ValueError:
            return
        info = dict(model=w.desc(), log=list(log))
        names = [str(v) for v in (m.svv if kind == "reduced" else m.vv)]
        both = [n for n in names if n in o.ix]
        a, b = [names.index(n) for n in both], [o.ix[n] for n in both]
        mode = str(r.choice(["none", "none", "arg", "attr"]))
        given = None
        kw = {}
        if mode != "none":
            G = r.normal(size=(len(names), len(names)))
            given = G @ G.T
            if mode == "arg":
                kw["init_cov"] = given.copy()
                if r.integers(2):
                    m.filter.init_cov = np.eye(len(names))
            else:
                m.filter.init_cov = given.copy()
        n0 = rec.get("n", 0)
        s = np.random.get_state()
        how = int(r.integers(3))
        with h.quiet():
            try:
                if how == 0:
                    m.run_filter(smoother=False, get_ll=True, **kw)
                elif how == 1:
                    m.run_filter(smoother=False, **kw)
                else:
                    m.run_filter(**kw)
            except np.linalg.LinAlgError:
                pass            # the filter itself; what it started with was recorded
        np.random.set_state(s)
        if given is not None:
            m.filter.init_cov = None
        log.append(("run_filter", mode))
        if not h.check(rec.get("n", 0) == n0 + 1, "the filter is run once", **info):
            return
        P, Q = rec["P"], rec["Q"]
        if given is not None:
            h.check(np.array_equal(P, given), "a given initial covariance is used as it is", got=P, want=given, **info)
        else:
            sc = np.max(np.abs(V))
            h.check(P.shape == (len(names),) * 2 and np.all(np.abs(P[np.ix_(a, a)] - V[np.ix_(b, b)]) < 1e-6 * (1e-6 + sc)),
                    "initial covariance is the stationary one of the current model", got=P[np.ix_(a, a)] if P.shape == (len(names),) * 2 else P, want=V[np.ix_(b, b)], labels=both, **info)
        Z = o.X0[1]
        if kind == "KF":
            W = Z @ np.diag(sd ** 2) @ Z.T
            h.check(Q.shape == (len(names),) * 2 and np.allclose(Q[np.ix_(a, a)], W[np.ix_(b, b)], atol=1e-9 * min(1., np.abs(W).max()), rtol=1e-7),
                    "shock covariance is the square of the current standard deviations (in states)", got=Q, want=W[np.ix_(b, b)], labels=both, **info)
            # the law of motion that is handed to the filter, on a reachable state
            s, x = w.walk_lin(o, r)
            g, v = np.array([(rec["F"] @ s)[names.index(q)] for q in both]), np.array([(o.X0[0] @ x)[o.ix[q]] for q in both])
            h.check(np.allclose(g, v, atol=1e-7 * (1 + np.abs(v).max())), "law of motion is that of the current model", got=g, want=v, **info)
            y = rec["H"][0] @ s + rec["H"][1].ravel()
            h.check(np.allclose(y, o.obs(x)[0], atol=1e-7 * (1 + np.abs(y).max())), "observation equation is that of the current model", got=y, want=o.obs(x)[0], **info)
        else:
            names_s = [str(q) for q in m.shocks]
            D = np.diag([sd[w.spec.shocks.index(q)] ** 2 for q in names_s])
            h.check(Q.shape == D.shape and np.allclose(Q, D, rtol=1e-10, atol=0), "shock covariance is the square of the current standard deviations", got=Q, want=D, **info)
