"""parameters that are almost, but not exactly, those in use: results may not depend on what was in use before"""
import contextlib
import io
import numpy as np


def vectors(r, w):
    """(base, near, far): estimated parameters, relative distance of about 1e-6 and 0.04"""
    from harness.models import Oracle
    names = list(map(str, w.m.prior_names))
    base = np.array([w.spec.par[k] for k in names]) * r.uniform(.98, 1.02)
    near = base * (1 + 10. ** -r.integers(6, 8) * r.choice([-4., -2., 3.], size=len(base)))
    far = base * r.choice([.96, 1.03], size=len(base))
    try:
        for p in (base, near, far):
            Oracle(w.spec, dict(zip(names, p)))
    except ValueError:
        return None
    return base, near, far


def flat(x):
    if isinstance(x, (tuple, list)):
        return np.concatenate([flat(y) for y in x]) if len(x) else np.zeros(0)
    return np.asarray(x, float).flatten()


def compare(h, w, V, run, what, tol=1e-11, forms=True, **info):
    """`run(before, now)`: result at `now` where `before` was in use, given as estimated parameters and as all"""
    base, near, far = V
    for f in (lambda p: p, lambda p: full(w, p)):
        now = f(near)
        got = []
        with h.quiet(), contextlib.redirect_stderr(io.StringIO()):
            for before in (base, far):
                w.m.set_par(before, verbose=False)
                got.append(flat(run(f(before), now.copy())))
            w.m.set_par("calib", verbose=False)
        verdict(h, w, got, what, tol, in_use=base, given=now, other=far, **info)
        if not forms:
            break


def verdict(h, w, got, what, tol, **info):
    a, b = got
    if a.shape != b.shape:
        return h.check(False, what, model=w.desc(), **info)
    ok = (np.isnan(a) == np.isnan(b)) & ((np.abs(a - b) <= tol * (1 + np.abs(b))) | np.isnan(a) | (a == b))
    h.check(np.all(ok), what, model=w.desc(), names=list(map(str, w.m.prior_names)), got=a[~ok][:5], want=b[~ok][:5], **info)


def models(h, n, name, **feat):
    from harness import estim
    for i in h.cases("near", 4 * n if h.thorough else n, n):
        r = h.rng("near", i)
        with h.guard("almost equal parameters", case=i):
            w = estim.world(h, r, "%s_near_%d" % (name, i), T=int(r.integers(4, 8)), **feat)
            V = vectors(r, w)
            if V is not None:
                yield r, w, V


def full(w, p, keep=True):
    v = np.array(w.m.par_fix, float)
    v[w.m.prior_arg] = p
    return v


def both(w, *ps):
    """the vectors as estimated and as full ones"""
    yield [p.copy() for p in ps]
    yield [full(w, p) for p in ps]


def c03(h):
    for r, w, V in models(h, 2, "c03"):
        s, x = w.walk(r, 2, nonlinear=False)
        q = w.qvec(s, w.eps(r, w.spec.x_bar))

        def run(before, now):
            m = w.m
            m.traj(q, l=1, k=2, verbose=False)
            m.set_par(now, verbose=False)
            return m.traj(q, l=1, k=2, verbose=False), m.traj(q, verbose=False)
        compare(h, w, V, run, "trajectories use the current parameters, however small the change")


def c05(h):
    for r, w, V in models(h, 2, "c05"):
        sl = [(w.spec.shocks[0], float(w.spec.x_bar * 2), 0), (w.spec.shocks[-1], float(w.spec.x_bar), 2)]
        compare(h, w, V, lambda before, now: w.m.irfs(sl, np.array([now]) if r.integers(2) else now, T=7, verbose=0)[:2],
                "responses are those of the given parameters, however close to those in use", shocks=repr(sl))
        for b, n in both(w, V[0], V[1]):
            with h.quiet():
                X = w.m.irfs(sl, np.array([b, n]), T=7, verbose=0)[0]
                Y = w.m.irfs(sl, np.array([n]), T=7, verbose=0)[0]
            h.close(X[1], Y[0], "responses of a vector do not depend on the one before", 1e-11, model=w.desc(), pars=[b, n], shocks=repr(sl))


def c06(h):
    for r, w, V in models(h, 2, "c06"):
        s, x = w.walk(r, 1, nonlinear=False)
        e = np.array([w.eps(r, w.spec.x_bar * 2.) for _ in range(6)])
        sim = lambda *P: w.m.simulate(pars=list(P), resid=[e.copy() for _ in P], init=[s.copy() for _ in P])[0]
        compare(h, w, V, lambda before, now: sim(now), "a sample is simulated under its parameters, however close to those in use", init=s, resid=e)
        for b, n in both(w, V[0], V[1]):
            with h.quiet():
                X, Y = sim(b, n), sim(n)
            h.close(X[1], Y[0], "the path of a sample does not depend on the sample before", 1e-11, model=w.desc(), pars=[b, n], init=s, resid=e)


def c09(h):
    for r, w, V in models(h, 2, "c09"):
        names = list(map(str, w.m.prior_names))
        how = int(r.integers(4))

        def run(before, now):
            m = w.m
            if how == 0:
                m.set_par(now, verbose=False)
            elif how == 1:
                m.set_par(full(w, now), verbose=False)
            elif how == 2:
                for k, v in zip(names, now):
                    m.set_par(k, v)
            else:
                m.fdict["mode_x"] = now.copy()
                m.set_par("mode", verbose=False)
            h.check(np.array_equal(m.get_par(full=False), now), "the values set are the values read", model=w.desc(), before=before, set=now, how=how)
            return m.precalc_mat[:4], m.hx, m.get_par("cov_mat")     # forecasts that are not consulted are not initialised
        compare(h, w, V, run, "the compiled system is that of the current parameters, however small the change", forms=False, how=how)


def c10(h):
    for r, w, V in models(h, 2, "c10"):
        with h.quiet():
            w.m.prep_estim(dry_run=False, linear=True, seed=0, verbose=0, ncores=0)
            w.m.filter.R = w.m.create_obs_cov(.3)
        compare(h, w, V, lambda before, now: [w.m.lprob(before, verbose=0), w.m.lprob(now, verbose=0)][1:],
                "the posterior is that of the given vector, however close to the one before", forms=False, data=w.data.values)


def c11(h):
    for r, w, V in models(h, 2, "c11"):
        kind = str(r.choice(["KF", "TEnKF", "reduced"]))

        def run(before, now):
            m = w.m
            m.create_filter(**(dict(ftype="KF") if kind == "KF" else dict(N=8, ftype="TEnKF", reduced_form=kind == "reduced", seed=0)))
            m.filter.R = m.create_obs_cov(.3)
            m.run_filter(smoother=False)
            m.set_par(now, verbose=False)
            P = []
            f = m.filter.batch_filter
            m.filter.batch_filter = lambda *a, **k: (P.append(np.array(m.filter.P)), f(*a, **k))[1]
            m.run_filter(smoother=False)
            return P[0], m.filter.Q
        compare(h, w, V, run, "initial covariance and shock covariance follow the parameters, however small the change", tol=1e-10, kind=kind)


def c12(h):
    for r, w, V in models(h, 2, "c12"):
        with h.quiet():
            w.m.create_filter(ftype="KalmanFilter")
            w.m.filter.R = w.m.create_obs_cov(.3)

        def ex(*P):
            d = w.m.extract(list(P), verbose=0)
            return [np.asarray(d["init"][-1], float), np.asarray(d["resid"][-1], float)]
        compare(h, w, V, lambda before, now: ex(now), "innovations are those under the given parameters, however close to those in use", tol=1e-9)
        for b, n in both(w, V[0], V[1]):
            with h.quiet():
                X, Y = ex(b, n), ex(n)
            h.close(flat(X), flat(Y), "innovations of a vector do not depend on the vector before", 1e-9, model=w.desc(), pars=[b, n])


def c13(h):
    for r, w, V in models(h, 2, "c13"):
        T = len(w.data)
        s, x = w.walk(r, 1, nonlinear=False)
        e = np.array([w.eps(r, w.spec.x_bar * 2.) for _ in range(T - 1)])

        def dec(*P):
            hd, mean = w.m.nhd(dict(init=np.array([s] * len(P)), pars=np.array(P), resid=np.array([e] * len(P))))
            return [x.values for x in hd] + [mean.values]
        compare(h, w, V, lambda before, now: dec(now), "a sample is decomposed under its parameters, however close to those in use", tol=1e-9, init=s, resid=e)
        for b, n in both(w, V[0], V[1]):
            with h.quiet(), contextlib.redirect_stderr(io.StringIO()):
                X, A, B = dec(b, n), dec(b), dec(n)
            for x, y, z in zip(X, A, B) if np.max(np.abs(flat(X))) < 1e4 else ():
                h.close(x, (y + z) / 2, "decompositions of several samples are averages", 1e-10, model=w.desc(), pars=[b, n], init=s, resid=e)


def c14(h):
    for r, w, V in models(h, 2, "c14"):
        s, x = w.walk(r, 1, nonlinear=False)
        S = np.array([s, s])
        e = np.array([w.eps(r, w.spec.x_bar * 2.)])
        kw = dict(horizon=int(r.choice([1, 4, 8])), linear=bool(r.integers(2)), verbose=0)
        fe = lambda *P: w.m.gfevd(dict(means=np.array([S] * len(P)), pars=np.array(P), resid=np.array([e] * len(P))), **kw).values
        compare(h, w, V, lambda before, now: fe(now), "responses of a sample are those under its parameters, however close to those in use", tol=1e-9, means=S, resid=e, options=kw)
        for b, n in both(w, V[0], V[1]):
            with h.quiet():
                X, Y = fe(b, n), fe(n, b)
            h.close(X, Y, "shares do not depend on the order of the samples", 1e-10, model=w.desc(), pars=[b, n], means=S, resid=e, options=kw)


def c18(h):
    for r, w, V in models(h, 2, "c18"):
        S = r.normal(size=(3, len(w.m.vv)))
        names = [str(p) for p in w.m.parameters]

        def const(p, f):
            v = full(w, p)
            for nm in ("y_mean", "pi_mean"):
                if nm in names:
                    v[names.index(nm)] *= f
            return v
        b, n = const(V[0], 1.), const(V[1], 1 + 3e-6)
        ob = lambda *P: np.asarray(w.m.o_func(np.array([S] * len(P)), pars=list(P)))
        compare(h, w, V, lambda before, now: ob(const(now, 1 + 3e-6)), "a series uses the equation of its own parameters, however close to those in use", forms=False, state=S)
        with h.quiet():
            X, Y = ob(b, n), ob(n)
            w.m.set_par("calib", verbose=False)
        h.close(X[1], Y[0], "a series does not use the equation of the vector before", 1e-12, model=w.desc(), pars=[b, n], state=S)
