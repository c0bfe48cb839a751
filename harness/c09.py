"""random sequences of setting and reading parameters against a plain dictionary of values; the compiled system against
the oracle of exactly these values"""
import numpy as np

BOUND = "random models with 2 to 4 estimated parameters in random order, sequences of up to 14 operations"


def make(h, r, i, name):
    from harness.lib import World
    from harness.models import random_spec, Oracle
    for _ in range(20):
        s = random_spec(r, name, dict(parafunc=bool(i % 2)))
        cand = [("rho_u", ["beta", .7, .1]), ("phi_pi", ["normal", 1.7, .2]), ("rho", ["uniform", .4, .8]), ("sig_u", ["inv_gamma_dynare", .3, 2]),
                ("beta", ["uniform", .97, .99])]
        pick = [cand[j] for j in r.permutation(len(cand))[:int(r.integers(2, 5))]]
        s.prior = {k: [s.par[k], s.par[k] * .1, s.par[k] * 3, d, a, b] for k, (d, a, b) in pick}
        try:
            Oracle(s)
            break
        except ValueError:
            continue
    return World(h, r, name, spec=s)


class Ref:
    """what the parameters should be"""

    def __init__(self, w):
        self.w, s = w, w.spec
        self.names = list(s.par) + ["x_bar"]
        self.calib = dict({k: float(v) for k, v in s.par.items()}, x_bar=float(s.x_bar))
        self.cur = dict(self.calib)
        self.est = list(s.prior)

    def dep(self, k):
        return eval(self.w.spec.parafunc[k], {}, dict(self.cur))


def verify(h, w, ref, r, info):
    with h.quiet():
        return _verify(h, w, ref, r, info)


def _verify(h, w, ref, r, info):
    from harness.models import Oracle
    m = w.m
    names = [str(p) for p in m.parameters]
    full = m.get_par()
    want = np.array([ref.cur[n] for n in names])
    ok = h.check(np.array_equal(full, want), "parameters read back as set, others keep their value (vector)", got=dict(zip(names, full)), want=ref.cur, **info)
    n = names[int(r.integers(len(names)))]
    h.check(m.get_par(n) == ref.cur[n], "parameters read back as set, others keep their value (by name)", name=n, got=m.get_par(n), want=ref.cur[n], **info)
    h.check(np.array_equal(m.get_par(full=False), [ref.cur[k] for k in ref.est]), "estimated parameters in the order of the prior", got=m.get_par(full=False), **info)
    d, pf = m.get_par(asdict=True, roundto=12)
    h.check(set(d) == set(names) and all(abs(d[k] - ref.cur[k]) < 1e-11 for k in names), "parameters read back as set, others keep their value (dict)", got=d, **info)
    d = m.get_par(asdict=True, full=False, roundto=12)
    h.check(set(d) == set(ref.est) and all(abs(d[k] - ref.cur[k]) < 1e-11 for k in ref.est), "estimated parameters by name", got=d, **info)
    for k in w.spec.parafunc:
        h.check(np.isclose(m.get_par(k), ref.dep(k)) and np.isclose(pf[k], ref.dep(k)), "dependent parameters follow", name=k, got=(m.get_par(k), pf[k]), want=ref.dep(k), **info)
    h.check(np.array_equal(m.get_par(), full), "reading does not change parameters", **info)
    if not ok:
        return False
    try:
        o = Oracle(w.spec, {k: v for k, v in ref.cur.items() if k != "x_bar"}, ref.cur["x_bar"])
    except ValueError:
        return True
    # a coefficient that is zero can turn a state into a control
    w.pos = {v: i for i, v in enumerate(m.vv)}
    s, x = np.zeros(len(m.vv)), np.zeros(o.n)
    for t in range(2):
        e = r.normal(size=o.m) * ref.cur["x_bar"]
        l, k = int(r.integers(3)), int(r.integers(3))
        s, x = m.t_func(s, e, set_k=(l, k), return_flag=False), o.step(x, e, l, k)
        w.same(h, s, x, "compiled system is that of the current parameters", **info)
    sd = np.diag([eval(str(w.spec.covs[str(k)]), {}, dict(ref.cur)) for k in m.shocks])
    h.close(m.get_par("cov_mat"), sd, "standard deviations are those of the current parameters", **info)
    return True


def chain(m, r, v):
    """a posterior sample around v"""
    c = v * r.uniform(.98, 1.01, size=(int(r.integers(3, 9)), 3, len(v)))

    class Sampler:
        def get_chain(self, flat=None):
            return c.copy()
    m.sampler, m.bptrans, m.tune = Sampler(), None, int(r.integers(1, len(c) + 1))
    return c


def op(h, w, ref, r, log):
    """one operation; returns False if the model has no solution afterwards"""
    m = w.m
    from harness.models import Oracle
    names = [str(p) for p in m.parameters]

    def near(k):
        v = ref.calib[k] * float(r.uniform(.93, 1.05))
        return v if k != "beta" else min(v, .995)

    def solvable(d):
        try:
            o = Oracle(w.spec, {k: v for k, v in d.items() if k != "x_bar"}, d["x_bar"])
            for l, k in ((0, 3), (2, 1)):
                o.rule(l, k)
            return True
        except (ValueError, ZeroDivisionError):
            return False
    kind = str(r.choice(["name", "est", "full", "set", "none", "unknown", "dep", "npar", "npar_est", "badset", "nomode", "gen_sys", "set", "given", "draws"]))
    before = dict(ref.cur)
    if kind == "name":
        k = names[int(r.integers(len(names)))]
        v = near(k)
        zero = [q for q in names if q not in ("x_bar", "beta") and solvable(dict(before, **{q: 0.}))] if r.integers(3) == 0 else []
        if zero:
            # zero is a value as any other
            k, v = zero[int(r.integers(len(zero)))], 0 if r.integers(2) else 0.
        new = dict(before, **{k: v})
        call = lambda: m.set_par(k, v)
        log.append(("set_par", k, v))
    elif kind == "est":
        v = np.array([near(k) for k in ref.est])
        new = dict(before, **dict(zip(ref.est, v)))
        a = v if r.integers(2) else list(v)
        call = lambda: m.set_par(a)
        log.append(("set_par", "estimated", list(v)))
    elif kind == "full":
        v = np.array([near(k) for k in names])
        new = dict(zip(names, v))
        a = v.copy() if r.integers(2) else list(v)
        call = lambda: m.set_par(a)
        log.append(("set_par", "all", list(v)))
    elif kind == "gen_sys":
        v = np.array([near(k) for k in names])
        new = dict(zip(names, v))
        a = v.copy() if r.integers(2) else list(v)

        def call():
            m.gen_sys(a, verbose=False)
            res = m.get_par()
            a[:] = [-1.] * len(a)       # the caller's vector is the caller's
            return res
        log.append(("gen_sys", "all", list(v)))
    elif kind == "set":
        k = str(r.choice(["calib", "prior_mean", "mode", "best", "init", "adj_prior_mean", "posterior_mean"]))
        new = dict(ref.calib)
        if k in ("prior_mean", "adj_prior_mean"):
            for p, x in w.spec.prior.items():
                new[p] = .5 * (x[4] + x[5]) if x[3] == "uniform" else float(x[4]) * (10 if k[0] == "a" and x[3] == "inv_gamma_dynare" else 1)
        v = np.array([near(q) for q in ref.est])
        mode = k == "mode" or k == "best" and bool(r.integers(2))
        if mode:
            m.fdict["mode_x"] = v.copy()
        elif k == "best":
            m.fdict.pop("mode_x", None)
        if k in ("best", "init"):
            m.ndim = len(ref.est)
            init = [None if r.integers(4) == 0 else float(x * 1.01) for x in v]
            m.fdict["init_value"] = list(init)
            if not mode:
                v = [ref.calib[q] if x is None else x for q, x in zip(ref.est, init)]
        if k == "posterior_mean":
            v = chain(m, r, v)[-m.tune:].reshape(-1, len(v)).mean(axis=0)
        if k in ("mode", "best", "init", "posterior_mean"):
            new.update(zip(ref.est, v))
        call = lambda: m.set_par(k)
        log.append(("set_par", k))
    elif kind == "given":
        # a vector instead of the current parameters
        v, f = np.array([near(k) for k in ref.est]), np.array([near(k) for k in names])
        log.append(("get_par", "vectors"))
        info = dict(log=list(log), model=w.desc(), v=v.copy(), f=f.copy(), current=dict(before))
        v0, f0 = v.copy(), f.copy()
        want = np.array([dict(before, **dict(zip(ref.est, v)))[k] for k in names])
        h.check(np.array_equal(m.get_par(v), want), "a vector of estimated parameters, completed by the current ones", got=m.get_par(v), **info)
        h.check(np.array_equal(m.get_par(v, full=False), v0), "a vector of estimated parameters", **info)
        h.check(np.array_equal(m.get_par(f, full=False), [f0[names.index(k)] for k in ref.est]), "the estimated ones of a full vector", got=m.get_par(f, full=False), **info)
        h.check(np.array_equal(m.get_par(npar=v), want) and np.array_equal(m.get_par(npar=f), f0), "reading from a given vector (vectors)", **info)
        for x, y in ((v, want), (f, f0)):
            for k in w.spec.parafunc:
                h.check(np.isclose(m.get_par(k, npar=x), eval(w.spec.parafunc[k], {}, dict(zip(names, y)))), "dependent parameters of a given vector", name=k, **info)
        h.check(np.array_equal(v, v0) and np.array_equal(f, f0), "given vectors are left alone", **info)
        return verify(h, w, ref, r, info)
    elif kind == "draws":
        # samples: the estimated ones as drawn, the others as calibrated
        c = chain(m, r, np.array([near(q) for q in ref.est]))
        n, full, src = int(r.integers(1, 5)), bool(r.integers(2)), str(r.choice(["post", "posterior", "prior"]))
        # whatever the others are set to at the moment
        rest = [k for k in names if k not in ref.est and not k.startswith("sig")]
        if rest and r.integers(3):
            k = rest[int(r.integers(len(rest)))]
            v = near(k)
            try:
                with h.quiet():
                    m.set_par(k, v)
                log.append(("set_par", k, v))
            except ValueError:
                pass
        log.append(("get_par", src, n, full))
        info = dict(log=list(log), model=w.desc(), chain=c, tune=m.tune)
        with h.quiet():
            got = np.array(m.get_par(src, nsamples=n, full=full, **(dict(try_parameter=False) if src == "prior" else {})))
            m.set_par("calib")
        ref.cur = dict(ref.calib)
        h.check(got.shape == (n, len(names) if full else len(ref.est)), "one line per draw", got=got, **info)
        est = got[:, [names.index(k) for k in ref.est]] if full else got
        ok = c[-m.tune:].reshape(-1, len(ref.est))
        if src == "prior":
            for j, k in enumerate(ref.est):
                x = w.spec.prior[k]
                lo, hi = (x[4], x[5]) if x[3] == "uniform" else (0, 1) if x[3] == "beta" else (0, np.inf) if x[3][0] == "i" else (x[4] - 9 * x[5], x[4] + 9 * x[5])
                h.check(np.all((est[:, j] >= lo) & (est[:, j] <= hi)), "draws are draws of the prior", name=k, got=got, **info)
            h.check(n == 1 or len(set(est[:, 0])) > 1, "draws differ", got=got, **info)
        else:
            h.check(all(any(np.array_equal(e, y) for y in ok) for e in est), "draws are parts of the chain", got=got, **info)
        if full:
            rest = [i for i, k in enumerate(names) if k not in ref.est]
            h.check(np.array_equal(got[:, rest], np.tile([ref.calib[names[i]] for i in rest], (n, 1))), "other parameters of a draw are as calibrated", got=got, **info)
        return verify(h, w, ref, r, info)
    elif kind == "none":
        new = before
        call = lambda: m.set_par()
        log.append(("set_par",))
    elif kind in ("unknown", "dep"):
        k = "nonsense" if kind == "unknown" or not w.spec.parafunc else list(w.spec.parafunc)[0]
        log.append(("set_par", k, .5))
        h.raises(lambda: m.set_par(k, .5), "setting an unknown or dependent parameter is refused", log=list(log), model=w.desc())
        return verify(h, w, ref, r, dict(log=list(log), model=w.desc()))
    elif kind == "nomode":
        m.fdict.pop("mode_x", None)
        log.append(("set_par", "mode", "does not exist"))
        call = m.set_par if r.integers(2) else m.get_par
        h.raises(lambda: call("mode"), "a set of parameters that does not exist is refused", log=list(log), model=w.desc())
        return verify(h, w, ref, r, dict(log=list(log), model=w.desc()))
    elif kind == "badset":
        log.append(("set_par", "no_such_set"))
        h.raises(lambda: m.set_par("no_such_set"), "an unknown set of parameters is refused", log=list(log), model=w.desc())
        return verify(h, w, ref, r, dict(log=list(log), model=w.desc()))
    else:
        est = kind == "npar_est"
        lst = ref.est if est else names
        v = np.array([near(k) for k in lst])
        keep = v.copy()
        k = lst[int(r.integers(len(lst)))]
        to = float(r.choice([3., 0., -1.5]))
        log.append(("set_par", k, to, "npar"))
        info = dict(log=list(log), model=w.desc(), names=lst, npar=keep)
        from harness.lib import snap
        s0 = snap(m)
        got = m.set_par(k, to, npar=v)
        want = keep.copy()
        want[lst.index(k)] = to
        h.check(np.array_equal(got, want), "altering a given vector returns the altered vector", got=got, **info)
        h.check(np.array_equal(v, keep) and got is not v, "altering a given vector leaves the given one alone", **info)
        h.check(snap(m) == s0, "altering a given vector leaves the model alone", **info)
        j = lst[int(r.integers(len(lst)))]
        h.check(m.get_par(j, npar=v) == keep[lst.index(j)], "reading from a given vector", name=j, **info)
        return verify(h, w, ref, r, info)
    if not solvable(new):
        log.pop()
        return True
    with h.quiet():
        got = call()
    ref.cur = new
    info = dict(log=list(log), model=w.desc())
    h.check(np.array_equal(got, [new[k] for k in names]), "setting returns the new parameters", got=got, **info)
    if kind == "full" and not isinstance(a, list):
        a[:] = -1.
    return verify(h, w, ref, r, info)


def run(h):
    for i in h.cases("models", 60 if h.thorough else 14, 6):
        r = h.rng("models", i)
        with h.guard("setting parameters", case=i):
            w = make(h, r, i, "c09_%d" % i)
            ref, log = Ref(w), []
            for j in range(14):
                if not op(h, w, ref, r, log):
                    break
