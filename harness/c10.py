"""random models and data: log posterior against prior plus likelihood of the Kalman filter of the oracle (linear) or of a
fresh model (ensemble filter); failures of model and filter; random state; order of evaluations"""
import warnings
import numpy as np

BOUND = "random models with two or three observables, up to 16 periods of data, linear filter and ensemble filter with up to 12 members"


def inside(w, p):
    return dict(zip(w.spec.prior, p))


def candidates(w, r):
    """(kind, vector): ordinary ones, such without prior support, such without a solution, no numbers"""
    base = np.array([w.spec.par[k] for k in w.spec.prior])
    out = []
    for _ in range(3):
        out.append(("fine", base * r.uniform(.93, 1.07, size=len(base))))
    names = list(w.spec.prior)
    for k, v in (("rho_u", 1.2), ("rho", 1.3), ("sig_u", -.3), ("rho_z", -.1)):
        if k in names:
            q = base.copy()
            q[names.index(k)] = v
            out.append(("no prior", q))
    if "phi_pi" in names:
        q = base.copy()
        q[names.index("phi_pi")] = float(r.choice([.2, -.5, .6]))
        out.append(("no solution", q))
    q = base.copy()
    q[int(r.integers(len(q)))] = np.nan
    out.append(("nan", q))
    return out


def state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2], s[3], s[4]


def run(h):
    from harness import estim
    for i in h.cases("models", 50 if h.thorough else 10, 5):
        r = h.rng("models", i)
        with h.guard("posterior", case=i):
            lin = bool(i % 3 != 2)
            w = estim.world(h, r, "c10_%d" % i, T=None if lin else 6)
            one(h, w, r, lin, i)


def one(h, w, r, lin, i):
    from emcwrap import get_prior
    from harness import estim
    from harness.models import Oracle
    m = w.m
    N = int(r.integers(8, 13))
    seed = int(r.integers(0, 5))
    trans = bool(r.integers(2))
    kw = dict(seed=seed, linear=lin, verbose=0, ncores=0, use_prior_transform=trans)
    if not lin:
        kw.update(N=N, l_max=3, k_max=5, reduced_form=bool(r.integers(2)))
    with h.quiet():
        m.prep_estim(dry_run=bool(lin), **kw)
        R = np.diag(np.var(w.data.values, axis=0)) * .2 ** 2
        m.filter.R = R.copy()
        _, lprior, bptrans, _, _ = get_prior(m.prior, verbose=False)
    names = list(w.spec.prior)
    info0 = dict(model=w.desc(), data=w.data.values, options={k: v for k, v in kw.items()})
    fix0 = m.par_fix.copy()
    seen = {}

    def value(p):
        """prior and likelihood of these parameters by other means; None: not decided"""
        lp = lprior(p)
        if np.isinf(lp):
            return lp, None
        if np.any(np.isnan(p)):
            return lp, -np.inf
        try:
            o = Oracle(w.spec, inside(w, p))
        except ValueError as e:
            return lp, (-np.inf if "no unique" in str(e) else None)
        if lin:
            try:
                return lp, estim.loglik(o, estim.stds(w, o.P), R, w.data.values)
            except ValueError:
                return lp, None
        return lp, fresh(h, w, p, kw, R)
    vecs = candidates(w, r)
    order = [vecs[j] for j in r.permutation(len(vecs))] + [vecs[0], vecs[1]]
    for kind, p in order:
        temp = float(r.choice([1., 1., .3, 2., 0.]))
        if kind == "nan" and temp == 0:
            temp = 1.
        tr = trans
        a = {}
        if r.integers(2):
            tr = bool(r.integers(2))
            a["use_prior_transform"] = tr
        if temp != 1. or r.integers(2):
            a["temp"] = temp
        with np.errstate(all="ignore"):
            x = bptrans(p, False) if tr else p.copy()
        if tr and np.any(np.isnan(x)) and kind != "nan":
            continue
        keep = x.copy()
        np.random.seed(int(r.integers(1000)))
        s0 = state()
        info = dict(par=p, names=names, kind=kind, args=a, **info0)
        with h.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = m.lprob(x, **a)
        h.check(state() == s0, "the global random state is left as it was", **info)
        h.check(np.array_equal(x, keep, equal_nan=True), "the given vector is not modified", **info)
        h.check(np.array_equal(m.par_fix, fix0), "the fixed parameters are not modified", **info)
        if not h.check(np.ndim(got) == 0 and not np.isnan(got), "the posterior is a number", got=got, **info):
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            q = bptrans(x) if tr else p
            lp, ll = value(q)
        if np.isinf(lp):
            h.check(got == -np.inf, "minus infinity without prior support", got=got, **info)
        elif temp == 0.:
            h.check(np.isclose(got, lp), "temperature zero: the prior", got=got, want=lp, **info)
        elif ll is not None:
            if np.isinf(ll):
                h.check(got == -np.inf, "minus infinity if the model cannot be solved", got=got, **info)
            elif np.isinf(got):
                h.note("no finite posterior")
                h.check(fails(h, w, q, kw, R), "finite posterior if model and filter work", want=lp + temp * ll, **info)
            else:
                h.note("finite posterior compared")
                h.check(abs(got - lp - temp * ll) < 1e-6 * (1 + abs(lp) + abs(ll)), "posterior is prior plus temperature times likelihood", got=got, want=lp + temp * ll, prior=lp, like=ll, **info)
        key = (tuple(keep), tr, temp)
        if key in seen:
            h.check(got == seen[key] , "posterior does not depend on earlier evaluations", got=got, want=seen[key], **info)
        seen[key] = got
    # the same vector again, and with another order of evaluations in between
    p = vecs[0][1]
    f = lambda: m.lprob(p.copy(), use_prior_transform=False)
    with h.quiet():
        a, b, _, c = f(), f(), m.lprob(vecs[1][1].copy(), use_prior_transform=False), f()
    h.check(a == b == c, "posterior does not depend on earlier evaluations", got=(a, b, c), par=p, **info0)
    # nor on what the model is set to in between
    j = [n for n in w.spec.par if n not in names and not n.startswith("sig")]
    for q in ("par", "durations"):
        try:
            with h.quiet():
                if q == "par":
                    k = j[int(r.integers(len(j)))]
                    m.set_par(k, float(w.spec.par[k]) * 1.01)
                else:
                    m.set_par("calib", l_max=2, k_max=3)
        except ValueError:
            continue
        with h.quiet():
            c = f()
        h.check(a == c, "posterior does not depend on what the model was set to before", got=(a, c), set=q, par=p, **info0)
    # other fixed parameters can be handed over
    fx = fix0.copy()
    k = [n for n in w.spec.par if n not in names][0]
    j = [str(q) for q in m.parameters].index(k)
    fx[j] *= 1.001
    with h.quiet():
        m.lprob(p.copy(), par_fix=fx, use_prior_transform=False)
        d = f()
    h.check(a == d, "fixed parameters handed over to one evaluation do not affect others", got=(a, d), par=p, **info0)
    # failures of the filter
    for what in ("nan", "error", "zero division", "key", "any", "attribute", "warning"):
        keepf = m.filter.batch_filter

        def bad(*aa, **kk):
            np.random.rand(3)
            if what == "error":
                raise RuntimeError("filter failed")
            if what == "zero division":
                raise ZeroDivisionError()
            if what != "nan":
                raise dict(key=KeyError, any=Exception, attribute=AttributeError, warning=UserWarning)[what]("filter failed")
            return (None, None, np.nan) if m.filter.name == "KalmanFilter" else np.nan
        m.filter.batch_filter = bad
        s0 = state()
        try:
            with h.quiet():
                got = m.lprob(p.copy(), use_prior_transform=False, verbose=int(r.integers(0, 3)))
                ok = got == -np.inf
        except Exception as e:
            got, ok = repr(e), False
        finally:
            m.filter.batch_filter = keepf
        h.check(ok, "minus infinity if the filter fails or returns no number", got=got, what_failed=what, par=p, **info0)
        h.check(state() == s0, "the global random state is left as it was", what_failed=what, **info0)


def _fresh(h, w, p, kw, R, strict=False):
    import pydsge
    with h.quiet():
        f = pydsge.DSGE.read(w.file)
        f.load_data(w.data.copy())
        f.prep_estim(dry_run=False, **{k: v for k, v in kw.items()})
        f.filter.R = R.copy()
        full = np.array(f.par_fix)
        full[[[str(q) for q in f.parameters].index(k) for k in w.spec.prior]] = p
        with warnings.catch_warnings():
            if strict:
                warnings.simplefilter("error")
            f.set_par(full, l_max=1 if kw["linear"] else kw["l_max"], k_max=0 if kw["linear"] else kw["k_max"])
            np.random.seed(kw["seed"])
            return f.run_filter(smoother=False, get_ll=True)


def fresh(h, w, p, kw, R):
    s = np.random.get_state()
    try:
        return _fresh(h, w, p, kw, R)
    except Exception:
        return None
    finally:
        np.random.set_state(s)


def fails(h, w, p, kw, R):
    """does a model prepared from scratch fail, too, if warnings count as failures?"""
    try:
        return bool(np.isinf(_fresh(h, w, p, kw, R, True)))
    except Exception:
        return True
