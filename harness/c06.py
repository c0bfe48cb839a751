"""random models, samples of parameters, innovations and initial states, masks: simulated paths against the recursion of
the oracle under each sample's parameters; durations and flags against the transitions; inputs and model unchanged"""
import numpy as np

BOUND = "random models, up to 4 samples of up to 10 periods, masks with random missing entries and several operations"


def draws(h, w, r, n):
    from harness.models import Oracle
    m = w.m
    base = np.array([w.spec.par[x] for x in m.prior_names])
    P, O = [], []
    for _ in range(50):
        p = base * r.uniform(.9, 1.08, size=len(base))
        try:
            o = Oracle(w.spec, dict(zip(m.prior_names, p)))
        except ValueError:
            continue
        P.append(p)
        O.append(o)
        if len(P) == n:
            break
    return P, O


def run(h):
    from harness.lib import World, snap
    for i in h.cases("models", 60 if h.thorough else 12, 5):
        r = h.rng("models", i)
        lk = [(None, None), (2, 6), (3, 8)][i % 3]
        with h.guard("simulation", case=i):
            w = World(h, r, "c06_%d" % i, dict(two_shocks=True, cnst_shock=bool(i % 2)), l_max=lk[0], k_max=lk[1])
            for j in range(4):
                one(h, w, r, snap)
            mask(h, w, r, snap)
            reordered(h, w, r)


def one(h, w, r, snap):
    m = w.m
    n, T = int(r.integers(1, 5)), int(r.integers(1, 10))
    P, O = draws(h, w, r, n)
    n = len(P)
    full = bool(r.integers(2))
    if full:        # vectors of all parameters
        A = []
        for p in P:
            a = m.par_fix.copy()
            a[m.prior_arg] = p
            A.append(a)
    else:
        A = [p.copy() for p in P]
    eps = [np.array([w.eps(r, w.spec.x_bar * float(r.choice([.3, 2.]))) for _ in range(T)]) for _ in range(n)]
    for e in eps:           # some innovations are exactly zero
        e[r.random(e.shape) < .2] = 0.
    init, xs = [], []
    for o in O:
        w.oracle, keep = o, w.oracle
        with h.quiet():
            m.set_par(A[len(init)])
        s, x = w.walk(r, int(r.integers(0, 3)), nonlinear=False)
        w.oracle = keep
        init.append(s)
        xs.append(x)
    with h.quiet():
        m.set_par("calib")
    lin = bool(r.integers(4) == 0)
    kw = dict(linear=lin) if lin or r.integers(2) else {}
    eff = [e.copy() for e in eps]
    mk = None
    if r.integers(2):
        mk = np.where(r.random((T, w.oracle.m)) < .5, np.nan, r.choice([0., 1., 2.5, -1.], size=(T, w.oracle.m)))
        op, f = [(None, lambda a, b: a * b), (np.multiply, lambda a, b: a * b), (np.add, lambda a, b: a + b),
                 (lambda a, b: a - 2 * b, lambda a, b: a - 2 * b)][int(r.integers(4))]
        kw["mask"] = mk.copy()
        if op is not None:
            kw["operation"] = op
        for e in eff:
            for t in range(T):
                for q in range(e.shape[1]):
                    if mk[t, q] == mk[t, q]:
                        e[t, q] = f(mk[t, q], e[t, q])
    src = dict(pars=A, resid=[e.copy() for e in eps], init=[s.copy() for s in init])
    a = {}
    if r.integers(2):
        a = dict(source=src)
    else:
        a = dict(src)
    if "source" in a and r.integers(2):      # explicit arguments win over the source
        a["init"] = src["init"]
        a["source"] = dict(src, init=[s + 1. for s in init])
    info = dict(model=w.desc(), pars=A, names=m.prior_names, eps=eps, init=init, mask=mk, options={k: repr(v) for k, v in kw.items() if k != "mask"})
    before = snap(m)
    with h.quiet():
        X, (L, K), fl = m.simulate(**a, **kw)
    h.check(before == snap(m), "the model is not modified", **info)
    h.check(all(np.array_equal(x, y) for x, y in zip(src["resid"], eps)) and all(np.array_equal(x, y) for x, y in zip(src["init"], init))
            and (mk is None or np.array_equal(kw["mask"], mk, equal_nan=True)), "inputs are not modified", **info)
    X, L, K, fl = np.asarray(X), np.asarray(L), np.asarray(K), np.asarray(fl)
    if not h.check(X.shape == (n, T + 1, len(m.vv)) and L.shape == (n, T) and K.shape == (n, T) and fl.shape == (n,),
                   "one path per sample, one period per innovation", got=(X.shape, L.shape, K.shape, fl.shape), **info):
        return
    for i in range(n):
        h.check(np.array_equal(X[i, 0], init[i]), "path starts at the initial state", sample=i, **info)
        x, err, sure = xs[i], 0, True
        for t in range(T):
            f = (0, 0, 0) if lin else O[i].search(x, eff[i][t], w.L, w.K)
            if f is None:
                sure = False
                break
            if not h.check((int(L[i, t]), int(K[i, t])) == f[:2], "durations are those of the transition", sample=i, t=t,
                           got=(L[i, t], K[i, t]), want=f[:2], **info):
                sure = False
                break
            err |= f[2]
            try:
                x = O[i].step(x, eff[i][t], f[0], f[1])
            except ValueError:
                sure = False
                break
            if np.max(np.abs(x)) > 1e5 or not w.same(h, X[i, t + 1], x, "entry is the transition of the preceding one", sample=i, t=t, **info):
                sure = False
                break
        if sure:
            h.check(bool(fl[i]) == bool(err), "flags are those of the transitions of the sample", sample=i, got=fl[i], want=err, **info)


def mask(h, w, r, snap):
    """the default mask: missing everywhere, one row per innovation, one column per shock"""
    import pandas as pd
    m = w.m
    T = int(r.integers(2, 9))
    names = [str(o) for o in m.observables]
    d = pd.DataFrame(r.normal(size=(T, len(names))), columns=names, index=pd.RangeIndex(3, 3 + T))
    d0 = d.copy()
    m.load_data(d)
    before = snap(m)
    k = m.mask
    info = dict(model=w.desc(), data=d.values, columns=list(map(str, k.columns)))
    h.check(before == snap(m) and np.array_equal(m.data.values, d0.values) and list(m.data.columns) == names, "data is not modified", **info)
    h.check(k.shape == (T - 1, len(names)) and bool(np.all(np.isnan(k.values.astype(float)))), "default mask is missing everywhere", got=k.values, **info)
    ns = min(len(m.shocks), len(names))
    h.check(list(map(str, k.columns))[:ns] == [str(s) for s in m.shocks][:ns], "default mask is labelled with the shocks", **info)
    h.check(list(k.index) == list(d0.index[:-1]), "default mask has one row per innovation", **info)
    if len(m.shocks) != len(names):
        return
    # a mask of this form leaves innovations unchanged
    P, O = draws(h, w, r, 1)
    eps = np.array([w.eps(r, .1) for _ in range(T - 1)])
    s, _ = w.zero()
    with h.quiet():
        a = m.simulate(pars=P, resid=[eps], init=[s], mask=k)[0]
        b = m.simulate(pars=P, resid=[eps], init=[s])[0]
    h.check(np.array_equal(a, b), "default mask leaves the innovations unchanged", **info)


def reordered(h, w, r):
    """parameters under which the variables come in another order: refused, or the paths of the model's variables"""
    from harness.lib import reordering
    z = reordering(h, w)
    if z is None:
        return
    p, o, order = z
    m, T = w.m, 4
    eps = r.normal(size=(T, o.m)) * w.spec.x_bar * .1
    zero = np.zeros(len(m.vv))
    try:
        with h.quiet():
            X = m.simulate(pars=[m.par_fix, p], resid=[eps, eps], init=[zero, zero], linear=True)[0]
    except Exception:
        return
    x = np.zeros(o.n)
    for t in range(T):
        x = o.step(x, eps[t], 0, 0)
        if not w.same(h, X[1][t + 1], x, "paths are those of the model's variables", t=t, model=w.desc(), pars=p, order=order):
            break
