"""random models, schedules, initial states and regime options: every reported period is the solution of the declared
model under the reported regime; the reported regime is the imposed countdown, the one found, or one period closer to
the end of the previous one; several parameter vectors against single runs; refusal; model unchanged"""
import numpy as np

BOUND = "random models, up to 4 shocks in up to 14 periods, random initial states and regime options"


def schedule(r, w, T):
    """a list in any of the accepted forms, and the innovations it stands for"""
    out, e = [], np.zeros((T, w.oracle.m))
    n = int(r.integers(0, 4))
    used = set()
    for _ in range(n):
        s = int(r.integers(w.oracle.m))
        size = float(np.round(r.normal() * w.spec.x_bar * r.choice([1., 4., 12.]), 3))
        c = int(r.integers(5))
        t = int(r.choice([0, 0, 1, 2, T - 1, T, int(r.integers(T))]))
        if c == 0:
            item, size, t = w.spec.shocks[s], 1., 0
        elif c == 1:
            item, t = (w.spec.shocks[s], size), 0
        else:
            item = (w.spec.shocks[s], size, t)
        if (s, t) in used:
            continue
        used.add((s, t))
        out.append(item)
        if t < T:
            e[t, s] = size
    return out, e


def countdown(l, k):
    return (l - 1, k) if l else (0, max(k - 1, 0))


def imposed(set_k, t):
    """regime in period t if set_k is imposed in period 0"""
    l, k = set_k if isinstance(set_k, tuple) else (0, set_k)
    for _ in range(t):
        l, k = countdown(l, k)
    return l, k


def run(h):
    from harness.lib import World, snap
    for i in h.cases("models", 60 if h.thorough else 16, 6):
        r = h.rng("models", i)
        lk = [(None, None), (2, 6), (3, 8), (2, 3)][i % 4]
        with h.guard("impulse responses", case=i):
            w = World(h, r, "c05_%d" % i, dict(two_shocks=True) if i % 2 else None, l_max=lk[0], k_max=lk[1])
            for j in range(16):
                one(h, w, r, snap)
            several(h, w, r, snap)
            refuse(h, w, r)
            reordered(h, w, r)


def one(h, w, r, snap):
    m, o = w.m, w.oracle
    T = int(r.integers(1, 15))
    sl, e = schedule(r, w, T)
    kw = {}
    c = int(r.integers(6))
    if c == 0:
        kw["linear"] = True
    elif c == 1:
        kw["set_k"] = (int(r.integers(w.L)), int(r.integers(w.K)))
    elif c == 2:
        kw["set_k"] = int(r.integers(1, w.K))
    elif c == 3 and r.integers(2):
        kw["set_k"] = None
    if r.integers(3) == 0:
        kw["force_init_equil"] = bool(r.integers(2))
    s0, x0 = w.zero()
    if r.integers(2):
        s0, x0 = w.walk(r, int(r.integers(1, 4)), scale=2.)
        kw["state"] = s0.copy()
    arg = sl[0] if len(sl) == 1 and r.integers(2) else list(sl)
    before, keep = snap(m), repr(arg)
    info = dict(model=w.desc(), shocks=repr(arg), T=T, options={k: repr(v) for k, v in kw.items()}, table=(w.L, w.K))
    with h.quiet():
        X, LK, flag = m.irfs(arg, T=T, verbose=int(r.integers(3)), **kw)
    h.check(before == snap(m), "the model is not modified", **info)
    h.check(repr(arg) == keep and ("state" not in kw or np.array_equal(kw["state"], s0)), "inputs are not modified", **info)
    h.check(list(X.columns) == list(m.vv) and X.shape == (T, len(m.vv)), "labelled with the variables", **info)
    L, K = np.asarray(LK, float)
    if not h.check(L.shape == (T,) and K.shape == (T,), "durations of every period", **info):
        return
    lin = kw.get("linear")
    sk = kw.get("set_k")
    free = sk is None or sk is False
    x, prev, err, sure = x0, (0, 0), 0, True
    for t in range(T):
        reg = int(L[t]), int(K[t])
        if not h.check(reg == (L[t], K[t]) and 0 <= reg[0] < w.L and 0 <= reg[1] < w.K, "a tabulated regime is reported", t=t, got=(L[t], K[t]), **info):
            return
        hit = bool(np.any(e[t]))
        force = kw.get("force_init_equil")
        # the first period counts from (0,0): observation in DESIGN.md
        forced = not hit and (force or (force is None and free))
        if lin:
            h.check(reg == (0, 0), "linear responses ignore the constraint", t=t, got=reg, **info)
        else:
            want = imposed(sk, t) if not free else None
            if want is None:
                f = o.search(x, e[t], w.L, w.K)
                if f is None:
                    return
                want = f[:2]
                err |= f[2]
                sure &= not (forced and f[2])
            ok = [want] + ([countdown(*prev)] if forced else [])
            if not free and force and not hit:
                ok.append(countdown(*prev))
            if not h.check(reg in ok, "regime is the one imposed, found, or one period closer to the end of the last one", t=t,
                           got=reg, admissible=ok, reported=[L, K], innovations=e, **info):
                return
            if reg != want:
                sure = False
        try:
            x = o.step(x, e[t], *reg)
        except ValueError:
            return
        if np.max(np.abs(x)) > 1e5:
            return
        if not w.same(h, X.values[t], x, "period is the transition of the last one under the reported regime", t=t, innovations=e,
                      reported=[L, K], **info):
            return
        prev = reg
    if sure:
        h.check(bool(flag) == bool(err), "error flag is that of the transitions", got=flag, want=err, **info)


def several(h, w, r, snap):
    """several parameter vectors"""
    from harness.models import Oracle
    m = w.m
    T = int(r.integers(2, 9))
    sl, e = schedule(r, w, T)
    base = np.array([w.spec.par[n] for n in m.prior_names])
    P = []
    while len(P) < 3:
        p = base * r.uniform(.92, 1.06, size=len(base))
        try:
            Oracle(w.spec, dict(zip(m.prior_names, p)))
            P.append(p)
        except ValueError:
            p = None
            base = base * .99
    P.append(P[0])
    before = snap(m)
    info = dict(model=w.desc(), shocks=repr(sl), T=T, pars=P, names=m.prior_names)
    kw = dict(T=T, verbose=0)
    if r.integers(2):
        kw["set_k"] = (int(r.integers(w.L)), int(r.integers(w.K)))
    with h.quiet():
        X, LK, fl = m.irfs(sl, np.array(P), **kw)
        h.check(before == snap(m), "several parameter vectors: the model is not modified", **info)
        Y = [m.irfs(sl, p, **kw) for p in P]
        h.check(before == snap(m), "one parameter vector: the model is not modified", **info)
    h.check(np.shape(X) == (len(P), T, len(m.vv)) and np.shape(fl) == (len(P),), "one set of responses per vector", **info)
    LKs = np.asarray(LK)
    for n, p in enumerate(P):
        with h.quiet():
            vv = [str(v) for v in m.vv]
        h.check(np.array_equal(X[n], Y[n][0].values), "responses of several vectors are those of each vector", n=n, got=X[n], want=Y[n][0].values, **info)
        a = np.asarray(Y[n][1])
        h.check(np.array_equal(LKs[n], a[0]) and np.array_equal(LKs[len(P) + n], a[1]), "durations of several vectors are those of each vector", n=n, **info)
        h.check(bool(fl[n]) == bool(Y[n][2]), "error flags of several vectors are those of each vector", n=n, **info)
        o = Oracle(w.spec, dict(zip(m.prior_names, p)))
        x = np.zeros(o.n)
        for t in range(T):
            try:
                x = o.step(x, e[t], int(a[0][t]), int(a[1][t]))
            except ValueError:
                break
            if np.max(np.abs(x)) > 1e5 or not w.same(h, X[n][t], x, "responses use the given parameters", t=t, n=n, **info):
                break


def refuse(h, w, r):
    for sk in ((w.L, 1), (0, w.K), (1, w.K + 2), (w.L + 3, 0), w.K, w.K + 5):
        info = dict(model=w.desc(), table=(w.L, w.K), set_k=repr(sk))
        with h.quiet():
            h.raises(lambda: w.m.irfs((w.spec.shocks[0], .1, 0), T=4, set_k=sk, verbose=0), "imposed regime beyond the tables is refused", IndexError, **info)


def reordered(h, w, r):
    """parameters under which the variables come in another order: refused, or the responses of the labelled variables"""
    from harness.lib import reordering
    z = reordering(h, w)
    if z is None:
        return
    p, o, order = z
    m, T = w.m, 4
    info = dict(model=w.desc(), pars=p, names=[str(q) for q in m.parameters], order=order)
    for P in (p, np.array([m.par_fix, p])):
        try:
            with h.quiet():
                X, LK, fl = m.irfs([(w.spec.shocks[0], w.spec.x_bar * .1, 0)], P, T=T, linear=True, verbose=0)
        except Exception:
            continue
        Y = X[list(m.vv)].values if P is p else X[1]
        x, e = np.zeros(o.n), np.zeros((T, o.m))
        e[0, 0] = w.spec.x_bar * .1
        for t in range(T):
            x = o.step(x, e[t], 0, 0)
            if not w.same(h, Y[t], x, "responses belong to the variables they are labelled with", t=t, **info):
                break
