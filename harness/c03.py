"""random models, regimes and states: expected trajectories and distance maps against the expected path of the declared
model; repeated after changes of parameters and maximal durations (stale tables); the forecasts that the search
consults against the trajectories"""
import numpy as np

BOUND = "random models; sequences of up to 4 recompilations with other parameters or maximal durations"


def run(h):
    from harness.lib import World
    from harness.models import Oracle
    for i in h.cases("models", 60 if h.thorough else 7, 3):
        r = h.rng("models", i)
        lk = [(None, None), (2, 4), (1, 3), (3, 8), (None, 2), (5, 12), (2, 1)][i % 7]
        with h.guard("trajectories", case=i, sizes=lk):
            w = World(h, r, "c03_%d" % i, l_max=lk[0], k_max=lk[1])
            w.par = {}
            log = []
            for step in range(4):
                forecasts(h, w, r, log)
                trajectories(h, w, r, log)
                # recompile with other parameters and possibly other sizes
                a = {}
                pars = [p for p in ("rho", "phi_pi", "phi_y", "rho_u") if p in w.spec.par]
                nm = pars[int(r.integers(len(pars)))]
                val = w.spec.par[nm] * float(r.uniform(.9, 1.1))
                if r.integers(2):
                    w.l_max, w.k_max = int(r.integers(1, 5)), int(r.integers(1, 9))
                    a = dict(l_max=w.l_max, k_max=w.k_max)
                try:
                    o = Oracle(w.spec, dict(w.par, **{nm: val}))
                except ValueError:
                    continue
                with h.quiet():
                    w.m.set_par(nm, val, **a)
                w.par[nm] = val
                w.oracle = o
                log.append((nm, val, a))
                w.L, w.K = w.m.precalc_mat[5].shape[1:]
                h.check((w.L, w.K) == w.lk, "tables have the requested size", log=log, got=(w.L, w.K), want=w.lk)


def ok_scale(f):
    return np.max(np.abs(f)) < 1e4


def trajectories(h, w, r, log):
    n = w.L + w.K
    for j in range(10):
        s, x = w.walk(r, int(r.integers(3)), nonlinear=False)
        e = w.eps(r, 1.)
        l, k = int(r.integers(w.L)), int(r.integers(w.K))
        try:
            f = w.oracle.path(x, e, l, k, n)[1]
        except ValueError:
            h.skips += 1
            continue
        got = w.m.traj(w.qvec(s, e), l=l, k=k, verbose=False)
        ok = len(got) == n and np.all(np.abs(got - f) <= 1e-6 * (1 + np.max(np.abs(f))))
        h.check(ok, "trajectory under an imposed regime", model=w.desc(), log=log, l=l, k=k, state=s, eps=e,
                got=got, want=f)
        reg = w.oracle.search(x, e, w.L, w.K)
        if reg is not None:
            f = w.oracle.path(x, e, reg[0], reg[1], n)[1]
            got = w.m.traj(w.qvec(s, e), verbose=False)
            ok = len(got) == n and np.all(np.abs(got - f) <= 1e-6 * (1 + np.max(np.abs(f))))
            h.check(ok, "trajectory under the regime found", model=w.desc(), log=log, state=s, eps=e, regime=reg,
                    got=got, want=f)
        # distances to the bound after the spell
        lm, km = w.L - 1, w.K - 1
        for given in (True, False):
            if given:
                LS, KS = w.m.k_map(w.qvec(s, e), l=l, k=k, verbose=False)
                ll, kk = l, k
            elif reg is not None:
                LS, KS = w.m.k_map(w.qvec(s, e), verbose=False)
                ll, kk = reg[:2]
            else:
                continue
            try:
                wl = np.array([w.oracle.path(x, e, a, kk, a + kk + 1)[1][a + kk] for a in range(lm)]) - w.oracle.x_bar
                wk = np.array([w.oracle.path(x, e, ll, b, ll + b + 1)[1][ll + b] for b in range(km)]) - w.oracle.x_bar
            except ValueError:
                continue
            for nm, a, b in (("waiting time", LS, wl), ("duration", KS, wk)):
                ok = a.shape == b.shape and (len(b) == 0 or np.all(np.abs(a - b) <= 1e-6 * (1 + np.max(np.abs(b)))))
                h.check(ok, "distance to the bound by " + nm, model=w.desc(), log=log, l=ll, k=kk, state=s, eps=e,
                        got=a, want=b)


def forecasts(h, w, r, log):
    """the tabulated forecasts of the search, as far as it consults them"""
    bm, bt = w.m.precalc_mat[4:6]
    s, x = w.walk(r, 2, nonlinear=False)
    e = w.eps(r, 1.)
    q = w.qvec(s, e)
    for l in range(w.L):
        for k in range(w.K):
            try:
                f = w.oracle.path(x, e, l, k, l + k + 1)[1]
            except ValueError:
                continue
            sc = 1 + np.max(np.abs(f))
            for j, pos, used in ((0, 0, l > 0 and k > 0), (1, l - 1, l > 1 and k > 0), (2, l, True), (3, l + k - 1, k > 1),
                                 (4, l + k, k > 0)):
                if used:
                    got = bm[j, l, k] @ q + bt[j, l, k]
                    h.check(abs(got - f[pos]) <= 1e-6 * sc, "tabulated forecast at position %d" % j, model=w.desc(),
                            log=log, l=l, k=k, state=s, eps=e, got=got, want=f[pos])
