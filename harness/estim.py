"""models with data, and a Kalman filter on the companion form of the oracle"""
import numpy as np


def world(h, r, name, big=None, T=None, unit=1., **feat):
    """a random model with as many observables as shocks, and data"""
    from harness.lib import World, Skip
    from harness.models import random_spec, Oracle
    import pandas as pd
    big = bool(r.integers(2)) if big is None else big
    f = dict(two_shocks=True, cnst_shock=big, static=big)
    f.update(feat)
    for _ in range(30):
        s = random_spec(r, name, f)
        if r.integers(3) == 0:
            # the unit in which a shock is measured does not matter
            k = s.shocks[int(r.integers(len(s.shocks)))]
            u = float(r.choice([1e-3, 1e-4, 1e-5]))
            scaled = lambda t: [("%r*(%s)" % (u, c) if v == k else c, v, l) for c, v, l in t]
            s.eqs = [(a, scaled(t)) for a, t in s.eqs]
            s.cnst = (s.cnst[0], scaled(s.cnst[1]))
            s.covs[k] = "(%s)*%r" % (s.covs[k], 1 / u)
        if unit != 1.:
            s.covs = {k: "(%s)*%r" % (v, unit) for k, v in s.covs.items()}
        cand = [("rho_u", ["beta", .7, .1]), ("phi_pi", ["normal", 1.7, .4]), ("rho", ["uniform", .2, .95]), ("sig_u", ["inv_gamma_dynare", .4, 2]),
                ("rho_z", ["beta", .6, .2])]
        pick = [cand[j] for j in r.permutation(len(cand))[:int(r.integers(2, 5))]]
        s.prior = {k: [s.par[k], s.par[k] * .1, s.par[k] * 3, d, a, b] for k, (d, a, b) in pick}
        try:
            o = Oracle(s)
            mean = {k: (.5 * (x[4] + x[5]) if x[3] == "uniform" else x[4]) for k, x in s.prior.items()}
            Oracle(s, mean)
            break
        except ValueError:
            continue
    else:
        raise Skip("no model")
    w = World(h, r, name, spec=s)
    T = T or int(r.integers(6, 16))
    X, Z, _ = o.X0
    sd = stds(w, o.P)
    x, xs = np.zeros(o.n), []
    for t in range(T + 5):
        x = X @ x + Z @ (r.normal(size=o.m) * sd)
        xs.append(x)
    y = o.obs(np.array(xs))[5:]
    y = y + r.normal(size=y.shape) * .05 * y.std(axis=0)
    names = [n for n, _ in s.obs]
    w.data = pd.DataFrame(y, columns=names, index=pd.RangeIndex(10, 10 + T))
    w.obsnames = names
    w.m.load_data(w.data.copy())
    return w


def stds(w, P):
    """standard deviations in the order of the shocks of the oracle"""
    return np.array([float(eval(str(w.spec.covs[k]), {}, dict(P))) for k in w.spec.shocks])


def stationary(o, sd, tol=1e-12):
    """covariance of the states of the oracle (doubling)"""
    X, Z, _ = o.X0
    V = Z @ np.diag(sd ** 2) @ Z.T
    A = X.copy()
    for _ in range(60):
        d = A @ V @ A.T
        V = V + d
        A = A @ A
        if np.abs(d).max() < tol * np.abs(V).max():
            return V
    raise ValueError("oracle: no stationary distribution")


def H(o):
    """observation matrix and constant on the states of the oracle"""
    M = np.array([o.obs(np.eye(o.n)[i])[0] for i in range(o.n)]).T
    c = o.obs(np.zeros(o.n))[0]
    return M - c[:, None], c


def loglik(o, sd, R, data, P0=None):
    """log likelihood of the linear model: states start from their stationary distribution one period before the data"""
    X, Z, _ = o.X0
    Q = Z @ np.diag(sd ** 2) @ Z.T
    M, c = H(o)
    P = stationary(o, sd) if P0 is None else P0
    x, ll = np.zeros(o.n), 0.
    for y in data:
        x, P = X @ x, X @ P @ X.T + Q
        S = M @ P @ M.T + R
        v = y - M @ x - c
        sg, ld = np.linalg.slogdet(S)
        ll += -.5 * (len(v) * np.log(2 * np.pi) + ld + v @ np.linalg.solve(S, v))
        K = P @ M.T @ np.linalg.inv(S)
        x, P = x + K @ v, P - K @ M @ P
    return ll
