"""random models given as text and as matrices: the path of the compiled system under every imposed regime is compared
with the exact solution of the declared equations, and inserted into the declared equations themselves; reordering
variables and equations, and giving the same model as text or as matrices, changes nothing"""
import copy
import numpy as np

BOUND = "random models of 2-11 variables and 1-4 shocks, regimes up to l=3, k=6, paths of 6 periods"


class MatModel:
    """the same interface as harness.models.Spec for the parts that are used by Oracle, from matrices"""
    pass


def random_matrices(r, n, m):
    """A x(+1) + B x + C x(-1) + D e = 0, the last row is the constraint (without leads); a contraction, hence a unique
    stable solution; random zero patterns: variables with leads only, lags only, both or neither"""
    A, C = np.zeros((n, n)), np.zeros((n, n))
    kind = r.integers(0, 4, size=n)             # 0 static, 1 lead, 2 lag, 3 both
    if n > 8:
        kind[r.permutation(n)[:7]] = 3
    dens = r.choice([.3, .6, 1.])
    cvar = int(r.integers(n))
    for j in range(n):
        if kind[j] in (1, 3):
            A[:, j] = r.normal(size=n) * (r.random(n) < dens)
        if kind[j] in (2, 3):
            C[:, j] = r.normal(size=n) * (r.random(n) < dens)
    B = r.normal(size=(n, n)) * (r.random((n, n)) < dens) * .3
    # coefficients that cancel out over the equations, and small ones, count as any others
    for M in (A, C):
        for j in range(n):
            q = r.integers(8)
            if q == 0 and n > 2 and np.any(M[:, j]):
                a, b = r.permutation(n - 1)[:2]
                M[:, j] = 0
                M[a, j] = r.choice([-1., 1.]) * r.uniform(.2, 1.)
                M[b, j] = -M[a, j]
            elif q == 1:
                M[:, j] *= 10. ** -r.uniform(1, 5)
    perm = r.permutation(n)
    # the constraint is normalised with the constrained variable, which must be part of it
    perm = np.array([p for p in perm if p != cvar] + [cvar])
    B[np.arange(n), perm] += r.choice([-1., 1.], size=n) * r.uniform(.8, 1.5, size=n)
    A[n - 1] = 0
    if r.integers(2):
        C[n - 1] = 0
    s = np.linalg.norm(np.linalg.inv(B), 2)
    for M, k in ((A, .45), (C, .45)):
        q = np.linalg.norm(M, 2) * s
        if q > k:
            M *= k / q
    D = r.normal(size=(n, m)) * (r.random((n, m)) < .6)
    for j in range(m):
        if not np.any(D[:n - 1, j]):
            D[int(r.integers(n - 1)), j] = 1.
        if n > 2 and r.integers(8) == 0:
            a, b = r.permutation(n - 1)[:2]
            D[:n - 1, j] = 0
            D[a, j], D[b, j] = 1., -1.
    if r.integers(2):
        D[n - 1] = 0
    return A, B, C, D, cvar


class MatOracle:
    def __init__(self, A, B, C, D, cvar, x_bar, names):
        from harness.models import Oracle
        n, m = D.shape
        self.__class__ = Oracle
        self.n, self.m, self.names, self.x_bar = n, m, names, x_bar
        self.ix = {v: i for i, v in enumerate(names)}
        self.U = (A, B, C, D, np.zeros(n))
        A2, B2, C2, D2 = A.copy(), B.copy(), C.copy(), D.copy()
        for M in (A2, B2, C2, D2):
            M[n - 1] = 0
        c2 = np.zeros(n)
        B2[n - 1, cvar], c2[n - 1] = -1, x_bar
        self.R = (A2, B2, C2, D2, c2)
        self.cvar = names[cvar]
        # value of the constrained variable implied by the constraint equation
        b = -B[n - 1, cvar]
        self.f1, self.f0, self.f_, self.fe = A[n - 1] / b, B[n - 1] / b, C[n - 1] / b, D[n - 1] / b
        self.f0 = self.f0.copy()
        self.f0[cvar] += 1
        self.X0 = self._linear()
        self.cache = {}


def as_dict(A, B, C, D, cvar, x_bar, names, shocks, obs=None):
    """the documented matrices: A E x(+1) + B x + C x(-1) + D e = 0 and fb x + fc x(-1) + fd e = 0"""
    n = len(names)
    d = dict(AA=A[:n - 1].copy(), BB=B[:n - 1].copy(), CC=C[:n - 1].copy(), DD=D[:n - 1].copy(),
             fb=B[n - 1].copy(), fc=C[n - 1].copy(), fd=D[n - 1].copy(), x_bar=x_bar,
             vars=np.array(names), shocks=list(shocks), const_var=names[cvar])
    if obs is not None:
        d.update(ZZ0=obs[0].copy(), ZZ1=obs[1].copy(), observables=["o%d" % i for i in range(len(obs[1]))])
    return d


def build(h, d, **kw):
    from pydsge.gensys import gen_sys_from_dict
    from pydsge import tools
    with h.quiet():
        m = gen_sys_from_dict(d, parallel=False, verbose=False, **kw)
    return m


def step(m, s, e, lk):
    from pydsge import tools
    return tools.t_func(m, s, e, set_k=lk, return_flag=False)


def to_state(m, x, names):
    pos = {v: i for i, v in enumerate(names)}
    return np.array([x[pos[v]] if v in pos else np.nan for v in m.vv])


def follow(h, r, m, o, names, sizes, desc, tries=3):
    """the system against the oracle, and its expected path in the declared equations"""
    L, K = sizes
    pos = {v: i for i, v in enumerate(m.vv)}
    miss = [v for v in names if v not in pos]
    ix = [i for i, v in enumerate(names) if v in pos]
    if not h.check(not miss, "every variable is part of the compiled system", model=desc, missing=miss):
        return
    pick = [pos[v] for v in names]
    for l in range(L):
        for k in range(K):
            s, x = np.zeros(len(m.vv)), np.zeros(o.n)
            for t in range(int(r.integers(3))):
                e = r.normal(size=o.m)
                s, x = step(m, s, e, (0, 0)), o.step(x, e, 0, 0)
            e = r.normal(size=o.m) * r.choice([1., 3.])
            try:
                o.path(x, e, l, k, l + k + 3)
            except (ValueError, np.linalg.LinAlgError):
                h.skips += 1
                continue
            xs, lk, e0 = [], (l, k), e
            for t in range(l + k + 3):
                s = step(m, s, e0, lk)
                xs.append(s[pick])
                e0 = np.zeros(o.m)
                lk = (lk[0] - 1, lk[1]) if lk[0] > 0 and lk[1] > 0 else (0, max(lk[1] - 1, 0))
            want = o.path(x, e, l, k, l + k + 3)[0]
            xs = np.array(xs)
            scale = 1 + np.max(np.abs(want))
            h.check(np.all(np.abs(xs[:, :len(names)] - want[:, :len(names)]) < 1e-6 * scale),
                    "path under an imposed regime solves the declared model", model=desc, l=l, k=k, start=x, eps=e, got=xs, want=want[:, :len(names)])
            if o.n == len(names):
                prev = x
                res = []
                for t in range(l + k + 2):
                    binds = l <= t < l + k
                    A, B, C, D, c = o.R if binds else o.U
                    res.append(A @ xs[t + 1] + B @ xs[t] + C @ prev + (D @ e if t == 0 else 0) + c)
                    prev = xs[t]
                h.check(np.max(np.abs(res)) < 1e-6 * scale, "declared equations, constraint and bound hold along the expected path",
                        model=desc, l=l, k=k, start=x, eps=e, residuals=np.array(res))


def run(h):
    from harness.lib import World, Skip
    for i in h.cases("matrices", 400 if h.thorough else 60, 8):
        r = h.rng("matrices", i)
        n, m = int(r.integers(2, 8)) if i % 6 else 11, int(r.integers(1, 4))
        A, B, C, D, cvar = random_matrices(r, n, m)
        names, shocks = ["v%d" % j for j in r.permutation(n)], ["e%d" % j for j in r.permutation(m)]
        x_bar = -float(r.uniform(.1, 2))
        desc = as_dict(A, B, C, D, cvar, x_bar, names, shocks)
        with h.guard("model given as matrices", model=desc):
            try:
                o = MatOracle(A, B, C, D, cvar, x_bar, names)
            except (ValueError, np.linalg.LinAlgError):
                raise Skip()
            obs = r.normal(size=(2, n)), r.normal(size=2)
            obs[0][0] = 0
            obs[0][0, cvar] = 2.
            l_max, k_max = [(None, None), (2, 4), (3, 6)][i % 3]
            d = as_dict(A, B, C, D, cvar, x_bar, names, shocks, obs)
            keep = copy.deepcopy(d)
            s = build(h, d, l_max=l_max, k_max=k_max)
            h.check(all(np.array_equal(d[q], keep[q]) for q in keep), "matrices that were given are not altered", model=desc)
            h.close(s.x_bar, x_bar, "bound of the system")
            follow(h, r, s, o, names, (3, 5), desc)
            # observation of a state
            if all(v in list(s.vv) for v in names):
                x = r.normal(size=n)
                pos = {v: j for j, v in enumerate(names)}
                st = np.array([x[pos[v]] if v in pos else 7. for v in s.vv])
                zp, zq, zc = s.hx
                h.close(zp @ st[:len(s.cvv)] + zq @ st[len(s.cvv):] + zc if zp.shape[1] == len(s.cvv) else np.nan,
                        obs[0] @ x + obs[1], "observation matrices give the declared observables", model=desc, x=x)
            # without entries that are optional
            d2 = as_dict(A, B, C, D, cvar, x_bar, names, shocks)
            if not np.any(D[n - 1]):
                del d2["fd"]
            follow(h, r, build(h, d2, l_max=l_max, k_max=k_max), o, names, (2, 3), desc)
            # the constraint can be scaled, rows and columns can be permuted
            pv, pe, pr = r.permutation(n), r.permutation(m), r.permutation(n - 1)
            rows = np.append(pr, n - 1)
            sc = np.ones(n)
            sc[-1] = r.choice([-2.5, .5, 3.])
            sc[:-1] = r.choice([-2., 1.], size=n - 1)
            M = [(X[rows][:, pv] * sc[:, None]) for X in (A, B, C)]
            Dp = D[rows][:, pe] * sc[:, None]
            d3 = as_dict(*M, Dp, list(pv).index(cvar), x_bar, [names[j] for j in pv], [shocks[j] for j in pe])
            s3 = build(h, d3, l_max=l_max, k_max=k_max)
            for l, k in ((0, 0), (0, 2), (1, 2)):
                try:
                    o.rule(l, k)
                except (ValueError, np.linalg.LinAlgError):
                    continue
                e = r.normal(size=m)
                a = dict(zip(s.vv, step(s, np.zeros(len(s.vv)), e, (l, k))))
                b = dict(zip(s3.vv, step(s3, np.zeros(len(s3.vv)), e[pe], (l, k))))
                h.close([a[v] for v in names], [b[v] for v in names], "order and scaling of equations, variables and shocks do not matter",
                        tol=1e-6, model=desc, order=(pv, pe, pr), l=l, k=k, eps=e)
    for i in h.cases("text", 40 if h.thorough else 6, 3):
        r = h.rng("text", i)
        with h.guard("model given as text", case=i):
            w = World(h, r, "c07_%d" % i, features={"cnst_fwdlag": bool(i % 2), "cnst_shock": bool((i // 2) % 2), "smooth_cnst": i % 3 != 2})
            o = w.oracle
            follow(h, r, w.m, o, w.spec.variables, (3, 5), w.desc())
            # the same model as matrices
            A, B, C, D, _ = o.U
            d = as_dict(A, B, C, D, o.ix[o.cvar], o.x_bar, o.names, w.spec.shocks)
            follow(h, r, build(h, d), o, o.names, (2, 4), w.desc())
            # only the observation function is asked for: the same one, and the compiled system stays
            hx = [np.array(x) for x in w.m.hx]
            with h.quiet():
                w.m.gen_sys(w.m.par, get_hx_only=True, verbose=False)
            for a, b in zip(hx, w.m.hx):
                h.close(b, a, "observation matrices do not depend on whether the rest is compiled", model=w.desc())
            follow(h, r, w.m, o, w.spec.variables, (1, 2), w.desc())
