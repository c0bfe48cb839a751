"""Random linear models with an occasionally binding constraint, and an oracle for them.

A model is built from a structured description (equations as lists of terms), so that the yaml text that is
handed to pydsge and the matrices of the oracle come from the same description without sharing any code with
pydsge: neither the parser, nor the dimensionality reduction, nor the regime recursion is used by the oracle.
"""
import os
import numpy as np


class Spec:
    """equations: list of (lhs, [(coef, var, lag)...]) meaning lhs = sum coef * var(lag)   (coef: python expr)
    constraint: the same for the constrained variable; var may be a shock"""

    def __init__(self, name, variables, shocks, eqs, cnst, obs, par, x_bar, covs, parafunc=None, prior=None,
                 fixed=()):
        self.name, self.variables, self.shocks = name, list(variables), list(shocks)
        self.eqs, self.cnst, self.obs = eqs, cnst, obs
        self.par, self.x_bar, self.covs = dict(par), x_bar, dict(covs)
        self.parafunc = dict(parafunc or {})
        self.prior = dict(prior or {})

    # -------------------------------------------------------------- yaml
    def _rhs(self, terms):
        out = []
        for c, v, l in terms:
            s = v if l == 0 else "%s(%+d)" % (v, l)
            if v == "":
                out.append("(%s)" % c)
            else:
                out.append("(%s)*%s" % (c, s))
        return " + ".join(out) if out else "0"

    def yaml(self):
        L = ["declarations:", "  name: '%s'" % self.name,
             "  variables: [%s]" % ", ".join(self.variables),
             "  constrained_variable: %s" % self.cnst[0] if False else None,
             "equations:", "  model:"]
        for lhs, terms in self.eqs:
            L.append("    - %s = %s" % (lhs, self._rhs(terms)))
        L += ["  constraint:", "    - %s = %s" % (self.cnst[0], self._rhs(self.cnst[1]))]
        L += ["  observables:"]
        for o, terms in self.obs:
            L.append("    %s: %s" % (o, self._rhs(terms)))
        L += ["calibration:", "  parameters:"]
        for k, v in self.par.items():
            L.append("    %s: %r" % (k, float(v)))
        L.append("    x_bar: %r" % float(self.x_bar))
        if self.parafunc:
            L.append("  parafunc:")
            for k, v in self.parafunc.items():
                L.append("    %s: %s" % (k, v))
        L.append("  covariances:")
        for k, v in self.covs.items():
            L.append("    %s: %s" % (k, v))
        if self.prior:
            L += ["estimation:", "  prior:"]
            for k, v in self.prior.items():
                L.append("    %s: %s" % (k, "[%s]" % ", ".join(str(x) for x in v)))
        return "\n".join(x for x in L if x is not None) + "\n"

    def write(self, folder):
        p = os.path.join(folder, self.name + ".yaml")
        with open(p, "w") as f:
            f.write(self.yaml())
        return p


class Oracle:
    """first-order companion form of a Spec and exact regime-dependent solutions"""

    def __init__(self, spec, par=None, x_bar=None):
        self.spec = spec
        P = dict(spec.par)
        P.update(par or {})
        for k, v in spec.parafunc.items():
            P[k] = eval(v, {}, dict(P))
        self.P = P
        self.x_bar = spec.x_bar if x_bar is None else x_bar
        names = list(spec.variables)
        aux = {}            # (var, lag) with |lag|>=1 that needs an own variable carrying var(lag) dated t

        def carrier(v, lag):
            """name, remaining lag (-1,0,1)"""
            if abs(lag) <= 1:
                return v, lag
            step = 1 if lag > 0 else -1
            cur = v
            for j in range(1, abs(lag)):
                key = (v, step * j)
                if key not in aux:
                    nm = "%s@%+d" % (v, step * j)
                    aux[key] = nm
                    names.append(nm)
                    self_eqs.append((nm, [(1., cur, step)]))
                cur = aux[key]
            return cur, step

        self_eqs = []
        ev = lambda c: float(eval(str(c), {"np": np}, dict(P)))
        rows = []
        for lhs, terms in list(spec.eqs):
            rows.append((lhs, [(ev(c), v, l) for c, v, l in terms]))
        cn = (spec.cnst[0], [(ev(c), v, l) for c, v, l in spec.cnst[1]])
        rows = [(lhs, [(c,) + (carrier(v, l) if v in spec.variables else (v, l)) for c, v, l in t]) for lhs, t in rows]
        cn = (cn[0], [(c,) + (carrier(v, l) if v in spec.variables else (v, l)) for c, v, l in cn[1]])
        rows = rows + self_eqs
        n, m = len(names), len(spec.shocks)
        ix = {v: i for i, v in enumerate(names)}
        sx = {v: i for i, v in enumerate(spec.shocks)}
        self.names, self.n, self.m, self.ix = names, n, m, ix
        A, B, C, D = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, m))

        def fill(i, lhs, terms):
            B[i, ix[lhs]] -= 1
            for c, v, l in terms:
                if v in sx:
                    D[i, sx[v]] += c
                else:
                    (A if l == 1 else C if l == -1 else B)[i, ix[v]] += c
        for i, (lhs, t) in enumerate(rows):
            fill(i, lhs, t)
        fill(n - 1, *cn)
        assert len(rows) == n - 1, (len(rows), n)
        self.U = (A, B, C, D, np.zeros(n))
        A2, B2, C2, D2 = A.copy(), B.copy(), C.copy(), D.copy()
        for M in (A2, B2, C2, D2):
            M[n - 1] = 0
        c2 = np.zeros(n)
        B2[n - 1, ix[cn[0]]] = -1
        c2[n - 1] = self.x_bar
        self.R = (A2, B2, C2, D2, c2)
        self.cvar = cn[0]
        # right hand side of the constraint equation: f1 x(+1) + f0 x + f_ x(-1) + fe e
        self.f1, self.f0, self.f_, self.fe = A[n - 1].copy(), B[n - 1].copy(), C[n - 1].copy(), D[n - 1].copy()
        self.f0[ix[cn[0]]] += 1
        self.X0 = self._linear()
        self.cache = {}

    def _linear(self):
        """stable solution x_t = X x_{t-1} + Z e_t of the unconstrained model (ordered QZ)"""
        import scipy.linalg as sl
        A, B, C, D, _ = self.U
        n = self.n
        G = np.block([[A, np.zeros((n, n))], [np.zeros((n, n)), np.eye(n)]])
        H = np.block([[-B, -C], [np.eye(n), np.zeros((n, n))]])
        # G [x_{t+1}; x_t] = H [x_t; x_{t-1}]
        AA, BB, al, be, Q, Z = sl.ordqz(H, G, sort="iuc", output="complex")
        ns = int(np.sum(np.abs(al) < np.abs(be) * (1 - 1e-8)))
        if ns != n:
            raise ValueError("oracle: no unique stable solution (%d stable roots, %d wanted)" % (ns, n))
        Z11, Z21 = Z[:n, :n], Z[n:, :n]
        if np.linalg.cond(Z21) > 1e10:
            raise ValueError("oracle: rank")
        X = np.real(Z11 @ np.linalg.inv(Z21))
        if np.abs(A @ X @ X + B @ X + C).max() > 1e-8:
            raise ValueError("oracle: inaccurate")
        Zs = -np.linalg.solve(A @ X + B, D)
        return X, Zs, np.zeros(n)

    def rule(self, l, k):
        """x_t = X x_{t-1} + Z e_t + c if the constraint binds from t+l for k periods in expectation"""
        if (l, k) in self.cache:
            return self.cache[l, k]
        if k == 0:
            r = self.X0
        else:
            Xn, Zn, cn = self.rule(l - 1, k) if l > 0 else self.rule(0, k - 1)
            A, B, C, D, c = self.U if l > 0 else self.R
            M = A @ Xn + B
            if np.linalg.cond(M) > 1e9:
                raise ValueError("oracle: singular regime")
            r = -np.linalg.solve(M, C), -np.linalg.solve(M, D), -np.linalg.solve(M, A @ cn + c)
        self.cache[l, k] = r
        return r

    def path(self, x, e, l, k, H):
        """expected path x_0..x_{H-1} and expected right hand side of the constraint equation"""
        xs, fs = [], []
        seq = []
        ll, kk = l, k
        for _ in range(H + 1):
            seq.append((ll, kk))
            if ll > 0 and kk > 0:
                ll -= 1
            elif kk > 0:
                kk -= 1
        e = np.asarray(e, float)
        prev = np.asarray(x, float)
        full = []
        for s in range(H + 1):
            X, Z, c = self.rule(*seq[s])
            cur = X @ prev + c + (Z @ e if s == 0 else 0)
            full.append(cur)
            prev = cur
        prev = np.asarray(x, float)
        for s in range(H):
            fs.append(self.f1 @ full[s + 1] + self.f0 @ full[s] + self.f_ @ prev + (self.fe @ e if s == 0 else 0))
            prev = full[s]
        return np.array(full[:H]), np.array(fs)

    def step(self, x, e, l, k):
        X, Z, c = self.rule(l, k)
        return X @ x + Z @ np.asarray(e, float) + c

    def obs(self, xs):
        xs = np.atleast_2d(xs)
        out = np.zeros((len(xs), len(self.spec.obs)))
        for j, (o, terms) in enumerate(self.spec.obs):
            for c, v, l in terms:
                val = float(eval(str(c), {"np": np}, dict(self.P)))
                out[:, j] += val if v == "" else val * xs[:, self.ix[v]]
        return out

    # ------------------------------------------------------------- regimes
    def consistent(self, x, e, l, k, tol=0.):
        """the five conditions on the expected constraint; None if too close to call"""
        H = l + k + 1
        _, f = self.path(x, e, l, k, H)
        xb = self.x_bar
        want = []
        if l > 0:
            want.append(f[0] - xb)
        if l > 1:
            want.append(f[l - 1] - xb)
        want.append(f[l + k] - xb)
        want.append(xb - f[l])
        if k > 1:
            want.append(xb - f[l + k - 1])
        w = min(want)
        return None if abs(w) <= tol else w > 0

    def search(self, x, e, L, K, tol=1e-8):
        """(l,k,flag) over l<L, k<K (table sizes); None if some comparison is within tol or a regime is singular"""
        try:
            return self._search(x, e, L, K, tol)
        except ValueError:
            return None

    def _search(self, x, e, L, K, tol):
        _, f = self.path(x, e, 0, 0, L)
        if np.any(np.abs(f - self.x_bar) <= tol):
            return None
        if np.all(f > self.x_bar):
            return 0, 0, 0
        for l in range(L):
            for k in range(1, K):
                c = self.consistent(x, e, l, k, tol)
                if c is None:
                    return None
                if c:
                    return l, k, 0
        below = False
        for k in range(1, K):
            v = self.path(x, e, 0, k, k + 1)[1][k] - self.x_bar
            if abs(v) <= tol:
                return None
            if below and v > 0:
                return 0, k, 1
            below = below or v < 0
        return 0, K - 1, 2


def random_spec(rng, name, features=None):
    """New-Keynesian type model with randomly chosen features"""
    ft = {f: bool(rng.integers(2)) for f in
          ("habit", "index", "smooth_cnst", "two_shocks", "lag2", "lead2", "lead3", "cnst_shock", "cnst_fwdlag",
           "capital", "parafunc", "static")}
    ft.update(features or {})
    u = lambda a, b: float(np.round(rng.uniform(a, b), 3))
    par = dict(beta=u(.97, .995), kappa=u(.05, .3), rho=u(.3, .85), phi_pi=u(1.4, 2.3), phi_y=u(.05, .3),
               rho_u=u(.4, .9), sig_u=u(.2, .8), y_mean=u(-1, 1), pi_mean=u(0, 1))
    # order of variables is shuffled: nothing may depend on it
    variables = ["Pi", "y", "r", "rn", "u"]
    shocks = ["e_u"]
    covs = {"e_u": "sig_u"}
    pc = [("beta", "Pi", 1), ("kappa", "y", 0)]
    if ft["index"]:
        par["iota"] = u(.1, .5)
        pc = [("beta/(1+beta*iota)", "Pi", 1), ("iota/(1+beta*iota)", "Pi", -1), ("kappa", "y", 0)]
    isc = [("1", "y", 1), ("-1", "r", 0), ("1", "Pi", 1), ("-1", "u", 0)]
    if ft["habit"]:
        par["h"] = u(.2, .7)
        isc = [("1/(1+h)", "y", 1), ("h/(1+h)", "y", -1), ("-(1-h)/(1+h)", "r", 0), ("(1-h)/(1+h)", "Pi", 1),
               ("-1", "u", 0)]
    if ft["lead2"]:
        par["w2"] = u(.02, .15)
        pc = pc + [("w2", "y", 2)]
    if ft["lead3"]:
        par["w3"] = u(.02, .1)
        pc = pc + [("w3", "y", 3)]
    if ft["lag2"]:
        par["rho_u2"] = u(-.2, .08)
        ar = [("rho_u", "u", -1), ("rho_u2", "u", -2), ("1", "e_u", 0)]
    else:
        ar = [("rho_u", "u", -1), ("1", "e_u", 0)]
    eqs = [("Pi", pc), ("y", isc), ("u", ar)]
    if ft["two_shocks"]:
        par.update(rho_z=u(.3, .9), sig_z=u(.05, .3))
        variables.append("z")
        shocks.append("e_z")
        covs["e_z"] = "sig_z"
        eqs[0][1].append(("1", "z", 0))
        eqs.append(("z", [("rho_z", "z", -1), ("1", "e_z", 0)]))
    if ft["capital"]:
        par.update(dlt=u(.02, .1), gam=u(.02, .1))
        variables.append("kk")
        eqs.append(("kk", [("1-dlt", "kk", -1), ("dlt", "y", 0)]))
        eqs[0][1].append(("-gam", "kk", -1))
    if ft["static"]:
        variables.append("rr")
        eqs.append(("rr", [("1", "r", 0), ("-1", "Pi", 1)]))
    rule = [("(1-rho)*phi_pi", "Pi", 0), ("(1-rho)*phi_y", "y", 0)]
    if ft["cnst_fwdlag"]:
        par["phi_l"] = u(.05, .3)
        rule = rule + [("(1-rho)*phi_l", "Pi", -1)]
    cs = []
    if ft["cnst_shock"]:
        par["sig_r"] = u(.05, .2)
        shocks.append("e_r")
        covs["e_r"] = "sig_r"
        cs = [("1", "e_r", 0)]
    if ft["smooth_cnst"]:
        # a shock that enters the constraint only is refused when parsing
        eqs.append(("rn", [("phi_pi", "Pi", 0), ("phi_y", "y", 0)] + ([("0.3", "e_r", 0)] if cs else [])))
        cnst = ("r", [("rho", "r", -1)] + rule + cs)
    else:
        eqs.append(("rn", [("rho", "rn", -1)] + rule + ([("1", "e_r", 0)] if ft["cnst_shock"] else [])))
        cnst = ("r", [("1", "rn", 0)])
    obs = [("Infl", [("1", "Pi", 0), ("pi_mean", "", 0)]), ("Out", [("1", "y", 0), ("y_mean", "", 0)])]
    if ft["static"]:
        obs.append(("Rate", [("4", "r", 0), ("pi_mean*4", "", 0)]))
    if ft.get("mixobs"):
        par["w_o"] = 0.5
        obs.insert(1, ("Mix", [("-2", "y", 0), ("w_o", "Pi", 0), ("1.5", "r", 0), ("y_mean - pi_mean", "", 0)]))
    perm = rng.permutation(len(variables))
    variables = [variables[i] for i in perm]
    if perm[0] % 2:
        obs = obs[::-1]          # observables in alphabetical order or in the opposite one
    eqs = [eqs[i] for i in rng.permutation(len(eqs))]
    parafunc = {}
    if ft["parafunc"]:
        par["sl"] = u(2, 5)
        del par["kappa"]
        parafunc["kappa"] = "0.5/sl"
    prior = {"rho_u": [".7", ".01", ".9999", "beta", "0.7", "0.1"],
             "phi_pi": ["1.5", "1.01", "3", "normal", "1.7", "0.2"]}
    return Spec(name, variables, shocks, eqs, cnst, obs, par, -u(.1, 1.), covs, parafunc, prior)
