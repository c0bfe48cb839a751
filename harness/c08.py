"""random model files in all supported spellings; the compiled matrices are compared with derivatives of the written
expressions, obtained by evaluating the text itself with complex steps (no symbolic algebra, none of pydsge's parser)"""
import os, re
import numpy as np

BOUND = "random files with 2-7 declared variables, 1-4 shocks, dates from -4 to 4, up to 8 parameters and 6 dependent ones"
ST = 1e-30


class Text:
    """evaluates a written expression at given values of variables and shocks (by name and date) and parameters"""

    def __init__(self, names, P):
        self.names, self.P = names, P
        self.rx = re.compile(r"\b(%s)\b(?:\(\s*([+-]?\s*\d+)\s*\))?" % "|".join(sorted(names, key=len, reverse=True)))

    def prep(self, s):
        s = s.replace("^", "**").replace("@\n", " ").replace("@ \n", " ").replace(";", "")
        return self.rx.sub(lambda m: "V_['%s',%d]" % (m.group(1), int((m.group(2) or "0").replace(" ", ""))), s)

    def dates(self, s):
        return {(m.group(1), int((m.group(2) or "0").replace(" ", ""))) for m in self.rx.finditer(s)}

    def value(self, s, env):
        class D(dict):
            def __missing__(self, k):
                return 0.
        import math
        return eval(self.prep(s).strip(), {"__builtins__": {}, "sum": lambda it: sum(it), "range": range}, {**self.P, "V_": D(env)})

    def resid(self, s, env):
        if "=" in s:
            a, b = s.split("=")
            return self.value(a, env) - self.value(b, env)
        return self.value(s, env)

    def diff(self, s, key):
        return complex(self.resid(s, {key: 1j * ST})).imag / ST

    def coefs(self, s):
        return {k: self.diff(s, k) for k in self.dates(s)}


def gen(r, i, bump=0):
    """a random model file"""
    nv, ns, npar = int(r.integers(2, 6)), int(r.integers(1, 4)), int(r.integers(3, 7))
    pool = ["y", "Pi", "r", "rn", "yy", "u", "y_", "c1", "x", "Pi2", "w", "k_p", "E", "S", "N", "I"]
    vs = list(r.choice(pool, size=nv, replace=False))
    sh = list(r.choice(["e_u", "e_z", "eps", "e_y", "v1"], size=ns, replace=False))
    if r.integers(3) == 0:
        sh[0] = "e_" + vs[0]
        sh = list(dict.fromkeys(sh))
        ns = len(sh)
    pn = list(r.choice(["beta", "rho", "gamma", "phi_pi", "sig_u", "lam", "alpha", "zeta", "h", "theta"], size=npar, replace=False))
    par = {p: float(np.round(r.uniform(.1, 1.9), 3)) for p in pn}
    fn = {}
    funcs = ""
    P = dict(par)
    pf = {}
    if r.integers(4):
        from scipy.stats import norm
        env = dict(exp=np.exp, log=np.log, sqrt=np.sqrt, normpdf=norm.pdf, normcdf=norm.cdf, normppf=norm.ppf, norminv=norm.ppf)
        if r.integers(2):
            funcs = "import numpy as np\n\ndef mix(a, b):\n    return a*np.exp(-b) + %d\n\ndef one(a):\n    return a**2/(1 + a)\n" % (r.integers(1, 4) + bump)
            exec(funcs, fn)
            env.update(mix=fn["mix"], one=fn["one"])
        order = []
        for j in range(int(r.integers(1, 6))):
            nm = "d%d" % j
            a, b = (str(r.choice(list(P))) for _ in range(2))
            ex = [ "%s/(1 + %s)" % (a, b), "exp(-%s)*%s" % (a, b), "sqrt(%s) + 2" % a, "log(1 + %s)^2 + .1" % a, "normcdf(%s) + normpdf(%s)" % (a, b),
                   "normppf(.5 + %s/40)+1" % a, "0.75", "%s - %s^2 + 3" % (a, b)]
            if fn:
                ex += ["mix(%s, %s)" % (a, b), "one(%s)" % a]
            ex = str(r.choice(ex))
            if ex.startswith("normppf") and P[a] > 15:
                ex = "0.5"
            P[nm] = float(eval(ex.replace("^", "**"), dict(env), dict(P)))
            order.append((nm, ex))
        pf = dict(order[k] for k in r.permutation(len(order)))

    def coef(neg=True):
        a, b = (str(r.choice(list(P))) for _ in range(2))
        return str(r.choice(["%s" % a, "%s*%s" % (a, b), "(1 - %s)" % a, "%s/%s" % (a, b), "(%s + %s)^2" % (a, b), "2", ".5", "1/(1 + %s)" % a, "(%s - 1.7)" % a,
                             "0.%d" % r.integers(10 ** 14, 10 ** 15)]))

    def at(v, d):
        return v if d == 0 else "%s(%s%d)" % (v, r.choice(["+", ""]) if d > 0 else "-", abs(d))
    long = r.integers(2)

    def term(dates, both=None):
        v = str(r.choice(vs))
        t = at(v, int(r.choice(dates)))
        f = int(r.integers(10))
        c = coef()
        if f == 0:
            w = at(str(r.choice(vs)), int(r.choice([0])))
            return "%s*(%s - %s)" % (c, t, w)
        if f == 1:
            return "%s/%s" % (t, c)
        if f == 2:
            return "((1 + %s)^2 - 1)*%s" % (t, c)
        if f == 3:
            return "%s*(%s)" % (t, c)
        if f == 4:
            return "%s*%s*%s" % (c, t, r.choice(vs))
        if f == 5:
            return "(%s + %s*(%s + %s))" % (t, c, t, r.choice(vs))
        return "%s*%s" % (c, t)
    D = [-4, -3, -2, -1, 0, 0, 1, 2, 3, 4] if long else [-1, 0, 0, 1]
    eqs = []
    need_v, need_s = list(vs), list(sh)
    for j in range(nv - 1):
        ts = [term(D) for _ in range(int(r.integers(1, 4)))]
        ts += ["%s*%s" % (coef(), v) for v in need_v[j::nv - 1]]
        ts += ["%s%s" % (r.choice(["", "-", coef() + "*"]), at(s, 0)) for s in need_s[j::nv - 1]]
        if r.integers(3) == 0:
            ts.append("%s*%s" % (coef(), at(str(r.choice(sh)), -int(r.integers(1, 4)))))
        r.shuffle(ts)
        sep = str(r.choice([" + ", " - ", "+ "]))
        rhs = sep.join(t if not t.startswith("-") else "(%s)" % t for t in ts)
        rhs = rhs.replace("(-", "(0-") if False else rhs
        if r.integers(4) == 0:
            rhs = rhs.replace(" + ", str(r.choice([" @\n       + ", " @ \n       + ", " +@\n"])), 1)
        kind = int(r.integers(6))
        lhs = str(r.choice(vs)) if kind < 2 else ("0" if kind == 2 else None)
        if kind > 3:
            # variables and shocks on both sides
            lhs = "%s - %s" % (term(D), term(D)) if kind == 4 else "%s*%s + %s" % (coef(), r.choice(sh), term(D))
        eqs.append("%s = %s" % (lhs, rhs) if lhs is not None else rhs)
    cv = str(r.choice(vs))
    others = [v for v in vs if v != cv]
    ct = ["%s*%s" % (coef(), str(r.choice(others))), "%s*%s" % (coef(), at(str(r.choice(vs)), -1))]
    if r.integers(2):
        ct.append("%s*%s" % (coef(), r.choice(sh)))
    cn = "%s = %s" % (cv, " + ".join(ct))
    obs = {}
    for j in range(int(r.integers(0, 4))):
        ts = ["%s*%s" % (coef(), at(str(r.choice(vs)), int(r.choice([0, 0, 0, -1, -2] if i % 3 == 2 else [0])))) for _ in range(int(r.integers(1, 3)))]
        if r.integers(3):
            ts.append(coef())
        if r.integers(3) == 0:
            v = r.choice(vs)
            ts.append("%s + %s*(%s - %s)" % (v, coef(), v, r.choice(vs)))
        r.shuffle(ts)
        obs["o%d" % j] = " + ".join(ts)
    sd = {s: coef() for s in sh}
    return dict(vs=vs, sh=sh, par=par, pf=pf, P=P, eqs=eqs, cn=cn, cv=cv, obs=obs, sd=sd, funcs=funcs)


def text(g, r, name):
    semi = str(r.choice(["", ";"]))
    mark = str(r.choice(["-", "~"]))
    b = int(r.integers(1, 3))
    key, item = " " * b, " " * int(r.choice([b, b + 1, b + 2, 4]))
    L = ["declarations:", "  name: '%s'" % name, "  variables: [%s]" % ", ".join(g["vs"]), "equations:", key + "model:"]
    for e in g["eqs"]:
        L += [item + "%s %s%s" % (mark, e, semi)]
        if r.integers(3) == 0:
            L.append(item + "# a comment")
    L += [key + "constraint:", item + "%s %s" % (mark, g["cn"])]
    if g["obs"]:
        L.append(key + "observables:")
        L += [key + "  %s: %s" % kv for kv in g["obs"].items()]
    L += ["calibration:", "  parameters:"] + ["    %s: %r" % kv for kv in g["par"].items()]
    if g["pf"]:
        L += ["  parafunc:"] + ["    %s: %s" % kv for kv in g["pf"].items()]
    L += ["  covariances:"] + ["    %s: %s" % kv for kv in g["sd"].items()]
    return "\n".join(L) + "\n"


def carried(names, vs, sh, A, B, C, D, nd):
    """what the auxiliary variables carry: {aux: (declared name, date)} from the rows after the declared ones"""
    out = {v: (v, 0) for v in vs}
    rows = list(range(nd, A.shape[0]))
    for _ in range(len(rows) + 1):
        for i in rows:
            nz = [(names[j], d, M[i, j]) for M, d in ((A, 1), (B, 0), (C, -1)) for j in range(len(names)) if M[i, j]]
            nz += [(sh[j], 0, D[i, j]) for j in range(len(sh)) if D[i, j]]
            new = [t for t in nz if t[0] not in out and t[1] == 0 and t[0] not in sh]
            src = [t for t in nz if t not in new]
            if len(new) == 1 and len(src) == 1 and new[0][2] == -src[0][2]:
                n, d, _c = src[0]
                b = out[n] if n in out else (n, 0)
                out[new[0][0]] = (b[0], b[1] + d)
    return out


def expand(row, names, sh, car, A, B, C, D):
    """coefficients of one row by declared name and date"""
    out = {}
    for M, d in ((A, 1), (B, 0), (C, -1)):
        for j, n in enumerate(names):
            if M[row, j] and n in car:
                b = car[n]
                k = (b[0], b[1] + d)
                out[k] = out.get(k, 0.) + M[row, j]
            elif M[row, j]:
                out["unresolved " + n, d] = M[row, j]
    for j, s in enumerate(sh):
        if D[row, j]:
            out[s, 0] = out.get((s, 0), 0.) + D[row, j]
    return out


def same(a, b, tol=1e-9):
    ks = set(a) | set(b)
    return all(abs(a.get(k, 0.) - b.get(k, 0.)) <= tol * (1 + abs(b.get(k, 0.))) for k in ks)


def readable(d):
    return {"%s(%s)" % k if isinstance(k, tuple) else str(k): v for k, v in d.items() if v}


def one(h, r, i, bump=0):
    import pydsge
    g = gen(r, i, bump)
    if any(not np.isfinite(v) or abs(v) > 1e6 for v in g["P"].values()):
        h.skips += 1
        return
    txt = text(g, r, "c08_%d" % i)
    path = os.path.join(h.folder("c08_%d" % i), "c08_%d.yaml" % i)
    with open(path, "w") as f:
        f.write(txt)
    if g["funcs"]:
        with open(path[:-5] + "_funcs.py", "w") as f:
            f.write(g["funcs"])
    T = Text(g["vs"] + g["sh"], g["P"])
    with h.guard("reading a model file", text=txt, funcs=g["funcs"]):
        with h.quiet():
            m = pydsge.DSGE.read(path)
        kw = dict(text=txt, funcs=g["funcs"])
        names = [str(v) for v in m.variables]
        h.check(names[:len(g["vs"])] == g["vs"], "declared variables come first and in order", got=names, **kw)
        h.check(list(m.shocks) == g["sh"], "shocks are the declared ones in order", got=m.shocks, **kw)
        h.check([str(p) for p in m.parameters] == list(g["par"]), "parameters are the declared ones in order", got=m.parameters, **kw)
        h.close(m.p0(), list(g["par"].values()), "calibration is the declared one", tol=0., **kw)
        for trial in range(3):
            par = dict(g["par"])
            if trial:
                # other parameter values: everything follows
                for k in par:
                    par[k] = float(np.round(par[k] * r.uniform(.8, 1.2), 4))
                from scipy.stats import norm
                env = dict(exp=np.exp, log=np.log, sqrt=np.sqrt, normpdf=norm.pdf, normcdf=norm.cdf, normppf=norm.ppf, norminv=norm.ppf)
                exec(g["funcs"], env)
                P = dict(par)
                todo = dict(g["pf"])
                while todo:
                    for k in list(todo):
                        try:
                            P[k] = float(eval(todo[k].replace("^", "**"), dict(env), dict(P)))
                            del todo[k]
                        except NameError:
                            pass
                if any(not np.isfinite(v) or abs(v) > 1e6 for v in P.values()):
                    h.skips += 1
                    continue
                T.P = P
            pp = m.pcompile(list(par.values()))
            kw["par"] = par
            got = dict(zip(list(par) + list(m.parafunc[0]), [float(x) for x in pp]))
            if not h.check(same(got, T.P) and set(got) == set(T.P), "parameters defined by functions follow the given ones", got=got, want=T.P, **kw):
                return
            A, B, C, D = (np.array(f(pp), dtype=float) for f in (m.AA, m.BB, m.CC, m.PSI))
            D = -D
            nd = len(g["eqs"])
            h.check(A.shape == B.shape == C.shape == (len(names) - 1, len(names)) and D.shape == (len(names) - 1, len(g["sh"])),
                    "one equation per variable except the constrained one", shapes=(A.shape, B.shape, C.shape, D.shape), **kw)
            car = carried(names, g["vs"], g["sh"], A, B, C, D, nd)
            h.check(set(car) == set(names), "every auxiliary variable carries a declared variable or shock at a date", got=readable({(k, ""): str(v) for k, v in car.items()}), **kw)
            for j, e in enumerate(g["eqs"]):
                want = T.coefs(e)
                have = expand(j, names, g["sh"], car, A, B, C, D)
                h.check(same(have, want), "coefficients of an equation are the derivatives of the written one", equation=e, got=readable(have), want=readable(want), **kw)
            bb = np.array(m.bb(pp), dtype=float).ravel()
            bp = np.array(m.bb_PSI(pp), dtype=float).ravel()
            n = len(names)
            have = {(v, -d): -bb[j + d * n] for d in (0, 1) for j, v in enumerate(names)}
            have.update({(s, 0): -bp[j] for j, s in enumerate(g["sh"])})
            want = T.coefs(g["cn"])
            h.check(same(have, want), "coefficients of the constraint are the derivatives of the written one", constraint=g["cn"], got=readable(have), want=readable(want), **kw)
            h.check(str(m.const_var) == g["cv"], "the constrained variable is the left hand side of the constraint", **kw)
            h.check(list(m.observables) == list(g["obs"]), "observables are the declared ones in order", got=m.observables, **kw)
            if g["obs"]:
                Z0, Z1 = np.array(m.ZZ0(pp), dtype=float), np.array(m.ZZ1(pp), dtype=float)
                for j, (o, e) in enumerate(g["obs"].items()):
                    have = {}
                    for k, v in enumerate(names):
                        if Z0[j, k] and v in car:
                            have[car[v]] = have.get(car[v], 0.) + Z0[j, k]
                    want = T.coefs(e)
                    h.check(same(have, want), "coefficients of an observable are the derivatives of the written one", observable=e, got=readable(have), want=readable(want), **kw)
                    h.close(Z1.reshape(-1)[j], T.value(e, {}), "constant of an observable is kept", observable=e, **kw)
            Q = np.array(m.QQ(pp), dtype=float)
            h.close(Q, np.diag([float(T.value(g["sd"][s], {})) for s in g["sh"]]), "standard deviations are the written ones", **kw)


def run(h):
    for i in h.cases("files", 400 if h.thorough else 24, 6):
        one(h, h.rng("files", i), i)
        # read again, the same text with another functions file
        one(h, h.rng("files", i), i, 1)
