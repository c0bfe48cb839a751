"""C13: historic decompositions add up to the path they decompose"""
import z3
from pyvc import arr, nc
from pyvc.core import Unit, ctx
from pyvc.loader import Obj
from pyvc.loops import Cand, CellCand, ValCand, PList, seqlen
from pyvc.sym import Int, Real, SymInt, SymReal, SymBool, band, zint, zreal, mk, tobool
from pyvc.arr import SArr, Log, FamBase, Elem, matmul as mm
from .c02 import same
from .model_spec import program, DataFrame

ASSUMPTIONS = [
    "one transition applies the rule and constant of its regime to states and innovations (proved in C04); regime (0,0) has no constant (proved in C02)",
    "set_par compiles the model with the given parameters and leaves its tables in precalc_mat (C09)",
    "numpy.mean over samples is the average, hence linear: contributions that sum to the path in every sample sum to it on average",
    "real arithmetic in place of floating point: in floating point the share of the constant is ill-conditioned if the contributions to the constraint nearly cancel (excluded by the property)",
]
IZ, BZ, RZ = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Spec:
    """M(i,t): path of sample i;  L,K(i,t): regime of the transition from t;  H(i,s,t): contribution of shock s;
    RC(i,t,s): its contribution to the constraint, TOT(i,t): their sum"""

    def __init__(self, p):
        self.p = p
        self.ds, self.de, self.dp = Int("dimstates"), Int("dimeps"), Int("dimp")
        self.N, self.T, self.np = Int("n_samples"), Int("T"), Int("n_par")
        p.assume(band(self.ds >= 1, self.de >= 1, self.dp >= 1, self.N >= 1, self.T >= 1, self.np >= 1))
        self.dx, self.dq = self.dp + self.ds, self.ds + self.de
        self.nl, self.nk = Int("n_l"), Int("n_k")
        F = z3.Function
        self.L, self.K, self.RC, self.TOT = F("L", IZ, IZ, IZ), F("K", IZ, IZ, IZ), F("RC", IZ, IZ, IZ, RZ), F("TOT", IZ, IZ, RZ)
        p.data["unfold"] = dict(H=self.define, HL=self.define_linear)

    def lk(self, i, t):
        l, k = self.L(zint(i), zint(t)), self.K(zint(i), zint(t))
        self.p.assume(z3.And(l >= 0, l < zint(self.nl), k >= 0, k < zint(self.nk)))
        return SymInt(l), SymInt(k)

    def tables(self, i):
        at, dp, dq, ds = arr.atom_value, self.dp, self.dq, self.ds
        fam = lambda nm, sh, m=2: SArr((self.nl, self.nk) + sh, Log(2, FamBase(lambda l, k: at(nm, (i, l, k), sh))))
        # rows of states and of shocks are kept apart
        qm = SArr((self.nl, self.nk, dq, dq), Log(2, FamBase(lambda l, k: arr.vstack([at("QM", (i, l, k), (ds, dq)), at("QE", (i, l, k), (self.de, dq))]))))
        qt = SArr((self.nl, self.nk, dq), Log(2, FamBase(lambda l, k: arr.hstack([at("QT", (i, l, k), (ds,)), at("QTE", (i, l, k), (self.de,))]))))
        bm = SArr((5, self.nl, self.nk, dq), Log(3, FamBase(lambda j, l, k: at("BM", (i, j, l, k), (dq,)))))
        bt = SArr((5, self.nl, self.nk), Elem(lambda j, l, k: at("BT", (i, j, l, k), ())))
        return fam("PM", (dp, dq)), qm, fam("PT", (dp,)), qt, bm, bt

    def M(self, i, t):
        if self.p.branch(zint(t) == 0):
            return arr.atom_value("INIT", (i,), (self.dx,))
        return arr.atom_value("M", (i, t), (self.dx,))

    def resid(self, i, t):
        return arr.atom_value("RES", (i, t), (self.de,))

    def H(self, i, s, t):
        return arr.atom_value("H", (i, s, t), (self.dx,))

    def v(self, i, s, t):
        """contribution so far stacked with the own innovation"""
        r = self.resid(i, t).elem(s)
        e = SArr((self.de,), arr.unit(s, self.de).c)
        return arr.hstack([self.H(i, s, t)[self.dp:], e * r])

    def define_linear(self, i, s, t):
        """contribution of shock s in period t+1 without constant"""
        l, k = self.lk(i, t)
        v = self.v(i, s, t)
        at = arr.atom_value
        return arr.hstack([mm(at("PM", (i, l, k), (self.dp, self.dq)), v), mm(at("QM", (i, l, k), (self.ds, self.dq)), v)])

    def HL(self, i, s, t):
        return arr.atom_value("HL", (i, s, t), (self.dx,))

    def share(self, i, s, t):
        """share of the constant that is attributed to shock s in the transition from t"""
        return mk(self.RC(zint(i), zint(t), zint(s)) / self.TOT(zint(i), zint(t)))

    def const(self, i, t):
        l, k = self.lk(i, t)
        return arr.hstack([arr.atom_value("PT", (i, l, k), (self.dp,)), arr.atom_value("QT", (i, l, k), (self.ds,))])

    def split(self, i, t):
        """the constant is attributed in the transition from t"""
        l, k = self.lk(i, t)
        return self.p.branch(z3.And(zint(k) != 0, self.TOT(zint(i), zint(t)) != 0))

    def define(self, i, s, t):
        if ctx().branch(zint(t) == 0):
            return arr.atom_value("INIT", (i,), (self.dx,)) / self.de
        u = mk(zint(t) - 1)
        r = [self.HL(i, s, u), self.define_linear(i, s, u)]
        if self.split(i, u):
            c = self.const(i, u) * self.share(i, s, u)
            r = [x + c for x in r]
        return r

    def constraint(self, i, s, t):
        """contribution of shock s to the constraint in the transition from t: definition of RC"""
        l, k = self.lk(i, t)
        b = arr.atom_value("BM", (i, 0, l, k), (self.dq,))
        return mm(b, self.v(i, s, t))

    # ------------------------------------------------------------ loops
    def depth(self, loop):
        """0: samples, 1: periods, 2: shocks"""
        n = loop.it.length() if loop.it is not None else None
        for d, x in enumerate((self.N, self.T, self.de)):
            if n is not None and arr.deq(n, x):
                return d
        return None

    def loops(self, env):
        S, out = self, []
        d = self.depth(env.loop)
        if d is None:
            return out
        o = [x for x in env.outer]
        pos = {}
        for x in o:
            pos[self.depth(x)] = x.n
        second = d == 2 and getattr(env.loop, "lid", "")

        def done(e, i, s, t):
            """the contribution (i,s,t) has its final value"""
            i, s, t, n = zint(i), zint(s), zint(t), zint(e.n)
            if d == 0:
                return i < n
            I = zint(pos[0])
            if d == 1:
                return z3.Or(i < I, z3.And(i == I, t <= n))
            P = zint(pos[1])
            return z3.Or(i < I, z3.And(i == I, t <= P))
        for v in env.arrays(4):
            sh = env[v].shape
            if not (arr.deq(sh[1], S.de) and arr.deq(sh[3], S.dx)):
                continue
            out.append(CellCand("%s: earlier cells are contributions" % v, v, 3, lambda e, i: done(e, *i), lambda e, i: S.H(*i)))
            if d == 2:
                here = lambda e, i: z3.And(zint(i[0]) == zint(pos[0]), zint(i[2]) == zint(pos[1]) + 1)
                both = lambda e, i: z3.Or(done(e, *i), z3.And(here(e, i), zint(i[1]) < zint(e.n)))

                def lin(e, i):
                    return S.HL(i[0], i[1], pos[1]) if S.p.branch(here(e, i)) else S.H(*i)

                def full(e, i):
                    return S.H(*i)

                def mixed(e, i):
                    if not S.p.branch(here(e, i)):
                        return S.H(*i)
                    return S.H(*i) if S.p.branch(zint(i[1]) < zint(e.n)) else S.HL(i[0], i[1], pos[1])
                row = lambda e, i: z3.Or(done(e, *i), here(e, i))
                out.append(CellCand("%s: rows so far are linear contributions" % v, v, 3, both, lin, alt=True))
                out.append(CellCand("%s: rows so far are contributions" % v, v, 3, both, full, alt=True))
                out.append(CellCand("%s: rows so far have their share of the constant" % v, v, 3, row, mixed, alt=True))
        for v in env.arrays(3):
            sh = env[v].shape
            if arr.deq(sh[0], S.N) and arr.deq(sh[2], S.dx):
                if d == 0:
                    g = lambda e, i: zint(i[0]) < zint(e.n)
                elif d == 1:
                    g = lambda e, i: z3.Or(zint(i[0]) < zint(pos[0]), z3.And(zint(i[0]) == zint(pos[0]), zint(i[1]) <= zint(e.n)))
                else:
                    continue
                out.append(CellCand("%s: earlier cells are the path" % v, v, 2, g, lambda e, i: S.M(*i)))
        if d == 1:
            for v in env.arrays(1):
                if arr.deq(env[v].shape[0], S.dx):
                    out.append(ValCand("%s is the current state" % v, v, lambda e: S.M(pos[0], e.n)))
        if d == 2:
            for v in env.arrays(1):
                if arr.deq(env[v].shape[0], S.de):
                    def g(e, i):
                        return z3.And(zint(i[0]) < zint(e.n), zint(S.lk(pos[0], pos[1])[1]) != 0)
                    out.append(CellCand("%s: contributions to the constraint so far" % v, v, 1, g,
                                        lambda e, i: mk(S.RC(zint(pos[0]), zint(pos[1]), zint(i[0])))))
        return out

    def sum_hook(self, a, axis):
        """sum of the contributions to the constraint"""
        pos = {self.depth(x): x.n for x in ctx().loop_stack}
        if a.ndim != 1 or axis not in (None, 0) or 0 not in pos or 1 not in pos:
            return None
        i, t = pos[0], pos[1]
        if arr.arr_equal(a, SArr((self.de,), Elem(lambda s: mk(self.RC(zint(i), zint(t), zint(s)))))):
            return mk(self.TOT(zint(i), zint(t)))
        return SymReal(z3.Real(ctx().fresh("sum")))


def units(modular=True):
    out = []

    def nhd(p, lin):
        S = Spec(p)
        m = program().load("stats")
        o = Obj()
        o.dimx, o.dimq, o.dimeps, o.neps, o.dimp, o.nvar = S.dx, S.dq, S.de, S.de, S.dp, S.dx
        o.lks, o.debug = (S.nl - 1, S.nk - 1), False
        o.vv = Obj()
        o.shocks = PList(sym=(S.de, lambda i: None))
        o.data = Obj(shape=(S.T + 1, Int("nobs")), index=Obj())
        o.precalc_mat = S.tables(Int("another_sample"))
        p.unit.loops = S.loops
        p.data["sum_hook"] = S.sum_hook
        p.data["unfold"]["RC"] = lambda i, t, s: S.constraint(i, s, t)
        pars = arr.family("PAR", (S.N, S.np), 1)
        init = arr.family("INIT", (S.N, S.dx), 1)
        resid = arr.family("RES", (S.N, S.T, S.de), 2)
        cur = {}

        def set_par(par, *a, **k):
            i = arr.atom_index(par, "PAR")
            if i is not None and arr.arr_equal(par, arr.atom_value("PAR", i, (S.np,))):
                cur["i"] = i[0]
                o.__dict__["precalc_mat"] = S.tables(i[0])
            else:
                cur["i"] = None
                o.__dict__["precalc_mat"] = S.tables(Int(ctx().fresh("other")))
        o.set_par = set_par

        def t_func(state, shocks=None, set_k=None, return_flag=None, return_k=False, get_obs=False, linear=False, verbose=False):
            p.prove(bool(linear) == lin, "transitions are linear exactly if that is asked for")
            p.prove(set_k is None and not get_obs and return_k, "regimes are those of the transitions")
            d = state.shape[0]
            it = arr.atom_index(shocks, "RES") if isinstance(shocks, SArr) else None
            if it is not None and cur.get("i") is not None and arr.deq(cur["i"], it[0]) and arr.arr_equal(shocks, S.resid(*it)) \
                    and arr.arr_equal(state[d - S.ds:], S.M(*it)[S.dp:]):
                l, k = S.lk(*it)
                if lin:
                    p.assume(z3.And(zint(l) == 0, zint(k) == 0))
                return arr.atom_value("M", (it[0], it[1] + 1), (S.dx,)), (l, k), Int(ctx().fresh("flag"))
            nm = ctx().fresh("other")
            l, k = Int(nm + "l"), Int(nm + "k")
            p.assume(band(l >= 0, k >= 0, l < S.nl, k < S.nk))
            return arr.vec(nm, S.dx), (l, k), Int(nm + "f")
        o.t_func = t_func
        i, s, t = Int("i"), Int("s"), Int("t")
        p.assume(band(i >= 0, i < S.N, s >= 0, s < S.de, t >= 0, t <= S.T))
        got = {}

        def mean(a, axis=None):
            p.prove(axis == 0, "averages are taken over the samples")
            if a.ndim == 4:
                p.prove(arr.deq(a.shape[0], S.N) and arr.deq(a.shape[1], S.de) and arr.deq(a.shape[2], S.T + 1) and arr.deq(a.shape[3], S.dx),
                        "contributions: one per sample, shock, period and variable")
                same(p, a.read_idx((i, s, t)), S.H(i, s, t), "contribution of a shock follows its own recursion: rule of the regime applied to its last contribution "
                     "and its own innovation, plus its share of the constant")
                got["hd"] = arr.family("MEANH", (S.de, S.T + 1, S.dx), 2)
                return got["hd"]
            p.prove(a.ndim == 3 and arr.deq(a.shape[0], S.N) and arr.deq(a.shape[1], S.T + 1) and arr.deq(a.shape[2], S.dx), "path: one per sample, period and variable")
            same(p, a.read_idx((i, t)), S.M(i, t), "reported path is the transition recursion from the initial state")
            got["means"] = arr.family("MEANM", (S.T + 1, S.dx), 1)
            return got["means"]
        p.data["mean"] = mean
        seen = p.watch()
        hd, means = m.nhd(o, dict(init=init, pars=pars, resid=resid), **(dict(linear=True) if lin else {}))
        p.prove_frame(seen, [init, pars, resid], "inputs are not modified")
        p.prove(isinstance(means, DataFrame) and means.values is got["means"] and means.columns is o.vv and means.index is o.data.index,
                "mean path is labelled with variables and dates")
        p.prove(arr.deq(hd.length(), S.de), "one decomposition per shock")
        d = hd.at(s)
        p.prove(isinstance(d, DataFrame) and d.columns is o.vv and d.index is o.data.index, "decompositions are labelled with variables and dates")
        same(p, d.values._sub_ints((t,)), got["hd"].read_idx((s, t)), "decompositions are in the order of the shocks")
    for lin in (False, True):
        out.append(Unit("nhd%s" % (" (linear)" if lin else ""), lambda p, lin=lin: nhd(p, lin), functions=["stats.nhd"]))

    def lemma(p):
        """induction over periods: if the contributions (columns of X) sum to the state then so do those of the next period"""
        S = Spec(p)
        p.data.pop("unfold")
        one = arr.ones(S.de)
        XP, XQ, E = arr.mat("XP", S.dp, S.de), arr.mat("XQ", S.ds, S.de), arr.mat("E", S.de, S.de)
        mP, mQ, r, w = arr.vec("mP", S.dp), arr.vec("mQ", S.ds), arr.vec("r", S.de), arr.mat("w", 1, S.de)
        P, Q, cp, cq = arr.mat("P", S.dp, S.dq), arr.mat("Q", S.ds, S.dq), arr.vec("cp", S.dp), arr.vec("cq", S.ds)
        blk = lambda a: next(iter(a.block().b.values()))
        nc.add_rule(blk(mm(XP, one)), blk(mP))       # induction hypothesis
        nc.add_rule(blk(mm(XQ, one)), blk(mQ))
        nc.add_rule(blk(mm(E, one)), blk(r))         # diag(r) 1 = r
        free = p.choose(".slack")
        if not free:
            nc.add_rule(blk(mm(w, one)), nc.Poly.one())       # shares RC/TOT sum to one if TOT is their (nonzero) sum
        V = arr.vstack([XQ, E])
        v = arr.hstack([mQ, r])
        for A, c, nm in ((P, cp, "controls"), (Q, cq, "states")):
            nxt, want = mm(A, V), mm(A, v)
            if not free:
                col = SArr((c.shape[0], 1), c.block())
                nxt, want = nxt + mm(col, w), want + c
            same(p, mm(nxt, one), want, "contributions sum to the path: next period (%s, %s)" % (nm, "slack" if free else "binding"))
        # first period: every shock gets the same part of the initial state
        n = z3.Real("n")
        p.assume(n >= 1)
        p.prove(n * (1 / n) == 1, "contributions sum to the path: first period")
    out.append(Unit("sum of the contributions", lemma, functions=["stats.nhd"]))

    def sort(p):
        """cumulated positive and negative contributions (elementwise; any number of shocks)"""
        m = program().load("stats")
        N, T, k = Int("n"), Int("T"), Int("k")
        p.assume(band(N >= 1, T >= 1, k >= 1))
        F = z3.Function
        X, UP, LO, SUM = (F(nm, IZ, IZ, IZ, RZ) for nm in ("X", "UP", "LO", "SUM"))
        hd = PList(sym=(N, lambda s: SArr((T, k), Elem(lambda a, b: mk(X(zint(s), zint(a), zint(b)))))))

        def define(s, a, b):
            s, a, b = zint(s), zint(a), zint(b)
            x = X(s - 1, a, b)
            for f, g in ((UP, z3.If(x > 0, x, 0)), (LO, z3.If(x < 0, x, 0)), (SUM, x)):
                p.assume(f(s, a, b) == z3.If(s <= 0, z3.RealVal(0), f(s - 1, a, b) + g))

        def cum(f, s):
            def el(a, b):
                define(s, a, b)
                return mk(f(zint(s), zint(a), zint(b)))
            return SArr((T, k), Elem(el))

        def band_(f, s):
            c0, c1 = cum(f, s), cum(f, s + 1)
            return SArr((2, T, k), Elem(lambda j, a, b: arr.ite(mk(zint(j) == 0), c0.elem(a, b), c1.elem(a, b))))

        def loops(env):
            res = []
            for v in env.arrays(2):
                for f, nm in ((SUM, "all"), (UP, "positive"), (LO, "negative")):
                    res.append(ValCand("%s: cumulated %s contributions" % (v, nm), v, lambda e, f=f: cum(f, e.n), alt=True))
            for v, x in env.items():
                if isinstance(x, (tuple, PList)) and x is not hd and v in env.loop.stored or isinstance(x, PList) and x is not hd and not x.length():
                    res.append(Cand("%s: one band per contribution" % v, lambda e, v=v: mk(zint(seqlen(e[v])) == zint(e.n))))
                    for tries in range(3):      # again once the guesses about the current totals are right
                        for f, nm in ((UP, "positive"), (LO, "negative")):
                            res.append(CellCand("%s: bands of %s contributions%s" % (v, nm, "'" * tries), v, 1, lambda e, i: True, lambda e, i, f=f: band_(f, i[0]), alt=True))
            return res

        def result(p, n, lo, hi):
            p.prove(tobool(mk(z3.And(zint(seqlen(lo)) == zint(n), zint(seqlen(hi)) == zint(n)))), "one band per contribution")
            s, a, b = Int("s"), Int("a"), Int("b")
            p.assume(band(s >= 0, s < n, a >= 0, a < T, b >= 0, b < k))
            for q in (s, s + 1):
                define(q, a, b)
            for x, f, nm in ((hi, UP, "positive"), (lo, LO, "negative")):
                p.prove(tobool(mk(zint(x[s].shape[0]) == 2)), "a band has a start and an end")
                p.prove(zreal(x[s].elem(0, a, b)) == f(s._z, a._z, b._z), "%s contributions are cumulated: start of a band" % nm)
                p.prove(zreal(x[s].elem(1, a, b)) == f(s._z + 1, a._z, b._z), "%s contributions are cumulated: end of a band" % nm)
        return m, N, T, k, hd, loops, result, UP, LO, SUM, define

    def sort_all(p):
        m, N, T, k, hd, loops, result, UP, LO, SUM, define = sort(p)
        p.unit.loops = loops
        lo, hi = m.sort_nhd(hd)
        result(p, N, lo, hi)

    def total(p):
        """the last bands end at the sum of all contributions: UP(s) + LO(s) = SUM(s), by induction over the contributions"""
        m, N, T, k, hd, loops, result, UP, LO, SUM, define = sort(p)
        s, a, b = Int("s"), Int("a"), Int("b")
        p.assume(s >= 0)
        eq = lambda s: UP(zint(s), a._z, b._z) + LO(zint(s), a._z, b._z) == SUM(zint(s), a._z, b._z)
        define(SymInt(z3.IntVal(0)), a, b)
        p.prove(eq(0), "nothing cumulated before the first contribution")
        p.assume(eq(s))
        define(s + 1, a, b)
        p.prove(eq(s + 1), "cumulated positive and negative contributions add up to the sum of all")

    u = Unit("sort_nhd (any number of contributions)", sort_all, functions=["stats.sort_nhd"])
    out.append(u)
    out.append(Unit("sort_nhd: the bands end at the sum", total))
    return out
