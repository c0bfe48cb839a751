"""C06: simulation reproduces the transition recursion for every sample"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.loops import Cand, CellCand, ValCand, PList
from pyvc.sym import Int, Real, SymInt, SymReal, SymBool, band, zint, zreal, mk, tobool
from pyvc.arr import Elem, SArr
from .c02 import same
from .model_spec import program, unchanged, orders, Refused

ASSUMPTIONS = [
    "one transition is a function of last period's states and this period's innovations (proved in C04)",
    "dill.loads(dill.dumps(x)) is an independent copy of x; self.mapper applies the function to every sample in order; map2arr stacks the results in order (checked at run time)",
    "set_par on the copy compiles it with the given parameters (C09)",
    "missing entries of a mask are modelled as a separate truth value per entry (numpy.isnan)",
]
ASSUMPTIONS.append("the default mask (tools.mask, pandas) is covered by the run-time contracts only: bounded")
IZ, BZ, RZ = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Spec:
    """S(i,t): full vector of sample i after t periods; regimes and flags LE,KE,FE(i,t); E(i,t,j) innovations in use"""

    def __init__(self, p):
        self.p = p
        self.ds, self.de, self.dp = Int("dimstates"), Int("dimeps"), Int("dimp")
        self.n, self.T, self.i = Int("n_samples"), Int("T"), Int("sample")
        p.assume(band(self.ds >= 1, self.de >= 1, self.dp >= 1, self.n >= 1, self.T >= 1, self.i >= 0, self.i < self.n))
        self.dx = self.dp + self.ds
        F = z3.Function
        self.LE, self.KE, self.FE, self.ERR = F("LE", IZ, IZ), F("KE", IZ, IZ), F("FE", IZ, IZ), F("ERR", IZ, BZ)
        self.NAN = F("MISSING", IZ, IZ, BZ)
        self.OP = F("OP", RZ, RZ, RZ)
        self.lm, self.km = Int("l_max"), Int("k_max")
        self.np = Int("n_par")
        p.assume(self.np >= 1)
        self.pars = PList(sym=(self.n, lambda i: arr.atom_value("PAR", (i,), (self.np,))))
        self.resid = PList(sym=(self.n, lambda i: arr.atom_value("RESID", (i,), (self.T, self.de))))
        self.init = PList(sym=(self.n, lambda i: arr.atom_value("INIT", (i,), (self.dx,))))
        self.mask = None
        self.oper = None
        self.linear = False

    def eps(self, t):
        """innovations of the sample in use in period t"""
        raw = self.resid.at(self.i)
        if self.mask is None:
            return SArr((self.de,), Elem(lambda j: raw.elem(t, j)))

        def el(j):
            a, b = zreal(self.mask.elem(t, j)), zreal(raw.elem(t, j))
            v = a * b if self.oper is None else self.OP(a, b)
            return mk(z3.If(self.NAN(zint(t), zint(j)), b, v))
        return SArr((self.de,), Elem(el))

    def state(self, t):
        if self.p.branch(zint(t) == 0):
            return self.init.at(self.i)
        return arr.atom_value("S", (mk(zint(t)),), (self.dx,))

    def err(self, n):
        n = zint(n)
        self.p.assume(self.ERR(n) == z3.And(n > 0, z3.Or(self.ERR(n - 1), self.FE(n - 1) != 0)))
        return self.ERR(n)

    def t_func(self, state, shocks=None, set_k=None, return_flag=None, return_k=False, get_obs=False, linear=False, verbose=False):
        p = self.p
        p.prove(bool(linear) == self.linear and not get_obs and bool(return_k), "transitions are linear exactly if that is asked for")
        p.prove(set_k is None or set_k is False, "regimes are not imposed")
        d = state.shape[0]
        t = arr.atom_index(state[d - self.ds:], "S")
        t = t[0] if t is not None else (0 if arr.atom_index(state[d - self.ds:], "INIT") is not None else None)
        if t is not None and shocks is not None and arr.arr_equal(state[d - self.ds:], self.state(t)[self.dx - self.ds:]) and arr.arr_equal(shocks, self.eps(t)):
            z = zint(t)
            p.assume(z3.And(self.LE(z) >= 0, self.KE(z) >= 0, self.FE(z) >= 0, self.FE(z) <= 2))
            return arr.atom_value("S", (t + 1,), (self.dx,)), (SymInt(self.LE(z)), SymInt(self.KE(z))), SymInt(self.FE(z))
        nm = ctx().fresh("other")
        return arr.vec(nm, self.dx), (Int(nm + "l"), Int(nm + "k")), Int(nm + "f")

    def isnan(self, x):
        if isinstance(x, SArr) and self.mask is not None and (x is self.mask or arr.arr_equal(x, self.mask)):
            return SArr(x.shape, Elem(lambda t, j: SymBool(self.NAN(zint(t), zint(j)))), dtype="bool")
        if isinstance(x, SArr):
            return SArr(x.shape, Elem(lambda *i: False), dtype="bool")
        return False

    def loops(self, env):
        S, out = self, []
        if env.outer:
            return out
        for v in [k for k, x in env.items() if isinstance(x, PList) and not any(x is y for y in (S.pars, S.resid, S.init))]:
            n0 = env[v].length()
            if n0 == 0:
                out.append(Cand("%s has one entry per period" % v, lambda e, v=v: e[v].length() == e.n))
                out.append(CellCand("%s holds the waiting times" % v, v, 1, lambda e, i: True, lambda e, i: SymInt(S.LE(zint(i[0]))), alt=True))
                out.append(CellCand("%s holds the durations" % v, v, 1, lambda e, i: True, lambda e, i: SymInt(S.KE(zint(i[0]))), alt=True))
                out.append(CellCand("%s holds the path after the start" % v, v, 1, lambda e, i: True, lambda e, i: S.state(i[0] + 1), alt=True))
            elif n0 == 1:
                out.append(Cand("%s has the initial entry and one per period" % v, lambda e, v=v: e[v].length() == e.n + 1))
                out.append(CellCand("%s holds the path" % v, v, 1, lambda e, i: True, lambda e, i: S.state(i[0]), alt=True))
        for v in env.arrays(1):
            if v in env.loop.stored or True:
                if arr.deq(env[v].shape[0], S.dx):
                    out.append(ValCand("%s is the current state" % v, v, lambda e: S.state(e.n)))
                elif arr.deq(env[v].shape[0], S.T):
                    out.append(CellCand("%s holds the waiting times" % v, v, 1, lambda e, i: i[0] < e.n, lambda e, i: SymInt(S.LE(zint(i[0]))), alt=True))
                    out.append(CellCand("%s holds the durations" % v, v, 1, lambda e, i: i[0] < e.n, lambda e, i: SymInt(S.KE(zint(i[0]))), alt=True))
        for v in env.arrays(2):
            sh = env[v].shape
            if arr.deq(sh[0], 2) and arr.deq(sh[1], S.T):
                out.append(CellCand("%s holds waiting times and durations" % v, v, 2, lambda e, i: i[1] < e.n,
                                    lambda e, i: mk(z3.If(zint(i[0]) == 0, S.LE(zint(i[1])), S.KE(zint(i[1]))))))
            elif arr.deq(sh[1], 2) and arr.deq(sh[0], S.T):
                out.append(CellCand("%s holds waiting times and durations" % v, v, 2, lambda e, i: i[0] < e.n,
                                    lambda e, i: mk(z3.If(zint(i[1]) == 0, S.LE(zint(i[0])), S.KE(zint(i[0]))))))
            elif arr.deq(sh[0], S.T):
                out.append(CellCand("%s holds the path after the start" % v, v, 1, lambda e, i: i[0] < e.n, lambda e, i: S.state(i[0] + 1)))
            if arr.deq(env[v].shape[0], S.T + 1):
                out.append(CellCand("%s holds the path" % v, v, 1, lambda e, i: i[0] <= e.n, lambda e, i: S.state(i[0])))
        for v in [x for x in env.ints() + env.names(bool, SymBool) if x in env.loop.stored]:
            out.append(Cand("%s tells whether some flag was raised" % v, lambda e, v=v: (zint(e[v]) != 0) == S.err(e.n)))
            out.append(Cand("%s is not negative" % v, lambda e, v=v: zint(e[v]) >= 0))
        return out


def units(modular=True):
    out = []

    def sim(p, masked):
        S = Spec(p)
        got = {}
        p.unit.loops = S.loops
        p.data["isnan"] = S.isnan
        kw = {}
        if masked:
            S.mask = kw["mask"] = arr.mat("MASK", S.T, S.de)
            if p.choose(".operation"):
                S.oper = True

                def oper(a, b):
                    A, B = SArr(a.shape, a.c), SArr(b.shape, b.c)
                    return SArr(A.shape, Elem(lambda *i: mk(S.OP(zreal(A.elem(*i)), zreal(B.elem(*i))))))
                kw["operation"] = oper
        if p.choose(".linear"):
            S.linear = kw["linear"] = True

        def map2arr(res):
            p.prove(res is got.get("res"), "the results of the samples are stacked")
            got["arrays"] = (arr.family("X", (S.n, S.T + 1, S.dx), 2), arr.family("LK", (S.n, 2, S.T), 2), arr.vec("flags", S.n))
            return got["arrays"]
        prog = program(grgrlib=StubModule("grgrlib", map2arr=map2arr, fast0=None))
        m = prog.load("tools")
        o = Obj()
        o.dimx, o.dimq, o.dimeps, o.neps, o.dimp = S.dx, S.ds + S.de, S.de, S.de, S.dp
        o.lks, o.debug, o.vv, o.par = (S.lm, S.km), False, orders()[0], arr.vec("par", Int("npar"))
        o.t_func = lambda *a, **k: p.prove(False, "transitions use a copy with the parameters of the sample")
        o.set_par = lambda *a, **k: p.prove(False, "parameters are set on a copy")

        def mapper(f, xs):
            p.prove(arr.deq(xs.length(), S.n), "every sample is simulated")
            state = dict(set=None)

            def loads(fz, **k):
                c = Obj(**fz.fields)

                def set_par(par, return_vv=False, **k):
                    p.prove(arr.arr_equal(par, S.pars.at(S.i)), "parameters of the sample are set")
                    state["set"] = True
                    if p.choose(".reordered"):
                        state["reordered"] = True
                        c.vv = orders()[1]
                    return (par, c.vv) if return_vv else par

                def tf(*a, **k):
                    p.prove(state["set"], "transitions use the parameters of the sample")
                    return S.t_func(*a, **k)
                c.set_par, c.t_func = set_par, tf
                return c
            m.dill.loads = loads
            try:
                r = f(xs.at(S.i))
            except Exception as e:
                if not state.get("reordered") or isinstance(e, Unsupported):
                    raise
                raise Refused()
            p.prove(not state.get("reordered"), "parameters that change the ordering of the variables are refused")
            X, LK, fl = r
            p.prove((zint(fl) != 0) == S.err(S.T), "flag of a sample tells whether one of its transitions raised one")
            t = Int("t")
            p.assume(band(t >= 0, t <= S.T))
            p.prove(X.ndim == 2 and arr.deq(X.shape[0], S.T + 1) and arr.deq(X.shape[1], S.dx), "path has the initial state and one entry per period")
            same(p, X.read_idx((t,)) if not isinstance(X.c, arr.Block) else X[t], S.state(t),
                 "path starts at the initial state and each entry is the transition of the preceding one")
            if p.branch(zint(t) < zint(S.T)):
                p.prove(arr.deq(LK.shape[0], 2) and arr.deq(LK.shape[1], S.T), "durations of every period")
                p.prove(zreal(LK.elem(0, t)) == z3.ToReal(S.LE(zint(t))), "waiting times are those of the transitions")
                p.prove(zreal(LK.elem(1, t)) == z3.ToReal(S.KE(zint(t))), "durations are those of the transitions")
            got["res"] = object()
            return got["res"]
        o.mapper = mapper
        before = dict(o._pv_fields())
        args = dict(pars=S.pars, resid=S.resid, init=S.init)
        call = dict(args)
        if p.choose(".source"):
            call = dict(source=args)
            if p.choose(".both"):
                call = dict(source=dict(args, init=PList([1])), init=S.init)
        p.data["any_hook"] = lambda x: SymBool(z3.Bool(ctx().fresh("any")))
        seen = p.watch()
        try:
            X, (L, K), fl = m.simulate(o, **call, **kw)
        except Refused:
            unchanged(p, o, before)
            return
        p.prove_frame(seen, [x for x in (S.mask, S.pars, S.resid, S.init) if x is not None], "inputs are not modified")
        a = got["arrays"]
        p.prove(X is a[0] and fl is a[2], "stacked paths and flags are returned")
        t = Int("t2")
        p.assume(band(t >= 0, t < S.T))
        same(p, L.elem(S.i, t), a[1].elem(S.i, 0, t), "stacked waiting times come first")
        same(p, K.elem(S.i, t), a[1].elem(S.i, 1, t), "stacked durations come second")
        unchanged(p, o, before)
    out.append(Unit("simulate", lambda p: sim(p, False), functions=["tools.simulate"]))
    out.append(Unit("simulate (masked)", lambda p: sim(p, True), functions=["tools.simulate"]))
    return out
