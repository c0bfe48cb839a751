"""C05: impulse responses follow the shock schedule and the regime countdown"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.loops import Cand, ValCand, CellCand, PList
from pyvc.sym import Int, Real, Bool, SymInt, SymReal, SymBool, SymStr, band, zint, zreal, mk, tobool
from pyvc.arr import Elem, SArr
from .c02 import same
from .model_spec import program, unchanged, DataFrame, orders, Refused

ASSUMPTIONS = [
    "one transition is a function of last period's states, this period's innovations and the regime option (proved in C04)",
    "the search for the regime returns a tabulated regime (proved in C01)",
    "dill.loads(dill.dumps(x)) is an independent copy of x; map2arr stacks the results of the samples in order (checked at run time)",
    "positions of shock names: C21; set_par on the copy: C09",
    "whether a schedule has a shock after period 0 at all may or may not switch the equilibrium selection on (not specified)",
]
IZ, BZ, RZ, SZ = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()


class Spec:
    """the responses as a recursion over periods.

    STEP(t,l,k): rule of regime (l,k) applied to the states of period t-1 and the innovations of period t
    LE,KE,FE(t): regime and flag the search finds there;  LR,KR(t): regime of the responses;  ERR(t): some flag before t
    SH(n,t,j):   innovation j in period t according to the first n entries of the schedule"""

    def __init__(self, p):
        self.p = p
        self.ds, self.de, self.dp = Int("dimstates"), Int("dimeps"), Int("dimp")
        p.assume(band(self.ds >= 1, self.de >= 1, self.dp >= 1))
        self.dx = self.dp + self.ds
        self.lm, self.km = Int("l_max"), Int("k_max")
        p.assume(band(self.lm >= 0, self.km >= 0))
        self.T = Int("T")
        p.assume(self.T >= 0)
        F = z3.Function
        self.LE, self.KE, self.FE = F("LE", IZ, IZ), F("KE", IZ, IZ), F("FE", IZ, IZ)
        self.LR, self.KR, self.ERR = F("LR", IZ, IZ), F("KR", IZ, IZ), F("ERR", IZ, BZ)
        self.HIT = F("HIT", IZ, BZ)
        self.SHF = F("SHF", IZ, IZ, IZ, RZ)
        self.ANY = z3.Bool("some_period_after_0")
        self.linear, self.imposed, self.force = False, None, None
        self.state = None
        self.sched = None              # concrete list of (pos, size, period) or None
        self.N = None                  # length of a symbolic schedule
        self.par = None
        self.calls = 0

    # ------------------------------------------------------------ schedule
    def symbolic_schedule(self):
        p = self.p
        self.N = Int("n_shocks")
        p.assume(self.N >= 0)
        self.NAME, self.SIZE, self.PER = z3.Function("NAME", IZ, SZ), z3.Function("SIZE", IZ, RZ), z3.Function("PER", IZ, IZ)
        self.POS = z3.Function("POS", SZ, IZ)
        return PList(sym=(self.N, lambda i: (SymStr(self.NAME(zint(i))), SymReal(self.SIZE(zint(i))), SymInt(self.PER(zint(i))))))

    def pos(self, name):
        if isinstance(name, str):
            return self.names[name]
        z = self.POS(name._z)
        self.p.assume(z3.And(z >= 0, z < zint(self.de)))
        return SymInt(z)

    def shocks(self, n, t):
        """innovations of period t by the first n entries of the schedule"""
        t = zint(t)
        if self.sched is not None:
            def el(j):
                r = z3.RealVal(0)
                for ps, size, per in self.sched:
                    r = z3.If(z3.And(zint(per) == t, zint(ps) == zint(j)), zreal(size), r)
                return mk(r)
            return SArr((self.de,), Elem(el))
        n = zint(n)

        def el(j):
            j = zint(j)
            i = n - 1
            ps = self.POS(self.NAME(i))
            # definition, and precondition: a shock is listed at most once per period
            self.p.assume(self.SHF(n, t, j) == z3.If(n <= 0, z3.RealVal(0), z3.If(
                z3.And(self.PER(i) == t, ps == j), self.SIZE(i), self.SHF(i, t, j))))
            self.p.assume(z3.Implies(z3.And(n > 0, self.PER(i) == t), self.SHF(i, t, ps) == 0))
            return SymReal(self.SHF(n, t, j))
        return SArr((self.de,), Elem(el))

    @property
    def n(self):
        return self.N if self.sched is None else len(self.sched)

    # ------------------------------------------------------------ regimes
    def imp(self, t):
        """imposed regime counted down t periods: first the waiting time, then the spell"""
        l0, k0 = (zint(x) for x in self.imposed)
        pos = lambda z: z3.If(z > 0, z, z3.IntVal(0))
        return pos(l0 - t), z3.If(t <= l0, k0, pos(k0 - (t - l0)))

    def reg(self, t):
        """regime of period t (definition)"""
        t = zint(t)
        p = self.p
        inr = lambda l, k: z3.And(l >= 0, l <= zint(self.lm), k >= 0, k <= zint(self.km))
        p.assume(inr(self.LE(t), self.KE(t)))
        p.assume(z3.And(self.FE(t) >= 0, self.FE(t) <= 2))
        L1, K1 = self.LR(t - 1), self.KR(t - 1)
        pl, pk = z3.If(t <= 0, z3.IntVal(0), L1), z3.If(t <= 0, z3.IntVal(0), K1)
        if self.linear:
            l, k = z3.IntVal(0), z3.IntVal(0)
        elif self.imposed is not None:
            l, k = self.imp(t)
        else:
            keep = z3.And(tobool(self.force), z3.Not(self.HIT(t)), self.ANY)
            l = z3.If(keep, z3.If(pl != 0, pl - 1, pl), self.LE(t))
            k = z3.If(keep, z3.If(pl != 0, pk, z3.If(pk > 0, pk - 1, z3.IntVal(0))), self.KE(t))
        p.assume(z3.And(self.LR(t) == l, self.KR(t) == k))
        return SymInt(self.LR(t)), SymInt(self.KR(t))

    def flag(self, t):
        t = zint(t)
        if self.linear or self.imposed is not None:
            return z3.IntVal(0)
        keep = z3.And(tobool(self.force), z3.Not(self.HIT(t)), self.ANY)
        return z3.If(keep, z3.IntVal(0), self.FE(t))

    def err(self, n):
        n = zint(n)
        self.p.assume(self.ERR(n) == z3.And(n > 0, z3.Or(self.ERR(n - 1), self.flag(n - 1) != 0)))
        return self.ERR(n)

    def step(self, t, l, k):
        return arr.atom_value("STEP", (mk(zint(t)), mk(zint(l)), mk(zint(k))), (self.dx,))

    def response(self, t):
        """full vector after period t-1"""
        if self.p.branch(zint(t) == 0):
            return self.state if self.state is not None else arr.zeros((self.dx,))
        return self.step(t - 1, *self.reg(t - 1))

    # ------------------------------------------------------------ the model
    def obj(self):
        o = Obj()
        o.dimx, o.dimq, o.dimeps, o.neps, o.dimp = self.dx, self.ds + self.de, self.de, self.de, self.dp
        o.nvar = o.dimx
        o.lks = (self.lm, self.km)
        o.debug = False
        o.par = arr.vec("par", Int("npar"))
        o.vv, self.other_order = orders()
        o.shocks = Names(self)
        o.t_func = self.t_func
        return o

    def t_func(self, state, shocks=None, set_k=None, return_flag=None, return_k=False, get_obs=False, linear=False, verbose=False):
        p = self.p
        ls = ctx().loop_stack
        if not ls or not return_k or get_obs:
            raise RuntimeError("call outside the contract")
        t = ls[0].n
        p.prove(bool(linear) == self.linear, "transitions are linear exactly if that is asked for")
        if self.sched is None and isinstance(shocks, SArr) is False:
            shocks = arr.zeros((self.de,))
        dom = self.dx - self.ds
        ok = arr.arr_equal(state[state.shape[0] - self.ds:], self.response(t)[dom:])
        ok = ok and arr.arr_equal(shocks, self.shocks(self.n, t))
        if not ok:      # another transition: nothing is known about its result
            nm = ctx().fresh("other")
            return arr.vec(nm, self.dx), (Int(nm + "l"), Int(nm + "k")), Int(nm + "f")
        self.reg(t)
        if linear:
            return self.step(t, 0, 0), (0, 0), 0
        if set_k is None or isinstance(set_k, (bool, SymBool)):
            l, k = SymInt(self.LE(zint(t))), SymInt(self.KE(zint(t)))
            return self.step(t, l, k), (l, k), SymInt(self.FE(zint(t)))
        l, k = set_k if isinstance(set_k, tuple) else (mk(z3.If(zint(set_k) == 0, z3.IntVal(1), z3.IntVal(0))), set_k)
        p.prove(z3.And(zint(l) >= 0, zint(l) <= zint(self.lm), zint(k) >= 0, zint(k) <= zint(self.km)),
                "an imposed regime is tabulated")
        return self.step(t, l, k), (l, k), 0

    # ------------------------------------------------------------ numpy.any
    def any_hook(self, x):
        if self.par is not None and x is self.par:
            return True
        ls = ctx().loop_stack
        if ls and arr.arr_equal(x, self.shocks(self.n, ls[0].n)):
            return SymBool(self.HIT(zint(ls[0].n)))
        return None

    def candidates(self, extra=()):
        S = self

        def loops(env):
            out = list(extra)
            if env.it is not None and len(env.outer) == 0 and env.loop.lid.startswith("tools.irfs.") or env.outer == [] and S.is_period(env):
                out += S.period_candidates(env)
            if env.outer and S.is_period_loop(env.outer[0]):
                t = env.outer[0].n
                for v in env.arrays(1):
                    out.append(ValCand("%s are the innovations listed so far" % v, v, lambda e, t=t: S.shocks(e.n, t)))
            for v in [k for k, x in env.items() if isinstance(x, PList)]:
                out.append(Cand("%s has one entry per iteration" % v, lambda e, v=v: e[v].length() == e.n))
                out.append(CellCand("%s repeats the schedule" % v, v, 1, lambda e, i: True, lambda e, i: e.it.at(i[0])))
            return out
        return loops

    def is_period(self, env):
        return self.is_period_loop(env.loop)

    def is_period_loop(self, loop):
        n = loop.it.length() if loop.it is not None and hasattr(loop.it, "length") else None
        return n is not None and n is not self.N

    def period_candidates(self, env):
        S, out = self, []
        if not self.is_period(env):
            return out
        for v in env.arrays(1):
            if not arr.deq(env[v].shape[0], env.it.length()):
                out.append(ValCand("%s is last period's response" % v, v, lambda e: S.response(e.n)))
                continue
            out.append(CellCand("%s holds the waiting times" % v, v, 1, lambda e, i: i[0] < e.n, lambda e, i: S.reg(i[0])[0], alt=True))
            out.append(CellCand("%s holds the durations" % v, v, 1, lambda e, i: i[0] < e.n, lambda e, i: S.reg(i[0])[1], alt=True))
        for v in env.arrays(2):
            out.append(CellCand("%s holds the responses" % v, v, 1, lambda e, i: i[0] < e.n, lambda e, i: S.step(i[0], *S.reg(i[0]))))
        for v in [x for x in env.ints() + env.names(bool, SymBool) if x in env.loop.stored]:
            out.append(Cand("%s is the last waiting time" % v, lambda e, v=v: zint(e[v]) == z3.If(
                zint(e.n) == 0, z3.IntVal(0), zint(S.reg(e.n - 1)[0]))))
            out.append(Cand("%s is the last duration" % v, lambda e, v=v: zint(e[v]) == z3.If(
                zint(e.n) == 0, z3.IntVal(0), zint(S.reg(e.n - 1)[1]))))
            out.append(Cand("%s tells whether some flag was raised" % v, lambda e, v=v: (zint(e[v]) != 0) == S.err(e.n)))
            out.append(Cand("%s is not negative" % v, lambda e, v=v: zint(e[v]) >= 0))
        out.append(Cand("regimes so far are tabulated", lambda e: z3.Or(zint(e.n) == 0, z3.And(
            *[z3.And(zint(x) >= 0, zint(x) <= zint(m)) for x, m in zip(S.reg(e.n - 1), (S.lm, S.km))]))))
        if S.imposed is not None:
            out.append(Cand("imposed regime is tabulated once a period was done", lambda e: z3.Or(zint(e.n) == 0, z3.And(
                zint(S.imposed[0]) <= zint(S.lm), zint(S.imposed[1]) <= zint(S.km)))))
        return out


class Names:
    """list of the names of the shocks"""

    def __init__(self, S):
        self.S = S

    def length(self):
        return self.S.de

    def index(self, name):
        return self.S.pos(name)


OPTIONS = ("linear", "tuple", "int", "free")


def options(p, S, kw, which, full=True):
    if which == "linear":
        S.linear = kw["linear"] = True
    elif which == "tuple":
        S.imposed = kw["set_k"] = (Int("l0"), Int("k0"))
    elif which == "int":
        k = Int("k0")
        p.assume(k >= 1)
        S.imposed = (0, k)
        kw["set_k"] = k
    elif full and p.choose(".none"):
        kw["set_k"] = None
    S.force = True
    if which.startswith("free") and full and p.choose(".force"):
        S.force = kw["force_init_equil"] = bool(p.choose(".value"))
    if which.endswith("state") or which in OPTIONS[:3] and full and p.choose(".state"):
        S.state = kw["state"] = arr.vec("state0", S.dx)
    if S.imposed is not None:
        p.assume(band(S.imposed[0] >= 0, S.imposed[1] >= 0, S.imposed[0] <= S.lm, S.imposed[1] <= S.km))


def units(modular=True):
    out = []

    def base(p, imported=True):
        S = Spec(p)
        p.data["bounds"] = "table access in range"
        p.data["any_hook"] = S.any_hook
        p.data["any_list"] = lambda x: SymBool(S.ANY)
        return S

    def finish(p, S, m, o, sl, kw):
        before = dict(o._pv_fields())
        seen = p.watch()
        verb = 2 if S.state is None else 0
        X, LK, flag = m.irfs(o, sl, T=S.T, verbose=verb, **kw)
        unchanged(p, o, before)
        p.prove_frame(seen, [x for x in [S.state] if x is not None], "the initial state is not modified")
        p.prove(isinstance(X, DataFrame) and X.columns is o.vv, "responses are labelled with the variables")
        p.prove((zint(flag) != 0) == S.err(S.T), "error flag tells whether some transition raised a flag")
        t = Int("t")
        p.assume(band(t >= 0, t < S.T))
        X = X.values
        p.prove(X.ndim == 2 and arr.deq(X.shape[0], S.T) and arr.deq(X.shape[1], S.dx), "one row per period, one column per variable")
        l, k = S.reg(t)
        same(p, X.read_idx((t,)), S.step(t, l, k), "every period is the transition of the last one under its innovations and regime")
        p.prove(zreal(LK.elem(0, t)) == z3.ToReal(zint(l)), "reported waiting times are those of the transitions")
        p.prove(zreal(LK.elem(1, t)) == z3.ToReal(zint(k)), "reported durations are those of the transitions")

    def any_schedule(p, which):
        S = base(p)
        m = program().load("tools")
        kw = {}
        options(p, S, kw, which)
        sl = S.symbolic_schedule()
        p.unit.loops = S.candidates()
        finish(p, S, m, S.obj(), sl, kw)
    for w in OPTIONS + ("free, given state",):
        out.append(Unit("irfs (schedules of any length, %s)" % w, lambda p, w=w: any_schedule(p, w), functions=["tools.irfs"]))

    def forms(p, which):
        """all accepted forms of a schedule"""
        S = base(p)
        m = program().load("tools")
        kw = {}
        options(p, S, kw, which, False)
        a, b = Int("pos_a"), Int("pos_b")
        p.assume(band(a >= 0, b >= 0, a < S.de, b < S.de, a != b))
        S.names = {"a": a, "b": b}
        x, y, s, t = Real("size_a"), Real("size_b"), Int("per_a"), Int("per_b")
        c = 0
        if p.choose(".1"):
            sl, S.sched = "a", [(a, 1, 0)]
        elif p.choose(".2"):
            sl, S.sched = ("a", x), [(a, x, 0)]
        elif p.choose(".3"):
            sl, S.sched = ("a", x, s), [(a, x, s)]
        elif p.choose(".4"):
            sl, S.sched = PList(), []
        else:
            sl, S.sched = PList([("b", y, t), "a", ("b", x)]), [(b, y, t), (a, 1, 0), (b, x, 0)]
            p.assume(t != 0)
        p.data["any_list"] = None
        p.unit.loops = S.candidates()
        # python semantics of numpy.any over the list of periods
        pers = [zint(q[2]) for q in S.sched]
        p.assume(S.ANY == (z3.Or(*[q != 0 for q in pers]) if pers else z3.BoolVal(False)))
        keep = list(sl) if isinstance(sl, list) else sl
        finish(p, S, m, S.obj(), sl, kw)
        if isinstance(sl, list):
            p.prove(len(sl) == len(keep) and all(i is j for i, j in zip(sl, keep)), "the list of shocks is not modified")
    for w in OPTIONS:
        out.append(Unit("irfs (forms of a schedule, %s)" % w, lambda p, w=w: forms(p, w), functions=["tools.irfs"]))

    def refuse(p):
        S = base(p)
        m = program().load("tools")
        kw = {}
        if p.choose(".tuple"):
            S.imposed = (Int("l0"), Int("k0"))
            kw["set_k"] = S.imposed
        else:
            S.imposed = (0, Int("k0"))
            kw["set_k"] = S.imposed[1]
        l, k = S.imposed
        p.assume(band(l >= 0, k >= 0, S.T >= 1))
        p.assume(z3.Or(zint(l) > zint(S.lm), zint(k) > zint(S.km)))
        S.force = True
        sl = S.symbolic_schedule()
        u3.loops = S.candidates()
        try:
            m.irfs(S.obj(), sl, T=S.T, verbose=0, **kw)
        except IndexError:
            p.prove(True, "an imposed regime beyond the tables is refused")
            return
        p.prove(False, "an imposed regime beyond the tables is refused")
    u3 = Unit("irfs (regimes beyond the tables)", refuse, functions=["tools.irfs"])
    out.append(u3)

    def several(p, which):
        """several parameter vectors: each sample is run by a copy of the model compiled with its vector"""
        got = {}
        n = Int("n_samples")
        S = base(p)

        def map2arr(res):
            p.prove(res is got.get("res"), "the results of the samples are stacked")
            r = (arr.family("X", (n, S.T, S.dx), 2), arr.mat("Ls", n, S.T), arr.mat("Ks", n, S.T), arr.vec("flags", n), arr.vec("mult", n))
            got["arrays"] = r
            return r
        m = program(grgrlib=StubModule("grgrlib", map2arr=map2arr, fast0=None)).load("tools")
        p.assume(n >= 1)
        kw = {}
        options(p, S, kw, which, False)
        sl = S.symbolic_schedule()
        p.unit.loops = S.candidates()
        o = S.obj()
        npar = Int("n_prior")
        p.assume(npar >= 1)
        pars = arr.family("PARS", (n, npar), 1)
        state = dict(set=None)

        def mapper(f, xs):
            p.prove(xs is pars, "every parameter vector is evaluated")
            i = Int("sample")
            p.assume(band(i >= 0, i < n))
            S.par = pars.read_idx((i,))

            def set_par(self, par, *a, **k):
                p.prove(self is not o, "parameters are set on a copy")
                p.prove(arr.arr_equal(par, S.par), "parameters of the sample are set")
                state["set"] = True
                if p.choose(".unsolvable"):
                    state["bad"] = True
                    raise ValueError("no solution")
                if p.choose(".reordered"):
                    state["reordered"] = True
                    self.vv = S.other_order
                return (par, self.vv) if k.get("return_vv") else par
            before = dict(o._pv_fields())
            copies = []

            def loads(fz, **k):
                c = Obj(**fz.fields)
                c.set_par = lambda par, *a, **k: set_par(c, par, *a, **k)
                c.t_func = lambda *a, **k: (p.prove(state["set"], "transitions use the parameters of the sample"), S.t_func(*a, **k))[1]
                return c
            m.dill.loads = loads
            try:
                r = f(S.par)
            except Exception as e:
                if not state.get("reordered") or isinstance(e, Unsupported):
                    raise
                raise Refused()
            p.prove(not state.get("reordered"), "parameters that change the ordering of the variables are refused")
            if state.get("bad"):
                p.prove(len(r) == 5 and bool(r[3]), "a vector without solution is flagged")
                got["res"] = object()
                return got["res"]
            X, L, K, flag, mult = r
            p.prove((zint(flag) != 0) == S.err(S.T), "several vectors: error flag of the sample")
            t = Int("t")
            p.assume(band(t >= 0, t < S.T))
            l, k = S.reg(t)
            same(p, X.read_idx((t,)), S.step(t, l, k), "several vectors: responses of the sample")
            p.prove(zreal(L.elem(t)) == z3.ToReal(zint(l)), "several vectors: waiting times of the sample")
            p.prove(zreal(K.elem(t)) == z3.ToReal(zint(k)), "several vectors: durations of the sample")
            got["res"] = object()
            return got["res"]
        o.mapper = mapper
        before = dict(o._pv_fields())
        p.data["any_hook"] = lambda x: SymBool(z3.Bool(ctx().fresh("any"))) if x is got.get("arrays", [0] * 5)[3] or x is got.get("arrays", [0] * 5)[4] else S.any_hook(x)
        try:
            X, LK, flag = m.irfs(o, sl, pars, T=S.T, verbose=1, **kw)
        except Refused:
            unchanged(p, o, before)
            return
        a = got["arrays"]
        p.prove(X is a[0] and flag is a[3], "stacked responses and flags are returned")
        i, j = Int("i"), Int("j")
        p.assume(band(i >= 0, i < n, j >= 0, j < S.T))
        same(p, LK.elem(i, j), a[1].elem(i, j), "stacked waiting times come first")
        same(p, LK.elem(n + i, j), a[2].elem(i, j), "stacked durations follow")
        unchanged(p, o, before)
    for w in OPTIONS:
        out.append(Unit("irfs (several parameter vectors, %s)" % w, lambda p, w=w: several(p, w), functions=["tools.irfs"]))
    return out
