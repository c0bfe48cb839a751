"""C10: the posterior density is prior plus tempered likelihood, and total"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.loops import PList
from pyvc.sym import Int, Real, SymInt, SymReal, SymNum, SymBool, band, zint, zreal, mk, tobool
from pyvc.arr import SArr, Elem
from . import c09, c11
from .model_spec import program

ASSUMPTIONS = [
    "names of parameters are distinct; prior_arg holds the positions of the estimated parameters in the order of the prior (run-time contract)",
    "emcwrap.get_prior returns (frozen distributions, log prior, back-transformation, initial values, bounds); the log prior of a vector is a number, minus infinity, or - only for parameters "
    "for which the model has no solution - no number; log prior and back-transformation do not raise and do not modify the vector",
    "the filter's result is a function of the compiled model, the covariance Q, the data and the state of the random generator; compilation and filter either return or raise an Exception; a successful compilation does not use the random generator, the filter may leave it in any state",
    "gen_sys compiles the given parameters or raises (C09); warnings.catch_warnings restores the filters; KeyboardInterrupt is passed on",
]
INLINED = True
IZ, RZ = z3.IntSort(), z3.RealSort()
FIN, NEG, POS, NAN = range(4)


class Ext:
    """a number, an infinity or no number: kind (FIN, NEG, POS, NAN) and value"""
    _pv_ext = True

    def __init__(self, kind, val):
        self.kind, self.val = kind, val
        self.ndim = 0

    @staticmethod
    def of(x):
        if isinstance(x, Ext):
            return x
        if isinstance(x, float) and x in (float("inf"), float("-inf")):
            return Ext(z3.IntVal(POS if x > 0 else NEG), z3.RealVal(0))
        if isinstance(x, float) and x != x:
            return Ext(z3.IntVal(NAN), z3.RealVal(0))
        return Ext(z3.IntVal(FIN), zreal(x))

    def is_(self, k):
        return self.kind == k

    def __add__(self, o):
        o = Ext.of(o)
        a, b = self.kind, o.kind
        k = z3.If(z3.Or(a == NAN, b == NAN, z3.And(a == NEG, b == POS), z3.And(a == POS, b == NEG)), NAN, z3.If(a == FIN, b, a))
        return Ext(z3.simplify(k), self.val + o.val)
    __radd__ = __add__

    def __neg__(self):
        a = self.kind
        return Ext(z3.If(a == NEG, POS, z3.If(a == POS, NEG, a)), -self.val)

    def __sub__(self, o):
        return self + (-Ext.of(o))

    def __mul__(self, t):
        o = Ext.of(t)
        a, b = self.kind, o.kind
        sg = lambda e: z3.If(e.kind == FIN, z3.If(e.val > 0, 1, z3.If(e.val < 0, -1, 0)), z3.If(e.kind == POS, 1, -1))
        s = sg(self) * sg(o)
        k = z3.If(z3.Or(a == NAN, b == NAN), NAN, z3.If(z3.And(a == FIN, b == FIN), FIN, z3.If(s == 0, NAN, z3.If(s > 0, POS, NEG))))
        return Ext(z3.simplify(k), self.val * o.val)
    __rmul__ = __mul__

    def __format__(self, s):
        return "?"

    def __eq__(self, o):
        o = Ext.of(o)
        return mk(z3.And(self.kind == o.kind, self.kind != NAN, z3.Or(self.kind != FIN, self.val == o.val)))

    def __ne__(self, o):
        return mk(z3.Not((self == o)._z))

    __hash__ = None

    def __lt__(self, o):
        o = Ext.of(o)
        r = lambda e: z3.If(e.kind == FIN, 1, z3.If(e.kind == POS, 2, 0))
        return mk(z3.And(self.kind != NAN, o.kind != NAN, z3.Or(r(self) < r(o), z3.And(self.kind == FIN, o.kind == FIN, self.val < o.val))))

    def __gt__(self, o):
        return Ext.of(o).__lt__(self)

    def __le__(self, o):
        return mk(z3.Or((self < o)._z, (self == o)._z))

    def __ge__(self, o):
        return mk(z3.Or((self > o)._z, (self == o)._z))


def isinf(x):
    if isinstance(x, Ext):
        return mk(z3.Or(x.kind == NEG, x.kind == POS))
    if isinstance(x, SymNum):
        return False
    return x in (float("inf"), float("-inf"))


def isnan(x):
    if isinstance(x, Ext):
        return mk(x.kind == NAN)
    if isinstance(x, SymNum):
        return False
    return x != x


def isfinite(x):
    if isinstance(x, Ext):
        return mk(x.kind == FIN)
    return True if isinstance(x, SymNum) else x == x and x not in (float("inf"), float("-inf"))


def isneginf(x):
    return mk(Ext.of(x).kind == NEG)


def mix(p, name, kinds, idx):
    """an extended number that is a function of idx (small integers: identities of contents)"""
    F, K = z3.Function(name, *([IZ] * len(idx)), RZ), z3.Function(name + "_kind", *([IZ] * len(idx)), IZ)
    a = [z3.IntVal(i) if isinstance(i, int) else zint(i) for i in idx]
    p.assume(z3.Or(*[K(*a) == k for k in kinds]))
    return Ext(K(*a), F(*a))


class Failure(Exception):
    pass


class Posterior:
    """a model prepared for estimation, with everything below it given by contracts"""

    def __init__(self, p, linear, transform, dry, temps=True):
        W = self.W = c09.World(p)
        o = self.o = W.o
        self.p, self.linear = p, linear
        self.rs = ["initial", 0]           # state of the random generator: a value of its own
        self.ticks = 0
        self.vecs = []
        self.seed = Int("seed")
        self.calls = []
        W.loops = None
        ne = Int("neps")
        o.shocks, o.observables, o.vv, o.data = PList(sym=(ne, lambda i: "e")), PList(sym=(Int("nobs"), lambda i: "o")), PList(sym=(Int("nv"), lambda i: "v")), arr.mat("data", Int("T"), Int("nobs"))
        o.fdict = {}
        self.filter = None
        o.create_filter = self.create_filter
        o.gen_sys = self.gen_sys
        o.box_check = lambda *a, **k: None
        np = None
        rnd = StubModule("numpy.random", get_state=lambda *a, **k: list(self.rs), set_state=self.set_state, seed=self.set_seed)
        prog = self.prog = program(
            emcwrap=StubModule("emcwrap", get_prior=self.get_prior),
            warnings=StubModule("warnings", catch_warnings=_Warn, filterwarnings=lambda *a, **k: None, simplefilter=lambda *a, **k: None),
            pathos=StubModule("pathos"))
        n = prog.shims["numpy"]
        n.random, n.isinf, n.isnan, n.isfinite, n.isneginf = rnd, isinf, isnan, isfinite, isneginf
        n.round = lambda x, *a: x
        n.inf, n.nan = Ext.of(float("inf")), Ext.of(float("nan"))
        prog.load("gensys")
        prog.override("gensys", "gen_sys_from_yaml", W.compile)
        prog.load("mpile")
        prog.load("filtering")
        prog.override("filtering", "get_ll", self.get_ll)
        self.m = prog.load("estimation")
        prog.override("filtering", "get_ll", self.get_ll)

    # -- random generator
    def set_state(self, s):
        self.rs = list(s)

    def set_seed(self, s=None):
        if s is None:
            self.tick()
        else:
            self.rs = ["seeded", s]

    def tick(self):
        self.ticks += 1
        self.rs = ["unknown", self.ticks]

    # -- contracts of the callees
    def create_filter(self, *a, **k):
        f = Obj(Q=None, R=None, init_cov=None)
        self.o.filter = f
        q = self.o.QQ(self.o.ppar)
        f.Q = arr.matmul(q, q)
        return f

    def get_prior(self, prior, **k):
        if prior is not self.o.prior:
            raise Unsupported("prior of another model")
        return "frozen", self.lprior, self.bptrans, "init", "bounds"

    def ident(self, v):
        """content of a vector of estimated parameters"""
        for j, x in enumerate(self.vecs):
            if x is v:
                return j
        w = SArr((self.W.k,), Elem(v.copy().elem if isinstance(v, SArr) else v.at))
        for j, x in enumerate(self.vecs):
            if arr.deq(x.shape[0], w.shape[0]) and self.same(x, w):
                return j
        self.vecs.append(w)
        return len(self.vecs) - 1

    def same(self, x, y):
        def one():
            i = SymInt(z3.Int(ctx().fresh("ei")))
            ctx().assume(z3.And(i._z >= 0, i._z < zint(self.W.k)))
            return ctx().entails(zreal(x.elem(i)) == zreal(y.elem(i)))
        return all(ctx().forall_paths(one))

    def lprior(self, v):
        return mix(self.p, "LPRIOR", (FIN, NEG, NAN), [self.ident(v)])

    def bptrans(self, v, *a):
        if a and a[0] is not True:
            raise Unsupported("transformation")
        j = self.ident(v)
        B = z3.Function("BACK", IZ, IZ, RZ)
        return SArr((self.W.k,), Elem(lambda i: mk(B(z3.IntVal(j), zint(i)))))

    def SOLVES(self, j, l, k):
        return z3.Function("SOLVES", IZ, IZ, IZ, z3.BoolSort())(z3.IntVal(j), zint(l), zint(k))

    def gen_sys(self, par=None, l_max=None, k_max=None, **kw):
        """compiles exactly these parameters, or fails"""
        p, W = self.p, self.W
        j = W.seen(par)
        if l_max is None or k_max is None:
            raise Unsupported("compilation with other durations")
        if not p.branch(self.SOLVES(j, l_max, k_max)):
            self.tick()
            raise ValueError("no solution")
        W.compile(self.o, par)
        self.o.durations = (l_max, k_max)
        return self.o

    def get_ll(self, o, *a, **kw):
        p, W = self.p, self.W
        if o is not self.o or a or set(kw) - {"verbose", "dispatch"}:
            raise Unsupported("likelihood with other options")
        key = self.state_key()
        self.calls.append(key)
        self.tick()
        if key is None:
            p.prove(False, "the likelihood is evaluated with the covariance of its parameters and the seed")
        c = z3.Function("FAILS", IZ, IZ, IZ, IZ, z3.BoolSort())(*[z3.IntVal(x) if isinstance(x, int) else zint(x) for x in key])
        if p.branch(c):
            raise Failure("filter failed")
        o.ll = mix(p, "LOGLIK", (FIN, NEG), key)
        if self.linear:
            # the linear filter replaces the covariance by the one of the states
            o.filter.Q = o.filter.Q_full = arr.mat("instates", Int("dimx"), Int("dimx"))
        return o.ll

    def state_key(self):
        o, W = self.o, self.W
        q = o.QQ(o.ppar)
        if not (isinstance(o.filter.Q, SArr) and arr.arr_equal(o.filter.Q, arr.matmul(q, q))):
            return None
        if self.rs[0] != "seeded":
            return None
        return W.seen(o.ppar), zint(o.durations[0]), zint(o.durations[1]), zint(self.rs[1])

    # -- specification
    def want(self, v, temp, transform, l, k, fix=None):
        """(prior, likelihood): of the vector as given to the posterior"""
        p, W = self.p, self.W
        if transform:
            v = self.bptrans(v)
        lp = self.lprior(v)
        inv = W.inverse(SArr((W.k,), Elem(lambda i: W.arg.at(i))))
        FX = W.FIX if fix is None else fix
        v0 = v.copy()

        def at(i):
            e, j = inv(i)
            return mk(z3.If(e, zreal(v0.elem(mk(j))), FX(zint(i))))
        j = W.seen(SArr((W.n,), Elem(at)))
        key = (j, zint(l), zint(k), zint(self.seed))
        solves = self.SOLVES(j, l, k)
        fails = z3.Function("FAILS", IZ, IZ, IZ, IZ, z3.BoolSort())(*[z3.IntVal(x) if isinstance(x, int) else x for x in key])
        ll = mix(p, "LOGLIK", (FIN, NEG), key)
        # no prior density: only where there is no solution either
        p.assume(z3.Implies(lp.kind == NAN, z3.Not(solves)))
        ok = z3.And(solves, z3.Not(fails))
        return lp, ll, ok


class _Warn:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return PList([])

    def __exit__(self, *a):
        return False


def units(modular=True):
    out = []

    def evaluations(p, two, linear):
        trans = bool(p.choose(".transform"))
        S = Posterior(p, linear, trans, False)
        W, o, m = S.W, S.o, S.m

        # preparing starts with the prior mean: any solvable parameters will do
        def set_par(self, *a, **k):
            P0 = z3.Function("START", IZ, RZ)
            W.compile(o, PList(sym=(W.n, lambda i: mk(P0(zint(i))))))
        S.prog.override("mpile", "set_par", set_par)
        l, k = Int("l_max"), Int("k_max")
        kw = dict(l_max=l, k_max=k, seed=S.seed, linear=linear, dry_run=False, verbose=False, ncores=0, use_prior_transform=trans)
        m.prep_estim(o, **kw)
        if linear:
            l, k = 1, 0
        p.prove(o.lprior == S.lprior and callable(o.lprob), "prior and posterior are accessible")
        V = [z3.Function("VEC%d" % i, IZ, RZ) for i in range(2)]
        vec = lambda f: SArr((W.k,), Elem(lambda i: mk(f(zint(i)))))
        # the vectors that the functions keep between evaluations are arbitrary where parameters are estimated
        kept = kept_arrays(o.lprob) + kept_arrays(o.llike)
        H = z3.Function("HISTORY", IZ, RZ)
        for a in kept:
            if arr.deq(a.shape[0], W.n) and a is not W.fix:
                inv = W.inverse(SArr((W.k,), Elem(lambda i: W.arg.at(i))))
                a._set(Elem(lambda i: mk(z3.If(inv(i)[0], H(zint(i)), W.FIX(zint(i))))))
        P1 = z3.Function("EARLIER", IZ, RZ)
        W.compile(o, PList(sym=(W.n, lambda i: mk(P1(zint(i))))))
        if linear:
            o.filter.Q = o.filter.Q_full = arr.mat("instates", Int("dimx"), Int("dimx"))
        if two:
            # an earlier evaluation, with any outcome, possibly with other fixed parameters
            a = dict(verbose=False)
            if p.choose(".earlier with other fixed"):
                G = z3.Function("OTHERFIX", IZ, RZ)
                a["par_fix"] = SArr((W.n,), Elem(lambda i: mk(G(zint(i)))))
            try:
                o.lprob(vec(V[1]), **a)
            except Unsupported:
                raise
            except Exception as e:
                p.prove(False, "evaluating the posterior never raises", detail=repr(e))
                return
        given = vec(V[0])
        S.rs = ["initial", 1]
        a = {}
        temp = mk(z3.RealVal(1))
        tr, fix = trans, None
        if not two:
            # which of the options are used: each on its own, and all together
            opt = "temperature" if p.choose(".temperature") else "transform" if p.choose(".transform as argument") else "verbose" if p.choose(".verbose") else "fixed" if p.choose(".other fixed") \
                else "all" if p.choose(".all") else "none"
            if opt in ("temperature", "all"):
                temp = a["temp"] = Real("temp")
                p.assume(temp >= 0)
            if opt in ("transform", "all"):
                tr = a["use_prior_transform"] = not trans
            if opt == "verbose":
                a["verbose"] = 2 if p.choose(".very") else True
            if opt in ("fixed", "all"):
                fix = z3.Function("OTHERFIX", IZ, RZ)
                a["par_fix"] = SArr((W.n,), Elem(lambda i: mk(fix(zint(i)))))
        S.calls.clear()
        seen = p.watch()
        try:
            r = o.lprob(given, **a)
        except (Unsupported,):
            raise
        except Exception as e:
            p.prove(False, "evaluating the posterior never raises", detail=repr(e))
            return
        p.prove_frame(seen, [given, W.fix], "neither the given vector nor the calibrated values are modified")
        p.prove(S.rs == ["initial", 1], "the random state is left as it was")
        lp, ll, ok = S.want(given, temp, tr, l, k, fix)
        R = Ext.of(r)
        t = zreal(temp)
        neg = z3.Or(lp.kind == NEG, z3.And(t > 0, z3.Or(z3.Not(ok), ll.kind == NEG)))
        p.prove(z3.Implies(neg, R.kind == NEG), "minus infinity if the prior is, the model has no solution or the filter fails or has no number")
        p.prove(z3.Implies(z3.And(z3.Not(neg), lp.kind == FIN), z3.And(R.kind == FIN, R.val == lp.val + z3.If(t == 0, 0, t * ll.val))), "log prior plus temperature times log likelihood of exactly these parameters")
        # what is kept stays the calibrated values where nothing is estimated
        i = Int("i")
        p.assume(band(i >= 0, i < W.n))
        e, _ = W.inverse(SArr((W.k,), Elem(lambda i: W.arg.at(i))))(i)
        for x in kept:
            if arr.deq(x.shape[0], W.n):
                p.prove(z3.Implies(z3.Not(e), zreal(x.elem(i)) == W.FIX(i._z)), "evaluations do not alter the fixed parameters of others")
    for two in (False, True):
        for lin in (True, False):
            out.append(Unit("lprob (%s, %s)" % ("linear" if lin else "nonlinear", "after another evaluation" if two else "any state"), lambda p, two=two, lin=lin: evaluations(p, two, lin),
                            functions=["estimation.prep_estim", "estimation.prep_estim.lprob", "estimation.prep_estim.llike"], time_limit=400))

    def number(p, kind):
        """the likelihood of a filter is what the filter returns, minus infinity if that is no number"""
        W = c11.World(p)
        g = W.program()
        n = g.shims["numpy"]
        n.isnan, n.isinf, n.isfinite = isnan, isinf, isfinite
        n.inf, n.nan = Ext.of(float("inf")), Ext.of(float("nan"))
        m = g.load("filtering")
        o = W.o
        p.assume(band(W.no == W.ne, W.no >= 2))
        f = Obj(name="KalmanFilter" if kind == "KF" else "TEnKF", init_cov=None, Q=W.var, reduced_form=kind == "reduced")
        o.filter = f
        res = mix(p, "RESULT", (FIN, NEG, NAN), [0])
        f.batch_filter = lambda Z, *a, **k: ("means", "covs", res) if kind == "KF" else (res if k.get("calc_ll") else "states")
        f.rts_smoother = lambda *a, **k: (_ for _ in ()).throw(Unsupported("smoother"))
        r = m.get_ll(o) if p.choose(".get_ll") else m.run_filter(o, smoother=False, get_ll=True)
        if not isinstance(r, (Ext, float)):
            p.prove(False, "a likelihood is returned")
            return
        r, s = Ext.of(r), Ext.of(o.ll)
        for x, nm in ((r, "returned"), (s, "stored")):
            p.prove(z3.If(res.kind == NAN, x.kind == NEG, z3.And(x.kind == res.kind, x.val == res.val)), "the %s likelihood is that of the filter, minus infinity if that is no number" % nm)
    for kind in ("KF", "full", "reduced"):
        out.append(Unit("get_ll (%s)" % kind, lambda p, kind=kind: number(p, kind), functions=["filtering.get_ll", "filtering.run_filter"]))
    return out


def kept_arrays(f):
    """arrays that a function object keeps between calls: defaults and captured variables"""
    xs = list(getattr(f, "__defaults__", None) or ()) + list((getattr(f, "__kwdefaults__", None) or {}).values())
    for c in getattr(f, "__closure__", None) or ():
        try:
            xs.append(c.cell_contents)
        except ValueError:
            pass
    out = []
    for x in xs:
        if isinstance(x, SArr) and x.ndim == 1 and not any(x is y for y in out):
            out.append(x)
    return out
