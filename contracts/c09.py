"""C09: setting and reading parameters is coherent"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule, SymDict
from pyvc.loops import Cand, CellCand, PList
from pyvc.sym import Int, Real, SymInt, SymStr, SymReal, band, zint, zreal, mk
from pyvc.arr import SArr, Elem
from .c21 import Labels
from .model_spec import program, unchanged

ASSUMPTIONS = [
    "names of parameters (and of dependent ones) are distinct; prior_arg holds the positions of the estimated parameters in the order of the prior (established when parsing; run-time contract)",
    "a vector with as many entries as there are parameters is a full vector (if all parameters are estimated there is no difference in length)",
    "the matrices of the model are functions of the compiled parameters only (C08); gen_sys either solves the model or raises, and what it compiles is a function of the matrices, x_bar and the maximal durations (C07)",
    "numpy.round(x, d) is a function of x and d",
]
INLINED = True
SETS = ("cov_mat", "best", "prior", "post", "posterior", "posterior_mean", "post_mean", "mode", "mcmc_mode", "mode_mcmc", "posterior_mode", "post_mode", "calib",
        "prior_mean", "adj_prior_mean", "init")
IZ, BZ, SZ, RZ = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()


class Name(SymStr):
    @property
    def name(self):
        return self


class Entry:
    """one line of the prior: [init, lower, upper, distribution, a, b]"""

    def __init__(self, W, i):
        self.W, self.i = W, zint(i)

    def __getitem__(self, k):
        if k in (-2, 4):
            return mk(self.W.PA(self.i))
        if k in (-1, 5):
            return mk(self.W.PB(self.i))
        if k == 3:
            return SymStr(self.W.DIST(self.i))
        raise Unsupported("entry %r of a prior" % (k,))

    def __contains__(self, s):
        if s != "uniform":
            raise Unsupported("prior contains %r" % (s,))
        return ctx().branch(self.W.DIST(self.i) == "uniform")

    def index(self, s):
        raise Unsupported("position in a prior")


class Prior:
    def __init__(self, W):
        self.W = W
        self._pv_symiter = True

    def keys(self):
        return self.W.prior.list

    def at(self, i):
        return self.W.prior.list.at(i)

    def length(self):
        return self.W.prior.n

    def values(self):
        return PList(sym=(self.W.prior.n, lambda i: Entry(self.W, i)))

    def items(self):
        return PList(sym=(self.W.prior.n, lambda i: (self.at(i), Entry(self.W, i))))

    def __getitem__(self, name):
        return Entry(self.W, self.W.prior.pos(name))


class World:
    """a model with n parameters, some of them estimated, and dependent ones"""

    def __init__(self, p, has_par=True):
        self.p = p
        F = z3.Function
        self.par, self.prior, self.dep = Labels(p, "parameters"), Labels(p, "prior"), Labels(p, "dependent")
        for L in (self.par, self.prior, self.dep):
            L.list = PList(sym=(L.n, lambda i, L=L: self.name_at(L, i)))
        self.n, self.k = self.par.n, self.prior.n
        p.assume(self.k <= self.n)
        self.ARG, self.INV, self.EST = F("ARG", IZ, IZ), F("INV", IZ, IZ), F("EST", IZ, BZ)
        self.FIX, self.OLD, self.MODE = (F(x, IZ, RZ) for x in ("FIX", "OLD", "MODE"))
        self.PA, self.PB, self.DIST = F("PRIOR_A", IZ, RZ), F("PRIOR_B", IZ, RZ), F("PRIOR_DIST", IZ, SZ)
        self.pars_seen = []
        p.data["index_hook"] = self.index
        p.data["inverse"] = self.inverse
        o = self.o = Obj()
        self.arg = o.prior_arg = PList(sym=(self.k, lambda i: mk(self.arg_at(i))))
        o.parameters = self.par.list
        o.prior_names = self.prior.list
        o.prior = Prior(self)
        o.parafunc = [self.dep.list, self.dep_values]
        o.par_fix = self.fix = SArr((self.n,), Elem(lambda i: mk(self.FIX(zint(i)))))
        if has_par:
            o.par = PList(sym=(self.n, lambda i: mk(self.OLD(zint(i)))))
        o.compiled = None
        o.vv = object()
        self.mode = SArr((self.k,), Elem(lambda i: mk(self.MODE(zint(i)))))
        o.fdict = dict(mode_x=self.mode)
        o.ndim = self.k
        o.QQ = lambda ppar: SArr((Int("neps"), Int("neps")), arr.Block.single(Int("neps"), Int("neps"), arr.Poly.of(arr.nc.atom("QQ%d" % self.seen(ppar)))))
        o.debug = False

    # -- what the names mean
    def name_at(self, L, i):
        """names are distinct"""
        i = zint(i)
        self.p.assume(z3.Implies(z3.And(i >= 0, i < zint(L.n)), z3.And(L.KN(L.LAB(i)), L.POS(L.LAB(i)) == i)))
        return Name(L.LAB(i))

    def arg_at(self, i):
        i = zint(i)
        a = self.ARG(i)
        self.p.assume(z3.Implies(z3.And(i >= 0, i < zint(self.k)), z3.And(a >= 0, a < zint(self.n), self.EST(a), self.INV(a) == i,
                                                                         self.par.LAB(a) == self.prior.LAB(i))))
        return a

    def inverse(self, key):
        if not self.is_arg(key):
            return None

        def inv(i):
            i = zint(i)
            self.p.assume(z3.Implies(z3.And(self.EST(i), i >= 0, i < zint(self.n)),
                                     z3.And(self.INV(i) >= 0, self.INV(i) < zint(self.k), self.ARG(self.INV(i)) == i)))
            return self.EST(i), self.INV(i)
        return inv

    def is_arg(self, key):
        if not arr.deq(key.shape[0], self.k):
            return False

        def one():
            i = SymInt(z3.Int(ctx().fresh("arg")))
            ctx().assume(z3.And(i._z >= 0, i._z < zint(self.k)))
            return ctx().entails(zint(key.elem(i)) == self.arg_at(i))
        return all(ctx().forall_paths(one))

    def index(self, lst, v):
        for L in (self.par, self.prior, self.dep):
            if L.is_mine(lst):
                if isinstance(v, str):
                    v = SymStr(z3.StringVal(v))
                if ctx().branch(L.known(v)):
                    q = L.pos(v)
                    # names are distinct
                    self.p.assume(z3.Implies(L.LAB(q._z) == v._z, L.POS(v._z) == q._z))
                    if L is self.prior:
                        self.par_of(v)
                    return q
                raise ValueError("not in list")
        raise Unsupported("position in an unknown list")

    def par_of(self, v):
        """an estimated parameter is a parameter: same name, position given by prior_arg"""
        q = self.prior.pos(v)
        a = self.arg_at(q)
        self.par.known(v)
        self.p.assume(z3.Implies(self.prior.KN(v._z), z3.And(self.par.KN(v._z), self.par.POS(v._z) == a)))

    def seen(self, v):
        """identifies contents of parameter vectors: same number, same content"""
        if isinstance(v, Compiled):
            v = v.par
        w = v.copy() if isinstance(v, SArr) else PList(sym=(v.length(), v.at)) if v.sym is not None and not list.__len__(v) else v
        for j, x in enumerate(self.pars_seen):
            if self.equal(x, w):
                return j
        self.pars_seen.append(w)
        return len(self.pars_seen) - 1

    def equal(self, x, y):
        get = lambda v, i: v.elem(i) if isinstance(v, SArr) else v.at(i)
        ln = lambda v: v.shape[0] if isinstance(v, SArr) else v.length()
        if not (arr.deq(ln(x), self.n) and arr.deq(ln(y), self.n)):
            return False

        def one():
            i = SymInt(z3.Int(ctx().fresh("pi")))
            ctx().assume(z3.And(i._z >= 0, i._z < zint(self.n)))
            return ctx().entails(zreal(get(x, i)) == zreal(get(y, i)))
        return all(ctx().forall_paths(one))

    def dep_values(self, par):
        """dependent parameters: some function of the values of all parameters"""
        j = self.seen(par)
        D = z3.Function("DEP", IZ, IZ, RZ)
        return SArr((self.dep.n,), Elem(lambda i: mk(D(z3.IntVal(j), zint(i)))))

    # -- contract of the compilation
    def compile(self, o, par=None, *a, **k):
        if o is not self.o:
            raise Unsupported("compilation of another object")
        if par is None:
            self.o.par = PList(sym=(self.n, lambda i: mk(self.FIX(zint(i)))))
        else:
            w = par.copy() if isinstance(par, SArr) else par
            self.o.par = PList(list.__iter__(w) if isinstance(w, list) else (), sym=(w.length(), w.at) if isinstance(w, SArr) else w.sym)
        self.o.compiled = self.o.par
        self.o.ppar = Compiled(self.o.par)
        return self.o


class Compiled:
    def __init__(self, par):
        self.par = par


def at(v, i):
    return zreal(v.elem(i) if isinstance(v, SArr) else v.at(i))


def load(p, has_par=True):
    W = World(p, has_par)
    prog = program()
    g = prog.load("gensys")
    prog.override("gensys", "gen_sys_from_yaml", W.compile)
    m = prog.load("mpile")
    W.prog = prog
    W.i = Int("i")
    p.assume(band(W.i >= 0, W.i < W.n))
    return W, m


def units(modular=True):
    out = []

    def new_is(p, W, r, want, filt=None):
        o, i = W.o, W.i
        for v, nm in ((r, "returned parameters"), (o.par, "parameters read back as set, all others keep their value"), (o.compiled, "the compiled system is the one of exactly these values")):
            if v is None or not (isinstance(v, (SArr, PList))):
                p.prove(False, nm)
                continue
            p.prove(arr.deq(v.shape[0] if isinstance(v, SArr) else v.length(), W.n), nm + " (one value per parameter)")
            p.prove(at(v, i) == want, nm)
        if filt is not None:
            q = o.QQ(o.ppar)
            p.prove(arr.arr_equal(filt.Q, arr.matmul(q, q)), "the shock covariance of the filter follows the parameters")
        p.prove(W.equal(o.par_fix, SArr((W.n,), Elem(lambda j: mk(W.FIX(zint(j)))))), "calibrated values are kept")

    def by_name(p):
        W, m = load(p)
        nm, v = Name(z3.String("name")), Real("value")
        before = dict(W.o._pv_fields())
        W.par.known(nm), W.dep.known(nm)
        try:
            r = m.set_par(W.o, nm, v)
        except (SyntaxError, KeyError, ValueError):
            p.prove(z3.Not(W.par.KN(nm._z)), "only unknown and dependent parameters are refused")
            unchanged(p, W.o, before, "a refusal changes nothing")
            return
        p.prove(W.par.KN(nm._z), "unknown and dependent parameters are refused")
        p.assume(z3.Implies(W.par.LAB(W.i._z) == nm._z, W.par.POS(nm._z) == W.i._z))
        new_is(p, W, r, z3.If(W.i._z == W.par.POS(nm._z), zreal(v), W.OLD(W.i._z)))
    out.append(Unit("set_par (by name)", by_name, functions=["mpile.set_par", "mpile.get_par"]))

    def vectors(p):
        W, m = load(p, has_par=p.choose(".has parameters"))
        W.o.filter = Obj(Q=arr.mat("stale", Int("neps"), Int("neps")))
        V = z3.Function("GIVEN", IZ, RZ)
        full = p.choose(".full")
        if not full:
            p.assume(W.k < W.n)
        ln = W.n if full else W.k
        el = lambda i: mk(V(zint(i)))
        given = SArr((ln,), Elem(el)) if p.choose(".array") else PList(sym=(ln, el))
        base = W.OLD if "par" in W.o._pv_fields() else W.FIX
        inv = W.inverse(SArr((W.k,), Elem(lambda i: W.arg.at(i))))

        def loops(env):
            """a loop over the estimated parameters has placed the first n of them"""
            def val(e, i):
                a, b = inv(i[0])
                return mk(z3.If(z3.And(a, b < zint(e.n)), V(b), base(zint(i[0]))))
            return [CellCand("%s holds the first of the given values" % v, v, 1, lambda e, i: True, val) for v in env.arrays(1) if arr.deq(env[v].shape[0], W.n) and env[v] is not given]
        p.unit.loops = loops
        seen = p.watch()
        r = m.set_par(W.o, given)
        p.prove_frame(seen, [given, W.fix], "the given vector is not modified")
        e, j = W.inverse(SArr((W.k,), Elem(lambda i: W.arg.at(i))))(W.i)
        new_is(p, W, r, V(W.i._z) if full else z3.If(e, V(j), base(W.i._z)), filt=W.o.filter)
    out.append(Unit("set_par (vectors)", vectors, functions=["mpile.set_par", "mpile.get_par"]))

    def sets(p, which):
        W, m = load(p)
        e, j = W.inverse(SArr((W.k,), Elem(lambda i: W.arg.at(i))))(W.i)
        INIT = z3.Function("INIT", IZ, RZ)

        def mean(j):
            v = z3.If(W.DIST(j) == "uniform", (W.PA(j) + W.PB(j)) / 2, W.PA(j))
            return z3.If(W.DIST(j) == "inv_gamma_dynare", W.PA(j) * 10, v) if which == "adj_prior_mean" else v
        vals = dict(calib=W.FIX(W.i._z), mode=W.MODE(j), best=W.MODE(j), init=INIT(j), prior_mean=mean(j), adj_prior_mean=mean(j))
        vals["best, no mode"] = INIT(j)
        init = SArr((W.k,), Elem(lambda i: mk(INIT(zint(i)))))
        if which in ("init", "best, no mode"):
            W.o.fdict = dict(init_value=init)

        def loops(env):
            res = []
            for v in [x for x, y in env.items() if isinstance(y, PList) and y.sym is None and not list.__len__(y) or isinstance(y, PList) and x.startswith("par_cand")]:
                res.append(Cand("%s has one entry per estimated parameter so far" % v, lambda e, v=v: e[v].length() == e.n))
                res.append(CellCand("%s holds the prior means" % v, v, 1, lambda e, i: True,
                                    lambda e, i: mk(mean(zint(i[0])))))
            return res
        p.unit.loops = loops
        seen = p.watch()
        if which is None:
            r = m.set_par(W.o)
            want = W.OLD(W.i._z)
        else:
            names = dict(mode=["mode", "mcmc_mode", "posterior_mode"]).get(which, [which and which.split(",")[0]])
            nm = names[0] if len(names) == 1 or p.choose(".mode") else names[1] if p.choose(".mcmc_mode") else names[2]
            # no parameter has the name of a set
            for x in SETS:
                p.assume(z3.And(z3.Not(W.par.known(x)), z3.Not(W.dep.known(x))))
            r = m.set_par(W.o, nm)
            want = z3.If(e, vals[which], W.FIX(W.i._z))
        p.prove_frame(seen, [W.fix, W.mode, init], "calibrated values and stored sets are not modified")
        new_is(p, W, r, want)
    for which in (None, "calib", "mode", "best", "best, no mode", "init", "prior_mean", "adj_prior_mean"):
        out.append(Unit("set_par (%s)" % (which or "nothing given"), lambda p, which=which: sets(p, which), functions=["mpile.set_par", "mpile.get_par"]))

    def missing(p):
        W, m = load(p)
        W.o.fdict = {}
        nm = "mode" if p.choose(".mode") else SymStr(z3.String("name"))
        z = z3.StringVal(nm) if isinstance(nm, str) else nm._z
        if not isinstance(nm, str):
            for s in SETS:
                p.assume(z != s)
        L = Name(z)
        p.assume(z3.And(z3.Not(W.par.known(L)), z3.Not(W.dep.known(L))))
        before = dict(W.o._pv_fields())
        f = m.get_par if p.choose(".get") else m.set_par
        try:
            f(W.o, nm)
        except (KeyError, ValueError, SyntaxError):
            unchanged(p, W.o, before, "a refusal changes nothing")
            return
        p.prove(False, "names and sets that do not exist are refused")
    out.append(Unit("set_par, get_par (sets that do not exist)", missing, functions=["mpile.set_par", "mpile.get_par"]))

    def altered(p):
        W, m = load(p)
        V = z3.Function("GIVEN", IZ, RZ)
        full = p.choose(".full")
        p.assume(W.k < W.n)
        ln = W.n if full else W.k
        given = SArr((ln,), Elem(lambda i: mk(V(zint(i)))))
        nm, v = Name(z3.String("name")), Real("value")
        L = W.par if full else W.prior
        p.assume(L.known(nm))
        W.par.known(nm)
        if not full:
            W.par_of(nm)
        before = dict(W.o._pv_fields())
        seen = p.watch()
        kw = dict(return_vv=True) if p.choose(".vv") else {}
        r = m.set_par(W.o, nm, v, npar=given, **kw)
        if kw:
            p.prove(isinstance(r, tuple) and len(r) == 2 and r[1] is W.o.vv, "variable names are returned along")
            r = r[0]
        p.prove_frame(seen, [given, W.fix], "altering a given vector leaves it alone")
        unchanged(p, W.o, before, "altering a given vector leaves the model alone")
        p.prove(isinstance(r, SArr) and r is not given and arr.deq(r.shape[0], ln), "a vector of the same kind is returned")
        j = Int("j")
        p.assume(band(j >= 0, j < ln))
        p.assume(z3.Implies(L.LAB(j._z) == nm._z, L.POS(nm._z) == j._z))
        p.prove(at(r, j) == z3.If(j._z == L.POS(nm._z), zreal(v), V(j._z)), "exactly the named entry of the vector is altered")
    out.append(Unit("set_par (of a given vector)", altered, functions=["mpile.set_par"]))

    def reading(p):
        W, m = load(p)
        V = z3.Function("GIVEN", IZ, RZ)
        given = None
        cur = lambda i: W.OLD(zint(i))
        e, jn = W.inverse(SArr((W.k,), Elem(lambda i: W.arg.at(i))))(W.i)
        if p.choose(".given"):
            full = p.choose(".full")
            if not full:
                p.assume(W.k < W.n)
            ln = W.n if full else W.k
            given = SArr((ln,), Elem(lambda i: mk(V(zint(i)))))
            if full:
                cur = lambda i: V(zint(i))
            else:
                def cur(i):
                    a, b = W.inverse(SArr((W.k,), Elem(lambda i: W.arg.at(i))))(i)
                    return z3.If(a, V(b), W.OLD(zint(i)))
        kw = {} if given is None else dict(npar=given)
        curv = SArr((W.n,), Elem(lambda i: mk(cur(i))))
        before = dict(W.o._pv_fields())
        seen = p.watch()
        how = ("name" if p.choose(".name") else "vector" if p.choose(".vector") else "estimated" if p.choose(".estimated") else "dict")
        D = z3.Function("DEP", IZ, IZ, RZ)
        R = z3.Function("ROUND", RZ, IZ, RZ)
        i = W.i
        if how == "name":
            nm = Name(z3.String("name"))
            W.par.known(nm), W.dep.known(nm)
            for s in SETS:
                p.assume(nm._z != s)
            try:
                r = m.get_par(W.o, nm, **kw)
            except (KeyError, ValueError, SyntaxError):
                p.prove(z3.Not(z3.Or(W.par.KN(nm._z), W.dep.KN(nm._z))), "only unknown names are refused when reading")
                unchanged(p, W.o, before, "reading does not change the model")
                return
            p.prove(z3.Or(W.par.KN(nm._z), W.dep.KN(nm._z)), "unknown names are refused when reading")
            if p.branch(W.par.KN(nm._z)):
                p.prove(zreal(r) == zreal(curv.elem(mk(W.par.POS(nm._z)))), "a parameter reads as set (by name)")
            else:
                p.prove(zreal(r) == D(z3.IntVal(W.seen(curv)), W.dep.POS(nm._z)), "a dependent parameter is that of the current values")
        elif how == "vector":
            r = m.get_par(W.o, **kw)
            p.prove(isinstance(r, SArr) and arr.deq(r.shape[0], W.n), "one value per parameter")
            p.prove(at(r, i) == zreal(curv.elem(i)), "parameters read as set (vector)")
        elif how == "estimated":
            r = m.get_par(W.o, full=False, **kw)
            j = Int("j")
            p.assume(band(j >= 0, j < W.k))
            p.prove(arr.deq(r.shape[0], W.k), "one value per estimated parameter")
            p.prove(at(r, j) == zreal(curv.elem(mk(W.arg_at(j)))), "estimated parameters read as set, in the order of the prior")
        else:
            d, pf = m.get_par(W.o, asdict=True, roundto=7, **kw)
            ok = isinstance(d, SymDict) and isinstance(pf, SymDict)
            p.prove(ok and arr.deq(d.n, W.n) and arr.deq(pf.n, W.dep.n), "dicts of all parameters and of the dependent ones")
            k, v = d.pair(i)
            p.prove(z3.And(k._z == W.par.LAB(i._z), zreal(v) == R(zreal(curv.elem(i)), 7)), "parameters read as set (dict, rounded)")
            j = Int("j")
            p.assume(band(j >= 0, j < W.dep.n))
            k, v = pf.pair(j)
            p.prove(z3.And(k._z == W.dep.LAB(j._z), zreal(v) == R(D(z3.IntVal(W.seen(curv)), j._z), 7)), "dependent parameters are those of the current values (dict, rounded)")
        unchanged(p, W.o, before, "reading does not change the model")
        p.prove_frame(seen, [x for x in (given, W.fix, W.o.par) if x is not None], "reading does not change vectors")
    out.append(Unit("get_par", reading, functions=["mpile.get_par"]))

    def drawn(p, which):
        """draws: the estimated parameters as drawn, the others as calibrated, whatever they are set to"""
        W, m = load(p)
        ns = Int("nsamples")
        p.assume(ns >= 1)
        DR = z3.Function("DRAW", IZ, IZ, RZ)
        asked = []

        def sampler(self, *a, **k):
            k.pop("verbose", None), k.pop("debug", None)
            asked.append((self, list(a) + [k.pop("nsamples")] if "nsamples" in k else list(a), k))
            row = lambda i: SArr((W.k,), Elem(lambda j: mk(DR(zint(i), zint(j)))))
            if which == "prior":
                return SArr((ns, W.k), Elem(lambda i, j: mk(DR(zint(i), zint(j)))))
            return PList(sym=(ns, row))
        W.prog.override("mpile", "prior_sampler", sampler)
        W.prog.override("mpile", "posterior_sampler", sampler)
        nm = "prior" if which == "prior" else "post" if p.choose(".short") else "posterior"
        for x in SETS:
            p.assume(z3.And(z3.Not(W.par.known(x)), z3.Not(W.dep.known(x))))
        inv = W.inverse(SArr((W.k,), Elem(lambda i: W.arg.at(i))))

        def cell(i, j):
            e, q = inv(j)
            return z3.If(e, DR(zint(i), q), W.FIX(zint(j)))

        def loops(env):
            return [CellCand("%s holds the draws so far" % v, v, 2, lambda e, i: True, lambda e, i: mk(z3.If(zint(i[0]) < zint(e.n), cell(i[0], i[1]), W.FIX(zint(i[1])))))
                    for v in env.arrays(2) if arr.deq(env[v].shape[1], W.n)]
        p.unit.loops = loops
        seen = p.watch()
        full = p.choose(".full")
        r = m.get_par(W.o, nm, nsamples=ns, full=full)
        p.prove_frame(seen, [W.fix], "calibrated values are not modified")
        p.prove(len(asked) == 1 and asked[0][0] is W.o and len(asked[0][1]) == 1 and arr.deq(asked[0][1][0], ns), "as many draws as asked for are taken, once")
        i = Int("i_draw")
        p.assume(band(i >= 0, i < ns))
        if not full:
            x = r.at(i) if isinstance(r, PList) else r[i]
            j = Int("j")
            p.assume(band(j >= 0, j < W.k))
            p.prove(zreal(x.elem(j)) == DR(i._z, j._z), "estimated parameters are as drawn")
            return
        p.prove(isinstance(r, SArr) and r.ndim == 2 and arr.deq(r.shape[0], ns) and arr.deq(r.shape[1], W.n), "one line per draw with all parameters")
        p.prove(zreal(r.elem(i, W.i)) == cell(i, W.i), "estimated parameters are as drawn, others as calibrated")
    for which in ("prior", "posterior"):
        out.append(Unit("get_par (draws of the %s)" % which, lambda p, which=which: drawn(p, which), functions=["mpile.get_par"]))

    def compiled(p):
        """gen_sys is called with the matrices of exactly the given values"""
        W, m = load(p)
        g = program()
        g.load("gensys")
        calls = []

        def gen_sys(self, *a, **k):
            calls.append((self, a, k))
            return self
        g.override("gensys", "gen_sys", gen_sys)
        g = g.mods["gensys"]
        o = W.o
        V = z3.Function("GIVEN", IZ, RZ)
        vv = Labels(p, "variables")
        vv.list = PList(sym=(vv.n, lambda i: Name(vv.LAB(zint(i)))))
        o.variables, o.const_var = vv.list, "r"
        o.pcompile = lambda par: Compiled(PList(sym=(par.length(), par.at)))
        ne = Int("neps")
        p.assume(ne >= 1)
        nv, no, nx = vv.n, Int("nobs"), Int("nz")
        shapes = dict(AA=(nv, nv), BB=(nv, nv), CC=(nv, nv), PSI=(nv, ne), bb=(nv + nv,), bb_PSI=(ne,), ZZ0=(no, nv), ZZ1=(no,))

        def mat(nm, j):
            return (arr.mat if len(shapes[nm]) == 2 else arr.vec)("%s%d" % (nm, j), *shapes[nm])
        for nm in shapes:
            setattr(o, nm, lambda ppar, nm=nm: mat(nm, W.seen(ppar)))
        given = p.choose(".given")
        par = (SArr((W.n,), Elem(lambda i: mk(V(zint(i))))) if p.choose(".array") else PList(sym=(W.n, lambda i: mk(V(zint(i)))))) if given else None
        o.p0 = lambda: PList(sym=(W.n, lambda i: mk(W.FIX(zint(i)))))
        F = V if given else W.FIX
        want = SArr((W.n,), Elem(lambda i: mk(F(zint(i)))))
        xb = Name(z3.StringVal("x_bar"))
        W.par.known(xb), W.dep.known(xb)
        D = z3.Function("DEP", IZ, IZ, RZ)
        x_bar = z3.If(W.par.KN(xb._z), F(W.par.POS(xb._z)), z3.If(W.dep.KN(xb._z), D(z3.IntVal(W.seen(want)), W.dep.POS(xb._z)), -1))
        kw = {}
        if p.choose(".options"):
            kw = dict(l_max=Int("l_max"), k_max=Int("k_max"), get_hx_only=True, parallel=True, verbose=False)
        try:
            r = g.gen_sys_from_yaml(o, par, **kw)
        except NotImplementedError:
            p.prove(x_bar > 0, "only a positive bound is refused")
            return
        p.prove(r is o and len(calls) == 1 and calls[0][0] is o, "the system is generated once, for this model")
        p.prove(arr.deq(o.par.length(), W.n), "one value per parameter")
        p.prove(at(o.par, W.i) == F(W.i._z), "the parameters of the model are those given (by default the calibrated ones)")
        p.prove(o.par is not par, "the given vector is not aliased")
        p.prove(zreal(o.x_bar) == x_bar, "the bound is the current value of x_bar")
        j = W.seen(want)
        names = "AA0 BB0 CC0 DD0 fb0 fc0 fd0 ZZ0 ZZ1 l_max k_max solution get_hx_only parallel verbose".split()
        got = dict(zip(names, calls[0][1]), **calls[0][2])
        bb = mat("bb", j)
        exp = dict(AA0=mat("AA", j), BB0=mat("BB", j), CC0=mat("CC", j), DD0=-mat("PSI", j), fb0=-bb[:nv], fc0=-bb[nv:], fd0=-mat("bb_PSI", j), ZZ0=mat("ZZ0", j), ZZ1=mat("ZZ1", j))
        for k, v in exp.items():
            x = got.get(k)
            p.prove(isinstance(x, SArr) and x.ndim == v.ndim and arr.arr_equal(x, v), "%s is that of the current parameters" % k)
        for k in ("l_max", "k_max", "get_hx_only"):
            x = got.get(k)
            w = kw.get(k, False if k == "get_hx_only" else None)
            p.prove(x is w or (x is not None and w is not None and p.entails(zint(x) == zint(w))), "%s is passed on" % k)
    out.append(Unit("gen_sys_from_yaml", compiled, functions=["gensys.gen_sys_from_yaml"]))
    return out
