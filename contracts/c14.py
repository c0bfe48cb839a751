"""C14: variance shares are nonnegative, sum to one and belong to their shocks"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.loops import CellCand, PList
from pyvc.sym import Int, Real, SymInt, SymReal, SymStr, SymNum, band, zint, zreal, mk
from pyvc.arr import SArr, Elem
from .c20 import shims, _consts
from .c21 import Labels, hook
from .model_spec import DataFrame

ASSUMPTIONS = [
    "the impulse response function returns, in its first result, a table of T rows and one column per variable, which is a function of the current parameters, the given state, the shock and its size; for size zero the shock does not matter (C05)",
    "set_par makes the given parameters the current ones (C09)",
    "numpy.random.choice(x, n, replace=False) returns n elements at different positions of x; numpy.sum(axis=0) is the sum over the rows",
    "real arithmetic in place of floating point; names of shocks are distinct",
    "states, innovations and parameters are given per parameter vector and period (three, three and two dimensions), as extract returns them",
]
IZ, BZ, SZ, RZ = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()


class Table(DataFrame):
    def to_numpy(self):
        return self.values


def app(v, f, nvar):
    """leading arguments of a value f(.., j) where the last is the position asked for"""
    z = z3.simplify(v._z) if isinstance(v, SymNum) else None
    if z is None or not z3.is_app(z) or not z.decl().eq(f):
        return None
    ch = z.children()
    if not ctx().entails(ch[-1] == nvar) or any(str(nvar) in _consts(c) for c in ch[:-1]):
        return None
    return ch[:-1]


class Spec:
    def __init__(self, p, lin):
        F = z3.Function
        self.p, self.lin = p, lin
        self.N, self.T, self.nx, self.np, self.H = (Int(x) for x in ("n_par_vectors", "periods", "n_vars", "n_par", "horizon"))
        self.sh = Labels(p, "shocks")
        self.ne = self.sh.n
        p.assume(band(self.N >= 1, self.T >= 1, self.nx >= 1, self.np >= 1, self.H >= 1))
        self.PR, self.ST, self.RS = F("PR", IZ, IZ, RZ), F("ST", IZ, IZ, IZ, RZ), F("RS", IZ, IZ, IZ, RZ)
        # response: parameters, state (sample, period), shock, size, periods, row, variable
        self.RESP = F("RESP", IZ, IZ, IZ, IZ, RZ, IZ, IZ, IZ, RZ)
        self.VOID = F("VOID", IZ, IZ, IZ, IZ, IZ, IZ, RZ)
        self.G, self.TOT = F("G", IZ, IZ, IZ, RZ), F("TOT", IZ, RZ)
        p.data["index_hook"] = hook([self.sh])
        p.data["sum_hook"] = self.sum_hook
        self.draw = None
        self.ns = None

    def name(self, i):
        i = zint(i)
        self.p.assume(z3.Implies(z3.And(i >= 0, i < zint(self.ne)), z3.And(self.sh.KN(self.sh.LAB(i)), self.sh.POS(self.sh.LAB(i)) == i)))
        return SymStr(self.sh.LAB(i))

    def D(self, n):
        """which sample the n-th draw is"""
        d = self.p.data.get("draws", [])
        if not d:
            return mk(zint(n))
        return d[-1].elem(mk(zint(n)))

    def C(self, n, e, v):
        """squared response in draw n"""
        q = self.D(n)
        i, t = (zint(x) for x in arr.idivmod(q, self.T))
        e, v, H = zint(e), zint(v), zint(self.H)
        d = self.RESP(i, i, t, e, self.RS(i, t, e), H, H - 1, v) - self.VOID(i, i, t, H, H - 1, v)
        return d * d

    def cum(self, n, e):
        """sum over the first n draws, as a row of variables"""
        n, e = zint(n), zint(e)

        def el(v):
            v = zint(v)
            m = n - 1
            self.p.assume(self.G(n, e, v) == z3.If(n <= 0, z3.RealVal(0), self.G(m, e, v) + self.C(mk(m), e, v)))
            return mk(self.G(n, e, v))
        return SArr((self.nx,), Elem(el))

    def loops(self, env):
        n = env.loop.it.length() if env.loop.it is not None else None
        out = []
        if n is None:
            return out
        inner = arr.deq(n, self.ne) and env.outer
        for v in env.arrays(2):
            if not (arr.deq(env[v].shape[0], self.ne) and arr.deq(env[v].shape[1], self.nx)):
                continue
            if not inner:
                out.append(CellCand("%s: squared responses summed over the draws so far" % v, v, 1, lambda e, i: True, lambda e, i: self.cum(e.n, i[0])))
            else:
                N = env.outer[-1].n

                def value(e, i):
                    done = self.p.branch(zint(i[0]) < zint(e.n))
                    return self.cum(mk(zint(N) + 1) if done else N, i[0])
                out.append(CellCand("%s: rows of the shocks so far include this draw" % v, v, 1, lambda e, i: True, value))
        return out

    def sum_hook(self, a, axis):
        if a.ndim == 2 and axis == 0 and arr.deq(a.shape[0], self.ne) and arr.deq(a.shape[1], self.nx):
            want = SArr((self.ne, self.nx), Elem(lambda e, v: self.cum(self.ns, e).elem(v)))
            if arr.arr_equal(a, want):
                return SArr((self.nx,), Elem(lambda v: mk(self.TOT(zint(v)))))
            f = z3.Function(ctx().fresh("sum"), IZ, RZ)
            return SArr((self.nx,), Elem(lambda v: mk(f(zint(v)))))
        raise Unsupported("sum of another array")


def gfevd(p, lin, given, verbose):
    S = Spec(p, lin)
    g = shims(p)
    rnd = g.shims["numpy"].random
    ch = rnd.choice

    def choice(*a, **k):
        r = ch(*a, **k)
        p.data.setdefault("draws", []).append(r)
        return r
    g.shims["numpy"].random = StubModule("numpy.random", seed=lambda *a: None, choice=choice)
    g.shims["tqdm"] = StubModule("tqdm", tqdm=lambda it, *a, **k: it)
    g.shims["pandas"] = StubModule("pandas", DataFrame=Table)
    m = g.load("stats")
    p.unit.loops = S.loops
    o = Obj(debug=False)
    o.shocks = PList(sym=(S.ne, S.name))
    o.vv = PList(sym=(S.nx, lambda i: SymStr(z3.Function("VAR", IZ, SZ)(zint(i)))))
    o.neps, o.dimeps, o.dimx = S.ne, S.ne, S.nx
    cur = {}

    def set_par(par=None, *a, **k):
        j = SymInt(z3.Int(ctx().fresh("j")))
        ix = None
        if isinstance(par, SArr) and par.ndim == 1 and arr.deq(par.shape[0], S.np):
            ix = app(par.elem(j), S.PR, j._z)
        cur["par"] = ix[0] if ix is not None else z3.Int(ctx().fresh("other"))

    def irfs(shocklist, pars=None, state=None, T=30, linear=False, set_k=False, verbose=True, **k):
        if pars is not None or k or set_k:
            raise Unsupported("other options of irfs")
        p.prove(bool(linear) == lin, "responses are linear exactly if that is asked for")
        if not (isinstance(shocklist, tuple) and len(shocklist) == 3 and isinstance(shocklist[0], SymStr)):
            raise Unsupported("list of shocks")
        nm, size, when = shocklist
        p.prove(zint(when) == 0, "the shock hits in the first period")
        v = SymInt(z3.Int(ctx().fresh("v")))
        st = app(state.elem(v), S.ST, v._z) if isinstance(state, SArr) else None
        other = ctx().fresh("other")
        st = st if st is not None else (z3.Int(other + "i"), z3.Int(other + "t"))
        par = cur.get("par", z3.Int(other + "p"))
        e = zint(S.sh.pos(nm))
        if isinstance(size, (int, float)) and size == 0:
            at = lambda r, v: mk(S.VOID(par, st[0], st[1], zint(T), zint(r), zint(v)))
        else:
            at = lambda r, v: mk(S.RESP(par, st[0], st[1], e, zreal(size), zint(T), zint(r), zint(v)))
        return Table(SArr((T, S.nx), Elem(at)), None, o.vv), (None, None), None
    o.set_par, o.irfs = set_par, irfs
    mk3 = lambda f, n: SArr(n, Elem(lambda *i: mk(f(*[zint(x) for x in i]))))
    means, pars, resid = mk3(S.ST, (S.N, S.T + 1, S.nx)), mk3(S.PR, (S.N, S.np)), mk3(S.RS, (S.N, S.T, S.ne))
    kw = dict(horizon=S.H, verbose=verbose)
    S.ns = S.N * S.T
    if given:
        S.ns = kw["nsamples"] = Int("nsamples")
        p.assume(band(S.ns >= 1))
        p.assume(zint(S.ns) <= zint(S.N) * zint(S.T))
    if lin:
        kw["linear"] = True
    seen = p.watch()
    p.assume(zint(S.N) * zint(S.T) >= 1)
    vd = m.gfevd(o, dict(means=means, pars=pars, resid=resid), **kw)
    p.prove_frame(seen, [means, pars, resid], "inputs are not modified")
    if not isinstance(vd, DataFrame) or not isinstance(vd.values, SArr):
        raise Unsupported("shares of type %r" % (type(vd),))
    V = vd.values
    p.prove(V.ndim == 2 and arr.deq(V.shape[0], S.ne) and arr.deq(V.shape[1], S.nx), "one share per shock and variable")
    e, v = Int("e"), Int("v")
    p.assume(band(e >= 0, e < S.ne, v >= 0, v < S.nx))
    p.prove(isinstance(vd.index, PList) and arr.deq(vd.index.length(), S.ne) and isinstance(vd.columns, PList) and arr.deq(vd.columns.length(), S.nx),
            "shares are labelled with shocks and variables")
    p.prove(z3.And(vd.index.at(e)._z == S.sh.LAB(e._z), vd.columns.at(v)._z == o.vv.at(v)._z), "labels are in order")
    p.assume(S.TOT(v._z) != 0)
    p.prove(zreal(V.elem(e, v)) == zreal(S.cum(S.ns, e).elem(v)) / S.TOT(v._z),
            "the share of a shock is the sum over the draws of its squared response relative to all shocks")
    a, b = Int("a"), Int("b")
    p.assume(band(a >= 0, b >= 0, a < S.ns, b < S.ns, a != b))
    q = S.D(a)
    p.prove(zint(q) != zint(S.D(b)), "no sample is drawn twice")
    p.prove(z3.And(zint(q) >= 0, zint(q) < zint(S.N) * zint(S.T)), "draws are given samples")


def lemma(p):
    """G(n, e): sums of squares; shares G(e)/TOT with TOT the sum over e"""
    F = z3.Function
    G, C, SG, PS = F("G", IZ, RZ), F("d", IZ, RZ), F("SG", IZ, RZ), F("PS", IZ, RZ)
    n, e, ne = z3.Int("n"), z3.Int("e"), z3.Int("ne")
    # sums of squares are not negative (induction over draws)
    p.prove(z3.Implies(z3.And(G(n) >= 0, G(n + 1) == G(n) + C(n) * C(n)), G(n + 1) >= 0), "sums of squared responses are not negative")
    # partial sums over shocks: SG(0) = 0, SG(e+1) = SG(e) + g(e); each g is below every later partial sum
    g = F("g", IZ, RZ)
    step = z3.And(SG(e + 1) == SG(e) + g(e), g(e) >= 0)
    p.prove(z3.Implies(z3.And(step, SG(e) >= 0), z3.And(SG(e + 1) >= 0, SG(e + 1) >= SG(e), SG(e + 1) >= g(e))), "a shock contributes at most the total")
    tot = z3.Real("tot")
    x = z3.Real("x")
    p.prove(z3.Implies(z3.And(tot > 0, x >= 0, x <= tot), z3.And(x / tot >= 0, x / tot <= 1)), "shares lie between zero and one")
    p.prove(z3.Implies(z3.And(tot > 0, PS(e) == SG(e) / tot, step, PS(e + 1) == PS(e) + g(e) / tot), PS(e + 1) == SG(e + 1) / tot), "partial sums of shares")
    p.prove(z3.Implies(z3.And(tot > 0, SG(ne) == tot, PS(ne) == SG(ne) / tot), PS(ne) == 1), "shares sum to one")


def units(modular=True):
    us = []
    for lin in (False, True):
        for given in (False, True):
            for verbose in (True, False, 0):
                us.append(Unit("stats.gfevd(%s, %s, verbose=%s)" % ("linear" if lin else "nonlinear", "nsamples" if given else "all", verbose),
                               lambda p, a=(lin, given, verbose): gfevd(p, *a), functions=["stats.gfevd"]))
    us.append(Unit("lemma: shares", lemma, functions=["stats.gfevd"]))
    return us
