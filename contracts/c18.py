"""C18: observables and their bands follow the observation equation"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx
from pyvc.loader import Obj
from pyvc.loops import Cand, CellCand, PList
from pyvc.sym import Int, band, zint, zreal, mk
from pyvc.arr import SArr, Log, FamBase, Elem, matmul as mm
from .c02 import same
from .model_spec import program, unchanged

ASSUMPTIONS = [
    "set_par(par, get_hx_only=True) leaves the observation matrices and constants of these parameters in self.hx (C08, C09)",
    "real arithmetic in place of floating point; the square root is the nonnegative root",
]


class Spec:
    def __init__(self, p):
        self.p = p
        self.ds, self.dp, self.no, self.T, self.N = Int("dimstates"), Int("dimp"), Int("nobs"), Int("T"), Int("N")
        p.assume(band(self.ds >= 1, self.dp >= 1, self.no >= 1, self.T >= 1, self.N >= 1))
        self.dx = self.dp + self.ds
        self.hx = arr.mat("hx0", self.no, self.dp), arr.mat("hx1", self.no, self.ds), arr.vec("hx2", self.no)
        self.frozen = list(self.hx)

    def obj(self):
        o = Obj()
        o.hx, o.dimp, o.dimx = self.hx, self.dp, self.dx
        o.dimeps = o.neps = Int("dimeps")
        o.dimq = self.ds + o.dimeps
        o.observables = Obj()
        o.debug = False
        return o

    def series(self, *i):
        return arr.hstack([arr.atom_value("CONTROLS", i, (self.T, self.dp)), arr.atom_value("STATES", i, (self.T, self.ds))])

    def stack(self):
        return SArr((self.N, self.T, self.dx), Log(1, FamBase(lambda i: self.series(i))))

    def obs(self, t, *i, hx=None):
        """observables of period t"""
        h0, h1, h2 = hx or self.hx
        s = self.series(*i).read_idx((t,))
        return mm(h0, s[: self.dp]) + mm(h1, s[self.dp:]) + h2


def units(modular=True):
    out = []

    def start(p):
        S = Spec(p)
        m = program().load("tools")
        o = S.obj()
        S.t, S.i, S.j = Int("t"), Int("i"), Int("j")
        p.assume(band(S.t >= 0, S.t < S.T, S.i >= 0, S.i < S.N))
        return S, m, o, dict(o._pv_fields())

    def rows(p, got, want, label):
        p.prove(got.ndim == 1 and arr.deq(got.shape[0], want.shape[0]), label + ": shape")
        same(p, got, want, label)

    def series(p):
        S, m, o, before = start(p)
        X = S.series()
        seen = p.watch()
        r = m.o_func(o, X)
        p.prove_frame(seen, S.frozen + [X], "inputs are not modified")
        p.prove(r.ndim == 2 and arr.deq(r.shape[0], S.T) and arr.deq(r.shape[1], S.no), "one row per period, one column per observable")
        rows(p, r._sub_ints((S.t,)), S.obs(S.t), "observables are the observation matrices applied to controls and states plus the constants")
        unchanged(p, o, before)
    out.append(Unit("o_func (series)", series, functions=["tools.o_func"]))

    def stack(p):
        S, m, o, before = start(p)
        X = S.stack()
        r = m.o_func(o, X)
        p.prove(r.ndim == 3 and arr.deq(r.shape[0], S.N) and arr.deq(r.shape[1], S.T) and arr.deq(r.shape[2], S.no), "one series of observables per series")
        rows(p, r._sub_ints((S.i, S.t)), S.obs(S.t, S.i), "observables of a stack: every series follows the observation equation")
        unchanged(p, o, before)
    out.append(Unit("o_func (stacks)", stack, functions=["tools.o_func"]))

    def bands(p):
        S, m, o, before = start(p)
        X = S.series()
        C = arr.family("COV", (S.T, S.dx, S.dx), 1)
        seen = p.watch()
        r = m.o_func(o, X, covs=C)
        p.prove_frame(seen, S.frozen + [X, C], "inputs are not modified")
        io, iv = r
        ob, st = S.obs(S.t), X.read_idx((S.t,))
        Ct = C.read_idx((S.t,))
        root = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
        for x, mid, dim, var, nm in ((iv, st, S.dx, lambda j: Ct.elem(j, j), "variables"),
                                     (io, ob, S.no, lambda j: mm(mm(arr.hstack(S.hx[:2]), Ct), arr.hstack(S.hx[:2]).T).elem(j, j), "observables")):
            j = Int("j_" + nm)
            p.assume(band(j >= 0, j < dim))
            p.prove(x.ndim == 3 and arr.deq(x.shape[0], 3) and arr.deq(x.shape[1], S.T) and arr.deq(x.shape[2], dim), "three bands of the %s" % nm)
            v = zreal(var(j))
            p.assume(v >= 0)       # variances
            p.assume(z3.And(root(v) >= 0, root(v) * root(v) == v))
            sd = mk(root(v)) * 1.96
            lo, md, hi = (zreal(x.elem(b, S.t, j)) for b in range(3))
            e = zreal(mid.elem(j))
            p.prove(md == e, "point estimate of the %s is the middle band" % nm)
            p.prove(lo == e - zreal(sd), "lower band of the %s is 1.96 standard deviations below" % nm)
            p.prove(hi == e + zreal(sd), "upper band of the %s is 1.96 standard deviations above" % nm)
            p.prove(z3.And(lo <= md, md <= hi), "point estimate of the %s lies in between" % nm)
        unchanged(p, o, before)
    out.append(Unit("o_func (bands)", bands, functions=["tools.o_func"]))

    def several(p):
        S, m, o, before = start(p)
        n = Int("n_par")
        p.assume(n >= 1)
        hx = lambda i: (arr.atom_value("H0", (i,), (S.no, S.dp)), arr.atom_value("H1", (i,), (S.no, S.ds)), arr.atom_value("H2", (i,), (S.no,)))
        pars = PList(sym=(S.N, lambda i: arr.atom_value("PAR", (i,), (n,)))) if p.choose(".list") else arr.family("PAR", (S.N, n), 1)

        def set_par(par, *a, **k):
            i = arr.atom_index(par, "PAR")
            if i is not None and arr.arr_equal(par, arr.atom_value("PAR", i, (n,))):
                o.__dict__["hx"] = hx(i[0])
            else:
                c = ctx().fresh("other")
                o.__dict__["hx"] = arr.mat(c + "0", S.no, S.dp), arr.mat(c + "1", S.no, S.ds), arr.vec(c + "2", S.no)
        o.set_par = set_par

        def want(i):
            X = S.series(i)
            h0, h1, h2 = hx(i)
            return mm(X[:, : S.dp], h0.T) + mm(X[:, S.dp:], h1.T) + h2

        def loops(env):
            res = []
            for v in [k for k, x in env.items() if isinstance(x, PList) and x is not pars]:
                res.append(Cand("%s has one entry per vector" % v, lambda e, v=v: e[v].length() == e.n))
                res.append(CellCand("%s holds the observables of each vector" % v, v, 1, lambda e, i: True, lambda e, i: want(i[0])))
            for v in env.arrays(3):
                res.append(CellCand("%s holds the observables of each vector" % v, v, 1, lambda e, i: i[0] < e.n, lambda e, i: want(i[0])))
            return res
        p.unit.loops = loops
        r = m.o_func(o, S.stack(), pars=pars)
        p.prove(r.ndim == 3 and arr.deq(r.shape[0], S.N) and arr.deq(r.shape[1], S.T) and arr.deq(r.shape[2], S.no), "one series of observables per vector")
        rows(p, r._sub_ints((S.i, S.t)), S.obs(S.t, S.i, hx=hx(S.i)), "with several vectors each series uses the equation of its own vector")
    out.append(Unit("o_func (several parameter vectors)", several, functions=["tools.o_func"]))
    return out
