"""specification of the regime tables, shared by C02, C03, C04, C13 and C19

System (from Boehl, "Efficient Solution of Models with Occasionally Binding Constraints"): with states q and
controls p,    T [q_{t-1}; p_t] = S [q_t; p_{t+1}]          unconstrained
               W [q_{t-1}; p_t] + h = V [q_t; p_{t+1}]      constrained
where the upper right blocks of T and W vanish and their lower right blocks are regular (both established by
gen_sys through an RQ decomposition).  prev(l,k) is the regime one period later.
"""
import z3
from pyvc import arr
from pyvc.core import ctx
from pyvc.loops import Cand, CellCand, ValCand, SymRange
from pyvc.sym import Int, Real, mk, zint, zreal, tobool, band
from pyvc.arr import matmul as mm

Z = z3.IntVal


def zmax(a, b):
    return z3.If(a >= b, a, b)


def zmin(a, b):
    return z3.If(a <= b, a, b)


def loc(s, l, k):
    """regime s periods ahead of (l,k)"""
    s, l, k = zint(s), zint(l), zint(k)
    return z3.simplify(zmax(l - s, Z(0))), z3.simplify(zmax(zmin(k, k + l - s), Z(0)))


def prev(l, k):
    l, k = zint(l), zint(k)
    return z3.simplify(zmax(l - 1, Z(0))), z3.simplify(z3.If(l > 0, k, zmax(k - 1, Z(0))))


class Sys:
    """symbolic system matrices with symbolic dimensions"""

    def __init__(self, p, solution=False):
        self.dq, self.dp = Int("dimq"), Int("dimp")
        p.assume(band(self.dq >= 1, self.dp >= 1))
        self.lm, self.km = Int("l_max"), Int("k_max")
        p.assume(band(self.lm >= 0, self.km >= 0))
        dq, dp = self.dq, self.dp
        self.blocks = {}

        def four(n, lower=False):
            b11, b21, b22 = arr.mat(n + "11", dq, dq), arr.mat(n + "21", dp, dq), arr.mat(n + "22", dp, dp)
            b12 = arr.zeros((dq, dp)) if lower else arr.mat(n + "12", dq, dp)
            self.blocks[n] = b11, b12, b21, b22
            return arr.vstack([arr.hstack([b11, b12]), arr.hstack([b21, b22])])
        self.S, self.V = four("S"), four("V")
        self.T, self.W = four("T", True), four("W", True)
        self.h1, self.h2 = arr.vec("h1", dq), arr.vec("h2", dp)
        self.h = arr.hstack([self.h1, self.h2])
        self.omg, self.lam = arr.mat("omg", dp, dq), arr.mat("lam", dq, dq)
        self.fq1, self.fp1, self.fq0 = arr.vec("fq1", dq), arr.vec("fp1", dp), arr.vec("fq0", dq)
        self.x_bar = Real("x_bar")
        if not solution:
            p.data["unfold"] = dict(PM=lambda l, k: self.define(l, k)[0], PT=lambda l, k: self.define(l, k)[1],
                                    QM=lambda l, k: self.define(l, k)[2], QT=lambda l, k: self.define(l, k)[3],
                                    LAM=lambda s, l, k: self.def_path(s, l, k)[0],
                                    XI=lambda s, l, k: self.def_path(s, l, k)[1])

    # spec families
    def PM(self, l, k):
        return arr.atom_value("PM", (l, k), (self.dp, self.dq))

    def PT(self, l, k):
        return arr.atom_value("PT", (l, k), (self.dp,))

    def QM(self, l, k):
        return arr.atom_value("QM", (l, k), (self.dq, self.dq))

    def QT(self, l, k):
        return arr.atom_value("QT", (l, k), (self.dq,))

    def LAM(self, s, l, k):
        return arr.atom_value("LAM", (s, l, k), (self.dq, self.dq))

    def XI(self, s, l, k):
        return arr.atom_value("XI", (s, l, k), (self.dq,))

    def define(self, l, k):
        """PM, PT, QM, QT at (l,k) in terms of prev(l,k): the unique solution of the equilibrium equations"""
        c = ctx()
        l, k = zint(l), zint(k)
        if c.branch(z3.And(l == 0, k == 0)):
            return self.omg, arr.zeros((self.dp,)), self.lam, arr.zeros((self.dq,))
        free = c.branch(l > 0)
        A, B = ("S", "T") if free else ("V", "W")
        a11, a12, a21, a22 = self.blocks[A]
        b11, _, b21, b22 = self.blocks[B]
        h1, h2 = (arr.zeros((self.dq,)), arr.zeros((self.dp,))) if free else (self.h1, self.h2)
        lp, kp = prev(l, k)
        om, ps = self.PM(lp, kp), self.PT(lp, kp)
        i1, i2 = arr.inv(a11 + mm(a12, om)), arr.inv(b22)
        QM = mm(i1, b11)
        QT = mm(i1, h1 - mm(a12, ps))
        dum = a21 + mm(a22, om)
        PM = mm(i2, mm(dum, QM) - b21)
        PT = mm(i2, mm(dum, QT) + mm(a22, ps) - h2)
        return PM, PT, QM, QT

    def def_path(self, s, l, k):
        """expected states s periods ahead: LAM x + XI"""
        c = ctx()
        s, l, k = zint(s), zint(l), zint(k)
        if c.branch(s == 0):
            return arr.eye(self.dq), arr.zeros((self.dq,))
        lo = loc(s - 1, l, k)
        q = self.QM(*lo)
        return mm(q, self.LAM(s - 1, l, k)), mm(q, self.XI(s - 1, l, k)) + self.QT(*lo)

    def forecast(self, s, l, k):
        """row and constant of the expected constrained expression s periods ahead of regime (l,k)"""
        lo = loc(s, l, k)
        row = mm(self.fp1, self.PM(*lo)) + mm(self.fq1, self.QM(*lo)) + self.fq0
        con = mk(zreal(mm(self.fp1, self.PT(*lo))) + zreal(mm(self.fq1, self.QT(*lo)))
                 + zreal(mm(row, self.XI(s, l, k))))
        return mm(row, self.LAM(s, l, k)), con

    def position(self, j, l, k):
        """period of table position j"""
        j, l, k = zint(j), zint(l), zint(k)
        return z3.simplify(z3.If(j == 0, Z(0), z3.If(j == 1, l - 1, z3.If(j == 2, l, z3.If(j == 3, l + k - 1, l + k)))))


def lex_before(idx, cur):
    (l, k), (a, b) = [zint(x) for x in idx], [zint(x) for x in cur]
    return z3.Or(l < a, z3.And(l == a, k < b))


def table_candidates(Y):
    """loop invariants of the preprocessing: cells already visited hold the spec families"""
    tabs = dict(P=(4, Y.dp, Y.dq, Y.PM), Q=(4, Y.dq, Y.dq, Y.QM), p=(3, Y.dp, None, Y.PT), q=(3, Y.dq, None, Y.QT))

    def f(env):
        out = []
        ranges = [o for o in env.outer if isinstance(o.it, SymRange)]
        par = env.it
        if not isinstance(par, SymRange):
            return out

        def visited(e, idx, swap):
            """(l,k) was visited: lexicographic order of the nest"""
            i, j = (idx[1], idx[0]) if swap else (idx[0], idx[1])
            i, j = zint(i), zint(j)
            here = zint(e.it.at(e.n))
            o = [zint(x.cur) for x in e.outer if isinstance(x.it, SymRange)]
            if not o:
                return i < here
            return z3.Or(i < o[-1], z3.And(i == o[-1], j < here))
        for v in env.arrays():
            a = env[v]
            for nm, (nd, r, c, fam) in tabs.items():
                if a.ndim != nd:
                    continue
                want = (r, c) if c is not None else (r,)
                if not all(arr.deq(x, y) for x, y in zip(a.shape[2:], want)):
                    continue
                for swap in (False, True):
                    out.append(CellCand("%s: visited%s cells are the %s rule" % (v, " (swapped)" if swap else "", nm), v, 2,
                                        lambda e, i, swap=swap: z3.Or(z3.And(zint(i[0]) == 0, zint(i[1]) == 0), visited(e, i, swap)),
                                        lambda e, i, fam=fam: fam(*i)))
        return out
    return f


def forecast_candidates(Y):
    """invariants of the loops that build the forecast tables (5 positions) or trajectories (all s)"""
    base = table_candidates(Y)

    def f(env):
        out = list(base(env))
        it = env.it
        if not isinstance(it, SymRange):
            return out
        outer = [x for x in env.outer if isinstance(x.it, SymRange)]

        def here(e):
            return zint(e.it.at(e.n))

        def cells(e, l, k, s, depth):
            """cell for (l,k) and period s was written before the current point of the nest of depth 1..3"""
            l, k, s = zint(l), zint(k), zint(s)
            o = [zint(x.cur) for x in e.outer if isinstance(x.it, SymRange)]
            if depth == 1:
                return l < here(e)
            if depth == 2:
                return z3.Or(l < o[-1], z3.And(l == o[-1], k < here(e)))
            return z3.Or(l < o[-2], z3.And(l == o[-2], z3.Or(k < o[-1], z3.And(k == o[-1], s < here(e)))))
        depth = len(outer) + 1
        for v in env.arrays():
            a = env[v]
            if depth <= 3 and a.ndim == 4 and arr.deq(a.shape[3], Y.dq) and not arr.deq(a.shape[2], Y.dp) and not arr.deq(a.shape[2], Y.dq):
                five = arr.deq(a.shape[0], 5)
                pos = (lambda i: Y.position(*i)) if five else (lambda i: i[0])
                out.append(CellCand("%s: visited cells are forecasts" % v, v, 3,
                                    lambda e, i, pos=pos, depth=depth: z3.And(cells(e, i[1], i[2], pos(i), depth), zint(pos(i)) >= 0),
                                    lambda e, i, pos=pos: Y.forecast(pos(i), i[1], i[2])[0]))
            if depth <= 3 and a.ndim == 3 and not arr.deq(a.shape[2], Y.dp) and not arr.deq(a.shape[2], Y.dq):
                five = arr.deq(a.shape[0], 5)
                pos = (lambda i: Y.position(*i)) if five else (lambda i: i[0])
                out.append(CellCand("%s: visited cells are forecast constants" % v, v, 3,
                                    lambda e, i, pos=pos, depth=depth: z3.And(cells(e, i[1], i[2], pos(i), depth), zint(pos(i)) >= 0),
                                    lambda e, i, pos=pos: Y.forecast(pos(i), i[1], i[2])[1]))
            if depth == 3:
                lk = lambda e: (e.outer[-2].cur, e.outer[-1].cur)
                if a.ndim == 2 and arr.deq(a.shape[0], Y.dq) and arr.deq(a.shape[1], Y.dq):
                    out.append(ValCand("%s is the expected transition" % v, v, lambda e, lk=lk: Y.LAM(here(e), *lk(e))))
                if a.ndim == 1 and arr.deq(a.shape[0], Y.dq):
                    out.append(ValCand("%s is the expected constant" % v, v, lambda e, lk=lk: Y.XI(here(e), *lk(e))))
        return out
    return f
