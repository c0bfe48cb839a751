"""C01: the regime search (find_lk, bruite_wrapper, check_cnst)"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx
from pyvc.loader import Program
from pyvc.loops import Cand, SymRange
from pyvc.sym import Int, Real, SymBool, SymInt, SymNum, mk, zint, zreal, tobool, band, bor


class Tables:
    def __init__(self, p, lmin=1, kmin=1):
        self.L, self.K, self.n = Int("L"), Int("K"), Int("nq")
        p.assume(band(self.L >= lmin, self.K >= kmin, self.n >= 1, self.L < 999))
        self.bmat = arr.family("bmat", (5, self.L, self.K, self.n), 3)
        self.bterm = arr.el_array("bterm", (5, self.L, self.K))
        self.q = arr.vec("q", self.n)
        self.x = Real("x_bar")

    def C(self, s, l, k):
        """expected constraint value at the table position s under regime (l,k)"""
        b = arr.atom_value("bmat", (s, l, k), (self.n,))
        return zreal(arr.matmul(b, self.q)) + zreal(self.bterm.elem(s, l, k))

    def sol(self, l, k):
        x, C = self.x._z, self.C
        return z3.And(z3.Implies(l > 0, C(0, l, k) >= x), z3.Implies(l > 1, C(1, l, k) >= x),
                      C(4, l, k) >= x, C(2, l, k) <= x, z3.Implies(k > 1, C(3, l, k) <= x))

    # quantified facts (z3)
    def slack_before(self, v):
        j = z3.Int("j")
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v), self.C(2, j, z3.IntVal(0)) > self.x._z))

    def no_sol_before(self, l, k):
        a, b = z3.Ints("a b")
        return z3.ForAll([a, b], z3.Implies(
            z3.And(a >= 0, b >= 1, a < self.L._z, b < self.K._z, z3.Or(a < l, z3.And(a == l, b < k))),
            z3.Not(self.sol(a, b))))

    def below_before(self, k):
        """some expected exit value in [1,k) lies below the bound"""
        j = z3.Int("j")
        return z3.Exists([j], z3.And(j >= 1, j < k, self.C(4, z3.IntVal(0), j) < self.x._z))

    def leave(self, k):
        return z3.And(self.C(4, z3.IntVal(0), k) > self.x._z, self.below_before(k))

    def no_leave_before(self, k):
        i, j = z3.Ints("i j")
        return z3.ForAll([i, j], z3.Implies(
            z3.And(j >= 1, j < i, i < k, self.C(4, z3.IntVal(0), j) < self.x._z),
            z3.Not(self.C(4, z3.IntVal(0), i) > self.x._z)))

    def lex_least(self, l, k):
        return z3.And(l >= 0, l < self.L._z, k >= 1, k < self.K._z, self.sol(l, k), self.no_sol_before(l, k))


def candidates(T):
    def f(env):
        out = []
        L, K = T.L._z, T.K._z
        ints = [(v, (lambda e, v=v: zint(e[v]))) for v in env.ints()]
        if isinstance(env.it, SymRange):
            ints.append(("<index>", lambda e: zint(e.it.at(e.n))))
        outer = [("<outer%d>" % i, (lambda e, i=i: zint(e.outer[i].cur))) for i in range(len(env.outer))
                 if isinstance(env.outer[i].it, SymRange)]
        bools = [v for v, x in env.items() if isinstance(x, (bool, SymBool, int, SymInt)) and not v.startswith("_")]
        for nm, g in ints:
            out += [Cand("%s>=0" % nm, lambda e, g=g: g(e) >= 0), Cand("%s>=1" % nm, lambda e, g=g: g(e) >= 1),
                    Cand("%s<L" % nm, lambda e, g=g: g(e) < L), Cand("%s<K" % nm, lambda e, g=g: g(e) < K),
                    Cand("%s<=L" % nm, lambda e, g=g: g(e) <= L), Cand("%s<=K" % nm, lambda e, g=g: g(e) <= K),
                    Cand("%s==0" % nm, lambda e, g=g: g(e) == 0), Cand("%s==1" % nm, lambda e, g=g: g(e) == 1),
                    Cand("%s==n" % nm, lambda e, g=g: g(e) == zint(e.n)),
                    Cand("%s==n+1" % nm, lambda e, g=g: g(e) == zint(e.n) + 1),
                    Cand("%s<=max(K-1,0)" % nm, lambda e, g=g: z3.Or(g(e) <= K - 1, g(e) == 0)),
                    Cand("slack before %s" % nm, lambda e, g=g: T.slack_before(g(e))),
                    Cand("slack through %s" % nm, lambda e, g=g: T.slack_before(g(e) + 1)),
                    Cand("no solution with l<%s" % nm, lambda e, g=g: T.no_sol_before(g(e), z3.IntVal(0))),
                    Cand("no leave through %s" % nm, lambda e, g=g: T.no_leave_before(g(e) + 1)),
                    Cand("no leave before %s" % nm, lambda e, g=g: T.no_leave_before(g(e)))]
            for b in bools:
                out.append(Cand("%s iff below seen through %s" % (b, nm),
                                lambda e, g=g, b=b: tobool(e[b]) == T.below_before(g(e) + 1)))
                out.append(Cand("%s iff below seen before %s" % (b, nm),
                                lambda e, g=g, b=b: tobool(e[b]) == T.below_before(g(e))))
                out.append(Cand("%s iff nothing below before %s" % (b, nm),
                                lambda e, g=g, b=b: tobool(e[b]) == z3.Not(T.below_before(g(e)))))
            for on, og in outer:
                out.append(Cand("no solution before (%s,%s)" % (on, nm),
                                lambda e, g=g, og=og: T.no_sol_before(og(e), g(e))))
            for nm2, g2 in ints:
                if nm2 != nm and env.it is None:
                    out.append(Cand("no solution before (%s,%s)" % (nm2, nm),
                                    lambda e, g=g, og=g2: T.no_sol_before(og(e), g(e))))
        return out
    return f


def variants(T):
    def f(env):
        out = []
        for v in env.ints():
            out.append(("L-%s" % v, lambda e, v=v: T.L._z - zint(e[v])))
            out.append(("K-%s" % v, lambda e, v=v: T.K._z - zint(e[v])))
            out.append(("K+1-%s" % v, lambda e, v=v: T.K._z + 1 - zint(e[v])))
        return out
    return f


# ------------------------------------------------------------------ contracts of the callees
def check_cnst_contract(T):
    def check_cnst(bmat, bterm, s, l, k, q0):
        c = ctx()
        s, l, k = zint(s), zint(l), zint(k)
        c.prove(z3.And(s >= 0, s < 5, l >= 0, l < T.L._z, k >= 0, k < T.K._z),
                "precondition of check_cnst: table position in range")
        c.prove(bmat is T.bmat and bterm is T.bterm and q0 is T.q, "precondition of check_cnst: the tables are passed on")
        return mk(T.C(s, l, k))
    return check_cnst


def bruite_contract(T):
    def bruite_wrapper(bmat, bterm, x_bar, q):
        c = ctx()
        c.prove(bmat is T.bmat and bterm is T.bterm and q is T.q and x_bar is T.x,
                "precondition of bruite_wrapper: the tables are passed on")
        if c.choose(".found"):
            l, k = Int(c.fresh("bl")), Int(c.fresh("bk"))
            c.assume(T.lex_least(l._z, k._z))
            return l, k
        c.assume(T.no_sol_before(T.L._z, z3.IntVal(0)))
        return 999, 999
    return bruite_wrapper


def units(modular=True):
    out = []

    def find_lk(p):
        T = Tables(p)
        p.data["bounds"] = "table access in range"
        prog = Program()
        m = prog.load("engine")
        if modular:
            prog.override("engine", "check_cnst", check_cnst_contract(T))
            prog.override("engine", "bruite_wrapper", bruite_contract(T))
        u.loops, u.termination = candidates(T), variants(T)
        l, k, flag = m.find_lk(T.bmat, T.bterm, T.x, T.q)
        l, k, flag = zint(l), zint(k), zint(flag)
        L, K = T.L._z, T.K._z
        z = z3.IntVal(0)
        p.prove(z3.And(l >= 0, l < L, k >= 0, k < K), "result is a regime of the tables")
        p.prove(z3.And(flag >= 0, flag <= 2), "flag is 0, 1 or 2")
        p.prove(z3.Implies(z3.And(flag == 0, k == 0), z3.And(l == 0, T.slack_before(L))),
                "flag 0 and k=0 only if the constraint never binds in expectation")
        p.prove(z3.Implies(z3.And(flag == 0, k > 0), T.lex_least(l, k)),
                "flag 0 and k>0: the lexicographically least consistent regime")
        p.prove(z3.Implies(T.slack_before(L), z3.And(l == 0, k == 0, flag == 0)),
                "a never-binding constraint gives (0,0) without error")
        p.prove(z3.Implies(flag > 0, z3.And(T.no_sol_before(L, z), l == 0)),
                "error flags only if no consistent regime exists")
        p.prove(z3.Implies(flag == 1, z3.And(T.leave(k), T.no_leave_before(k), k >= 1)),
                "flag 1: first duration after which the constraint is left again")
        p.prove(z3.Implies(flag == 2, z3.And(k == K - 1, T.no_leave_before(k + 1))),
                "flag 2: longest duration of the tables, never left before")

    u = Unit("find_lk", find_lk, functions=["engine.find_lk"])
    out.append(u)

    def bruite(p):
        T = Tables(p)
        p.data["bounds"] = "table access in range"
        prog = Program()
        m = prog.load("engine")
        if not hasattr(m, "bruite_wrapper"):
            return
        if modular:
            prog.override("engine", "check_cnst", check_cnst_contract(T))
        u2.loops, u2.termination = candidates(T), variants(T)
        l, k = m.bruite_wrapper(T.bmat, T.bterm, T.x, T.q)
        l, k = zint(l), zint(k)
        p.prove(z3.Or(T.lex_least(l, k), z3.And(l == 999, k == 999, T.no_sol_before(T.L._z, z3.IntVal(0)))),
                "lexicographically least consistent regime, or none exists")

    u2 = Unit("bruite_wrapper", bruite, functions=["engine.bruite_wrapper"])
    u2.top = False
    out.append(u2)

    def cc(p):
        T = Tables(p)
        s, l, k = Int("s"), Int("l"), Int("k")
        p.assume(band(s >= 0, s < 5, l >= 0, l < T.L, k >= 0, k < T.K))
        p.data["bounds"] = "table access in range"
        m = Program().load("engine")
        if not hasattr(m, "check_cnst"):
            return
        r = m.check_cnst(T.bmat, T.bterm, s, l, k, T.q)
        p.prove(zreal(r) == T.C(s._z, l._z, k._z), "constraint value at the table position")
    u3 = Unit("check_cnst", cc, functions=["engine.check_cnst"])
    u3.top = False
    out.append(u3)
    return out
