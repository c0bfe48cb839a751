"""C07: the compressed system is equivalent to the declared linear model"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.loops import PList
from pyvc.npshim import block_diag
from pyvc.sym import Int, Real, SymInt, SymReal, SymStr, SymNum, band, zint, zreal, mk, tobool
from pyvc.arr import SArr, Elem
from .model_spec import program

ASSUMPTIONS = [
    "no coefficient lies strictly between zero and the tolerance of grgrlib.fast0, which tells whether the entries of an array, or all entries of its columns, are zero",
    "scipy.linalg.rq(M) returns R, Q with M = R Q and Q orthogonal; numpy.pad, block, hstack, vstack, scipy.linalg.block_diag and boolean masks assemble arrays in order; a mask that is true at the last m of its positions selects these last; two masks of which exactly one is true at every position select as many positions as there are",
    "grgrlib.klein and speed_kills return the rules of the unique stable solution of PU [q_t; p_{t+1}] = MU [q_{t-1}; p_t] with the given number of states; engine.preprocess turns the matrices it is given into the rules of every regime (C02)",
    "every variable and every shock enters some equation or the constraint, names of variables are distinct, and the constraint contains the constrained variable; real arithmetic in place of floating point",
    "the coefficient functions of the parsed model return the matrices of C08",
]
IZ, BZ, SZ, RZ = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()


class Rot:
    """Q @ X for the orthogonal Q of a decomposition"""

    def __init__(self, tok, X):
        self.tok, self.X = tok, X


class QM:
    def __init__(self, M):
        self.M = M

    def __matmul__(self, X):
        if not isinstance(X, SArr):
            raise Unsupported("product of the rotation")
        return Rot(self, X)


class RM:
    def __init__(self, tok):
        self.tok = tok

    @property
    def T(self):
        return Rot(self.tok, self.tok.M.T)


class Spec:
    def __init__(self, p, fd=True, obs=True):
        F = z3.Function
        self.p = p
        self.n, self.ne, self.no = Int("n_vars"), Int("n_shocks"), Int("n_obs")
        self.c = Int("position_of_constrained")
        p.assume(band(self.n >= 2, self.ne >= 1, self.no >= 1, self.c >= 0, self.c < self.n))
        f2 = lambda nm: F(nm, IZ, IZ, RZ)
        f1 = lambda nm: F(nm, IZ, RZ)
        self.A, self.B, self.C, self.D, self.Z0 = f2("A"), f2("B"), f2("C"), f2("D"), f2("Z0")
        self.fb, self.fc, self.fd, self.Z1 = f1("fb"), f1("fc"), f1("fd"), f1("Z1")
        self.hasfd, self.obs = fd, obs
        self.LAB, self.POS = F("LAB", IZ, SZ), F("POS", SZ, IZ)
        # where a variable or shock enters
        self.WV, self.WS = F("row_of_var", IZ, IZ), F("row_of_shock", IZ, IZ)
        p.assume(self.fb(self.c._z) != 0)
        self.xbar = Real("x_bar")
        self.fast = []
        p.data["masks"] = True
        p.data["split_set"] = True
        p.data["index_hook"] = self.index
        R0 = self.n - 1
        mat = lambda f, *s: SArr(s, Elem(lambda *i: mk(f(*[zint(x) for x in i]))))
        self.inp = dict(A=mat(self.A, R0, self.n), B=mat(self.B, R0, self.n), C=mat(self.C, R0, self.n), D=mat(self.D, R0, self.ne),
                        fb=mat(self.fb, self.n), fc=mat(self.fc, self.n), fd=mat(self.fd, self.ne) if fd else None,
                        Z0=mat(self.Z0, self.no, self.n) if obs else None, Z1=mat(self.Z1, self.no) if obs else None)

    def name(self, j):
        j = zint(j)
        self.p.assume(z3.Implies(z3.And(j >= 0, j < zint(self.n)), self.POS(self.LAB(j)) == j))
        return SymStr(self.LAB(j))

    def cname(self):
        return self.name(self.c)

    def vv(self):
        return SArr((self.n,), Elem(lambda j: self.name(j)))

    def index(self, lst, v):
        """first position of the name of the constrained variable"""
        if not (isinstance(v, SymStr) and ctx().entails(v._z == self.LAB(self.c._z))):
            raise Unsupported("position of another name")
        ok = ctx().entails(self.c._z < zint(lst.length())) and ctx().entails(lst.at(self.c)._z == v._z)

        def before():
            j = SymInt(z3.Int(ctx().fresh("before")))
            ctx().assume(z3.And(j._z >= 0, j._z < self.c._z))
            self.name(j)
            return ctx().entails(lst.at(j)._z != v._z)
        if not (ok and all(ctx().forall_paths(before))):
            raise Unsupported("position in another list")
        return self.c

    def fast0(self, a, mode=-1, tol=None):
        me = SArr(a.shape, a.c)
        # entries up to the default tolerance are zero by assumption; those below a larger one need not be
        if tol is not None and not isinstance(tol, (int, float)):
            raise Unsupported("fast0")
        tol = tol if tol is not None and tol > 1e-8 else None
        if tol is None:
            zero = lambda x: x == 0
        else:
            t = z3.RealVal(str(tol))
            zero = lambda x: z3.And(x < t, -x < t)
        if mode == -1 or a.ndim == 1 and mode != 0:
            return SArr(a.shape, Elem(lambda *i: mk(zero(zreal(me.elem(*i))))), dtype="bool")
        if mode != 0 or a.ndim != 2:
            raise Unsupported("fast0")
        Z, W = z3.Function(ctx().fresh("zero_col"), IZ, BZ), z3.Function(ctx().fresh("nonzero_row"), IZ, IZ)
        self.fast.append((me, Z, W, zero))
        return SArr((a.shape[1],), Elem(lambda j: mk(Z(zint(j)))), dtype="bool")

    def zero_facts(self, j, rows):
        """what the masks of zero columns say about column j"""
        z = zint(j)
        ws = []
        for me, Z, W, zero in self.fast:
            inr = z3.And(z >= 0, z < zint(me.shape[1]))
            if not ctx().branch(inr):
                continue
            w = W(z)
            if ctx().branch(z3.Not(Z(z))):
                ctx().assume(z3.And(w >= 0, w < zint(me.shape[0])))
                ctx().assume(z3.Not(zero(zreal(me.elem(mk(w), j)))))
                ws.append(mk(w))
        for me, Z, W, zero in self.fast:
            if not ctx().branch(z3.And(z >= 0, z < zint(me.shape[1]))) or not ctx().branch(Z(z)):
                continue
            for r in list(rows) + ws:
                if ctx().branch(z3.And(zint(r) >= 0, zint(r) < zint(me.shape[0]))):
                    ctx().assume(zero(zreal(me.elem(r, j))))

    # ------------------------------------------------ the extended system, by definition
    def setup(self):
        """enumerations of the masks the code has used"""
        sels = [s for s, _ in self.p.data.get("selections", [])]
        al = [s for s in sels if s.parent is None and arr.deq(s.n, self.n)]
        if len(al) > 1:
            raise Unsupported("several masks over the declared variables")
        self.all = al[0] if al else None
        self.ns = 0
        if self.all is not None:
            self.ns = self.all.cnt if not ctx().entails(self.all.cnt._z == 0) else 0
        self.n1 = self.n + self.ns
        self.N = self.n1 + self.ne
        full = [s for s in sels if s.parent is None and arr.deq(s.n, self.N) and s is not self.all]
        if len(full) != 2:
            raise Unsupported("%d masks over all variables and shocks" % len(full))
        last = lambda s: z3.simplify(z3.BoolVal(True))
        self.q, self.pp = full

        def shocks_in(s):
            def one():
                e = SymInt(z3.Int(ctx().fresh("e")))
                ctx().assume(z3.And(e._z >= 0, e._z < zint(self.ne)))
                self.shock_enters(e)
                j = self.n1 + e
                self.zero_facts(j, [mk(self.WS(e._z))])
                return ctx().entails(s.has(j))
            return all(ctx().forall_paths(one))
        if not shocks_in(self.q):
            self.q, self.pp = self.pp, self.q
        self.p.prove(shocks_in(self.q), "shocks are states of the compiled system")

    def shock_enters(self, e):
        e = zint(e)
        w = self.WS(e)
        self.p.assume(z3.And(w >= 0, w < zint(self.n) - 1))
        self.p.assume(z3.Or(self.D(w, e) != 0, self.fd(e) != 0) if self.hasfd else self.D(w, e) != 0)

    def var_enters(self, j):
        j = zint(j)
        w = self.WV(j)
        self.p.assume(z3.And(w >= 0, w < zint(self.n) - 1))
        self.p.assume(z3.Or(self.A(w, j) != 0, self.B(w, j) != 0, self.C(w, j) != 0, self.fb(j) != 0, self.fc(j) != 0))

    def in_all(self, j):
        """branch: does declared variable j have leads and lags"""
        if self.all is None:
            return False
        self.all.rank(j)
        return ctx().branch(self.all.has(j))

    def col(self, s):
        """kind of a column: ("var", j) / ("aux", number) / ("shock", e)"""
        if ctx().branch(zint(s) < zint(self.n)):
            return "var", s
        if ctx().branch(zint(s) < zint(self.n1)):
            return "aux", s - self.n
        return "shock", s - self.n1

    def row(self, r):
        R0 = self.n - 1
        if ctx().branch(zint(r) < zint(R0)):
            return "eq", r
        if ctx().branch(zint(r) < zint(R0 + self.ns)):
            return "aux", r - R0
        if ctx().branch(zint(r) < zint(R0 + self.ns + self.ne)):
            return "shock", r - R0 - self.ns
        return "cons", None

    ZERO = z3.RealVal(0)

    def norm(self, x):
        return -x / self.fb(self.c._z)

    def XA(self, r, s):
        (rk, ri), (ck, ci) = self.row(r), self.col(s)
        return self.A(zint(ri), zint(ci)) if rk == "eq" and ck == "var" else self.ZERO

    def XB(self, r, s, restricted=False):
        (rk, ri), (ck, ci) = self.row(r), self.col(s)
        if rk == "eq":
            return self.B(zint(ri), zint(ci)) if ck == "var" else self.ZERO
        if rk == "aux":
            j = self.all.member(ri)
            if ck == "aux":
                return z3.If(zint(ci) == zint(ri), z3.RealVal(1), self.ZERO)
            if ck == "var":
                self.all.rank(ci)
                return z3.If(zint(ci) == zint(j), z3.RealVal(-1), self.ZERO)
            return self.ZERO
        if rk == "shock":
            return z3.If(zint(ci) == zint(ri), z3.RealVal(1), self.ZERO) if ck == "shock" else self.ZERO
        if restricted:
            return z3.If(zint(ci) == self.c._z, z3.RealVal(-1), self.ZERO) if ck == "var" else self.ZERO
        return self.fB(s)

    def XC(self, r, s, restricted=False):
        (rk, ri), (ck, ci) = self.row(r), self.col(s)
        if rk == "cons":
            return self.ZERO if restricted else self.fC(s)
        if rk != "eq":
            return self.ZERO
        if ck == "shock":
            return self.D(zint(ri), zint(ci))
        if ck == "aux":
            return self.C(zint(ri), zint(self.all.member(ci)))
        return self.ZERO if self.in_all(ci) else self.C(zint(ri), zint(ci))

    def fB(self, s):
        ck, ci = self.col(s)
        return self.norm(self.fb(zint(ci))) if ck == "var" else self.ZERO

    def fB1(self, s):
        """without the constrained variable itself"""
        ck, ci = self.col(s)
        return z3.If(zint(ci) == self.c._z, self.ZERO, self.norm(self.fb(zint(ci)))) if ck == "var" else self.ZERO

    def fC(self, s):
        ck, ci = self.col(s)
        if ck == "shock":
            return self.norm(self.fd(zint(ci))) if self.hasfd else self.ZERO
        if ck == "aux":
            return self.norm(self.fc(zint(self.all.member(ci))))
        return self.ZERO if self.in_all(ci) else self.norm(self.fc(zint(ci)))

    # ------------------------------------------------
    def pair(self, fq, fp, sign=1):
        """matrix with the columns of states, then controls"""
        def at(r, k):
            if ctx().branch(zint(k) < self.q.cnt._z):
                v = fq(r, self.q.at(k))
            else:
                v = fp(r, self.pp.at(k - self.q.cnt))
            return mk(v if sign == 1 else -v)
        return SArr((self.N, self.q.cnt + self.pp.cnt), Elem(at))

    def masks(self):
        """no coefficient is lost: what is not a control has no lead, what is not a state has no lag"""
        p = self.p

        def one():
            s, r = SymInt(z3.Int(ctx().fresh("s"))), SymInt(z3.Int(ctx().fresh("r")))
            ctx().assume(z3.And(s._z >= 0, s._z < zint(self.N), r._z >= 0, r._z < zint(self.N)))
            ck, ci = self.col(s)
            rows = [r]
            if ck == "var":
                self.var_enters(ci)
                rows.append(mk(self.WV(zint(ci))))
            elif ck == "shock":
                self.shock_enters(ci)
                rows.append(mk(self.WS(zint(ci))))
                rows.append(self.n - 1 + self.ns + ci)
            else:
                rows.append(self.n - 1 + ci)
            A, B, C, fB, fC = self.XA(r, s), self.XB(r, s), self.XC(r, s), self.fB(s), self.fC(s)
            self.zero_facts(s, rows)
            q, c = self.q.has(s), self.pp.has(s)
            out = []
            for b, what in ((z3.Xor(q, c), "every variable and shock is either a state or a control"),
                            (z3.Implies(z3.Not(c), A == 0), "a variable with a lead is a control"),
                            (z3.Implies(z3.Not(q), z3.And(C == 0, fC == 0)), "a variable with a lag is a state")):
                out.append((p.prove(b, "", record=False), what))
            return out
        res = ctx().forall_paths(one)
        for k in range(3):
            p.prove(bool(res) and all(x[k][0] for x in res), res[0][k][1] if res else "masks")
        p.assume(self.q.cnt._z + self.pp.cnt._z == zint(self.N))


def build(p, S, given=False):
    rec = {}
    g = program()
    sl = StubModule("scipy.linalg", rq=lambda M, *a, **k: (lambda t: (RM(t), t))(QM(M)), block_diag=block_diag)
    g.shims["scipy"] = StubModule("scipy", linalg=sl)
    g.shims["scipy.linalg"] = sl
    om = object(), object()

    def klein(PU, MU, nstates=None, verbose=False, force=False):
        rec["klein"] = PU, MU, nstates, force
        return om

    def kills(PU, MU, dimp, dimq, **k):
        rec["klein"] = PU, MU, dimq, False
        return om
    g.shims["grgrlib"] = StubModule("grgrlib", fast0=S.fast0, klein=klein, speed_kills=kills, ouc=None)
    m = g.load("gensys")

    def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel, verbose):
        rec["pre"] = PU, MU, PR, MR, gg, fq1, fp1, fq0
        rec["sys"] = self.sys, self.lks, self
    m.__dict__["preprocess"] = preprocess
    return g, m, rec, om


def gen_sys(p, fd, obs, hx, lk, sol, verbose):
    S = Spec(p, fd, obs == "given")
    g, m, rec, om = build(p, S)
    o = Obj(vv=S.vv(), shocks=PList(sym=(S.ne, lambda i: SymStr(z3.Function("SHK", IZ, SZ)(zint(i))))), const_var=S.cname(), x_bar=S.xbar)
    l_max = k_max = None
    L, K = 3, 17
    if lk == "given":
        l_max, k_max = Int("l_max"), Int("k_max")
        p.assume(band(l_max >= 0, k_max >= 0))
        L = z3.If(z3.And(l_max._z < 2, k_max._z > 0), z3.IntVal(2), l_max._z) + 1
        K = k_max._z
    elif lk == "old":
        L, K = Int("l_old")._z, Int("k_old")._z
        o.lks = SArr((2,), Elem(lambda i: arr.ite(mk(zint(i) == 0), mk(L), mk(K))))
    I = S.inp
    Z0, Z1 = I["Z0"], I["Z1"]
    if obs == "empty":
        Z0 = Z1 = SArr((0, S.n), Elem(lambda i, j: mk(z3.RealVal(0))))
    solution = {"klein": "klein", "none": None, "kills": "speed_kills", "given": (object(), object())}[sol]
    ins = [x for x in I.values() if x is not None]
    seen = p.watch()
    r = m.gen_sys(o, I["A"], I["B"], I["C"], I["D"], I["fb"], I["fc"], I["fd"], Z0, Z1, l_max, k_max, solution, hx, False, verbose)
    p.prove(r is o, "the model is returned")
    p.prove_frame(seen, ins, "matrices that were given are not modified")
    S.setup()
    S.masks()
    p.prove(z3.And(zint(o.dimp) == S.pp.cnt._z, zint(o.dimq) == S.q.cnt._z, zint(o.dimeps) == S.ne._z), "dimensions of the system")
    p.prove(z3.And(zint(o.lks.elem(0)) == L, zint(o.lks.elem(1)) == K), "table sizes are the requested ones")
    # labels and observations: states without the shocks, which are the last states
    nq, npp = S.q.cnt - S.ne, S.pp.cnt
    for s in (S.q, S.pp):
        for f in s.prefixes:
            if arr.deq(f.stop, S.n1):
                p.assume(f.cnt._z == zint(nq if s is S.q else npp))

    def label(s):
        ck, ci = S.col(s)
        if ck == "aux":
            return SymStr(z3.Concat(S.LAB(zint(S.all.member(ci))), z3.StringVal("_lag")))
        return S.name(ci)

    def same(a, shape, f, what):
        ok = isinstance(a, SArr) and a.ndim == len(shape) and all(arr.deq(x, y) for x, y in zip(a.shape, shape))

        def one():
            idx = []
            for d in shape:
                i = SymInt(z3.Int(ctx().fresh("i")))
                ctx().assume(z3.And(i._z >= 0, i._z < zint(d)))
                idx.append(i)
            v, w = a.elem(*idx), f(*idx)
            zv = v._z if isinstance(v, SymStr) else zreal(v)
            zw = w._z if isinstance(w, SymStr) else (w if z3.is_expr(w) else zreal(w))
            return p.prove(zv == zw, "", record=False)
        if ok:
            res = ctx().forall_paths(one)
            ok = all(res)     # no cells: nothing to show
        p.prove(ok, what)
    same(o.svv, (nq,), lambda k: label(S.q.at(k)), "states are labelled with their names")
    same(o.cvv, (npp,), lambda k: label(S.pp.at(k)), "controls are labelled with their names")
    same(o.vv, (npp + nq,), lambda k: label(S.pp.at(k)) if ctx().branch(zint(k) < zint(npp)) else label(S.q.at(k - npp)),
         "labels of the system are those of controls, then states")
    if obs == "given":
        zof = lambda i, s: (lambda c: S.Z0(zint(i), zint(c[1])) if c[0] == "var" else S.ZERO)(S.col(s))
        zp, zq, zc = o.hx
        same(zp, (S.no, npp), lambda i, k: zof(i, S.pp.at(k)), "observation matrix of the controls")
        same(zq, (S.no, nq), lambda i, k: zof(i, S.q.at(k)), "observation matrix of the states")
        same(zc, (S.no,), lambda i: S.Z1(zint(i)), "constants of the observables")
    p.prove(("pre" not in rec) == hx, "the system is compiled unless only the observation matrices are asked for")
    if hx or "pre" not in rec:
        return
    PU, MU, PR, MR, gg, fq1, fp1, fq0 = rec["pre"]
    if not all(isinstance(x, Rot) for x in (PU, MU, PR, MR, gg)):
        raise Unsupported("matrices of the system are not rotated")
    p.prove(PU.tok is MU.tok, "both sides of the unconstrained system are rotated alike")
    p.prove(PR.tok is MR.tok and gg.tok is MR.tok, "both sides of the constrained system are rotated alike")
    N = S.N
    sh = (N, S.q.cnt + S.pp.cnt)
    e = lambda a: lambda *i: a.elem(*i)
    same(PU.X, sh, e(S.pair(S.XB, S.XA, -1)), "lead matrix of the unconstrained system holds the declared coefficients")
    same(MU.X, sh, e(S.pair(S.XC, S.XB)), "lag matrix of the unconstrained system holds the declared coefficients")
    same(PR.X, sh, e(S.pair(lambda r, s: S.XB(r, s, True), S.XA, -1)), "lead matrix while the constraint binds: the bound in place of the constraint")
    same(MR.X, sh, e(S.pair(lambda r, s: S.XC(r, s, True), lambda r, s: S.XB(r, s, True))), "lag matrix while the constraint binds: the bound in place of the constraint")
    same(gg.X, (N,), lambda r: z3.If(zint(r) == zint(N) - 1, S.xbar._z, S.ZERO), "the bound is the constant of the constrained system")
    same(fq0, (S.q.cnt,), lambda k: S.fC(S.q.at(k)), "constraint: coefficients of lagged states and shocks")
    same(fq1, (S.q.cnt,), lambda k: S.fB1(S.q.at(k)), "constraint: coefficients of current states without the constrained variable")
    same(fp1, (S.pp.cnt,), lambda k: S.fB1(S.pp.at(k)), "constraint: coefficients of current controls without the constrained variable")
    sys, lks, me = rec["sys"]
    p.prove(me is o and sys[2] is S.xbar, "the bound of the system")
    if sol == "given":
        p.prove(sys[0] is solution[0] and sys[1] is solution[1], "a given solution is used")
    else:
        p.prove(sys[0] is om[0] and sys[1] is om[1], "the solution of the unconstrained system is used")
        a, b, k, force = rec["klein"]
        p.prove(a is PU and b is MU and not force, "the unconstrained system is solved")
        p.prove(zint(k) == S.q.cnt._z, "number of states of the unconstrained system")


def from_dict(p):
    """the matrices of a dictionary are those of the system; the same dictionary is compiled once"""
    g = program()
    key = lambda d: tuple(sorted((k, v if v is None or isinstance(v, (str, int, float, bool)) else ("object", id(v))) for k, v in d.items()))
    g.shims["cloudpickle"] = StubModule("cloudpickle", dumps=lambda d, **k: repr(key(d)))
    g.shims["grgrlib"] = StubModule("grgrlib", fast0=None, klein=None, speed_kills=None, ouc=None)
    g.shims["scipy"] = StubModule("scipy", linalg=None)
    g.shims["scipy.linalg"] = StubModule("scipy.linalg")
    m = g.load("gensys")
    calls = []

    def gen_sys(self, *a, **k):
        calls.append((self, a, k))
        return self
    g.override("gensys", "gen_sys", gen_sys)
    m = g.mods["gensys"]
    tok = lambda nm: arr.vec(nm, Int("n_" + nm))
    fd, obs, gx, xb, lk = (p.choose("." + x) for x in ("fd", "observables", "solution", "x_bar", "table sizes"))
    mats = {k: tok(k) for k in ("AA", "BB", "CC", "DD", "fb", "fc")}
    d = dict(mats, vars=arr.vec("vars", Int("n")), shocks=("e", "u"), const_var="r")
    if fd:
        d["fd"] = tok("fd")
    if obs:
        d.update(observables=["y"], ZZ0=tok("ZZ0"), ZZ1=tok("ZZ1"))
    if gx:
        d.update(gx=tok("gx"), hx=tok("hx"))
    if xb:
        d["x_bar"] = Real("x_bar")
    kw = dict(l_max=4, k_max=9) if lk else {}
    given = dict(d)
    r = m.gen_sys_from_dict(d, **kw)
    p.prove(len(calls) == 1 and r is calls[0][0], "the system is generated once, for the model that is returned")
    names = "AA0 BB0 CC0 DD0 fb0 fc0 fd0 ZZ0 ZZ1 l_max k_max solution get_hx_only parallel verbose".split()

    def check(call, d, kw):
        o, a, k = call
        got = dict(zip(names, a), **k)
        for k, w in (("AA0", "AA"), ("BB0", "BB"), ("CC0", "CC"), ("DD0", "DD"), ("fb0", "fb"), ("fc0", "fc"), ("fd0", "fd"), ("ZZ0", "ZZ0"), ("ZZ1", "ZZ1")):
            x = got.get(k)
            p.prove(x is d.get(w) or (isinstance(x, SArr) and d.get(w) is not None and arr.arr_equal(x, d[w])), "%s of the dictionary is that of the system" % w)
        for k in ("l_max", "k_max"):
            p.prove(got.get(k) == kw.get(k), "%s is passed on" % k)
        s = got.get("solution")
        p.prove((isinstance(s, tuple) and s[0] is d["gx"] and s[1] is d["hx"]) if "gx" in d else s in (None, "klein"), "a solution that is given is passed on")
        p.prove(not got.get("get_hx_only"), "the system is compiled")
        p.prove(o.vv is d["vars"] and list(o.shocks) == list(d["shocks"]) and o.const_var == d["const_var"], "names of variables, shocks and the constrained variable")
        p.prove(o.neps == len(d["shocks"]), "number of shocks")
        p.prove((o.x_bar is d["x_bar"]) if "x_bar" in d else o.x_bar == -1, "the bound")
        p.prove(o.observables is d.get("observables") and ("observables" not in d or o.nobs == len(d["observables"])), "observables")
    check(calls[0], given, kw)
    p.prove(all(d.get(k) is v for k, v in given.items()), "the dictionary keeps its content")
    # other coefficients, other table sizes: never the cached system of different content
    which = []
    for k in mats if not lk else ():
        if p.choose(".changed " + k):
            which = [k]
            break
    d2 = dict(given)
    for k in which:
        d2[k] = tok(k + "_2")
    kw2 = dict(kw, k_max=10, l_max=4) if lk and p.choose(".other table size") else kw
    n = len(calls)
    r2 = m.gen_sys_from_dict(d2, **kw2)
    if which or kw2 is not kw:
        p.prove(len(calls) == n + 1 and r2 is calls[-1][0] and r2 is not r, "a different dictionary is compiled anew")
        if len(calls) == n + 1:
            check(calls[-1], d2, kw2)
    else:
        p.prove(r2 is (calls[-1][0] if len(calls) > n else r), "the same dictionary gives the same system")


def units(modular=True):
    us = []
    for fd, obs, hx, lk, sol, verbose in ((True, "given", False, None, "klein", False), (False, None, False, "given", "given", True), (True, "empty", True, "old", "none", 0),
                                          (True, "given", True, "given", "klein", 1), (False, "given", False, "old", "kills", False), (True, None, False, None, "none", True)):
        us.append(Unit("gensys.gen_sys(fd=%s, observables=%s, hx_only=%s, table sizes %s, solution %s, verbose=%s)" % (fd, obs, hx, lk, sol, verbose),
                       lambda p, a=(fd, obs, hx, lk, sol, verbose): gen_sys(p, *a), functions=["gensys.gen_sys"], time_limit=500))
    from .c09 import units as other
    us += [u for u in other(modular) if u.name == "gen_sys_from_yaml"]
    us.append(Unit("gensys.gen_sys_from_dict", from_dict, functions=["gensys.gen_sys_from_dict"]))
    return us
