"""C08: the matrices of a parsed model are the coefficients of its equations"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule, SymDict, PDict
from pyvc.loops import PList, Cand, CellCand
from pyvc.sym import Int, Real, SymInt, SymReal, SymStr, SymBool, SymNum, band, zint, zreal, mk, tobool
from pyvc.arr import SArr, Elem
from .model_spec import program

ASSUMPTIONS = [
    "sympy: atoms(kind) is the set of the symbols of that kind in an expression, in some order; diff(v) is the partial derivative (a coefficient is its value where all variables are zero), zero for a symbol that does not occur; subs replaces symbols; set_eq_zero is lhs - rhs; lambdify(args, expr) is the function that evaluates expr",
    "after parsing, symbols in equations are the declared variables (auxiliary ones included) dated -1, 0 or 1 and the declared shocks; those of observables are dated 0 (DSGE.parse, which reads the text and introduces auxiliary variables for longer leads and lags, is covered by the bounded stand-in only)",
    "names are unique",
]
IZ, BZ, SZ, RZ = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()
CONS = -1


class Var:
    """a variable of the model: number and date"""
    _pv_obj = True
    __hash__ = object.__hash__

    def __init__(self, i, d):
        self.i, self.date = i, d

    def __call__(self, k):
        return Var(self.i, self.date + k)

    def __eq__(self, o):
        if type(o) is not type(self):
            return False
        return mk(z3.And(zint(self.i) == zint(o.i), zint(self.date) == zint(o.date)))

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else mk(z3.Not(r._z))

    def __str__(self):
        raise Unsupported("name of a variable")

    @property
    def name(self):
        return SymStr(z3.Function("NAME", IZ, SZ)(zint(self.i)))


class Shk(Var):
    pass


class Kind:
    def __init__(self, name):
        self.name = name


class Atoms:
    """the symbols of one kind in an equation, restricted by predicates, enumerated in some order"""
    _pv_obj = True
    _pv_symiter = True

    def __init__(self, S, eq, kind, preds=()):
        self.S, self.eq, self.kind, self.preds = S, eq, kind, tuple(preds)
        nm = ctx().fresh("atoms")
        F = z3.Function
        self.cnt = SymInt(z3.Int(nm + "_n"))
        self.IDX, self.DATE, self.RANK = F(nm + "_idx", IZ, IZ), F(nm + "_date", IZ, IZ), F(nm + "_rank", IZ, IZ, IZ)
        ctx().assume(self.cnt._z >= 0)
        # if there is one, there is a first one; and known symbols are there
        z = z3.IntVal(0)
        ctx().assume(z3.Implies(self.cnt._z > 0, z3.And(self.inside(self.IDX(z), self.DATE(z)), self.RANK(self.IDX(z), self.DATE(z)) == z)))
        for e, k, i, d in ctx().data.get("occurs", ()):
            if e == eq and k == kind:
                self.rank(i, d)

    def _pv_filter(self, f):
        return Atoms(self.S, self.eq, self.kind, self.preds + (f,))

    def length(self):
        return self.cnt

    def mk(self, i, d):
        return (Var if self.kind == "var" else Shk)(mk(i), mk(d))

    def inside(self, i, d):
        """is the symbol in the set? (z3 condition)"""
        b = self.S.atom(self.eq, self.kind, i, d)
        for f in self.preds:
            def holds(f=f):
                r = f(self.mk(i, d))
                return r is not None if isinstance(r, (Var, type(None))) else r
            b = z3.And(b, ctx().condition(holds))
        return b

    def at(self, k):
        k = zint(k)
        i, d = self.IDX(k), self.DATE(k)
        ctx().assume(z3.Implies(z3.And(k >= 0, k < self.cnt._z), z3.And(self.S.atom(self.eq, self.kind, i, d), self.RANK(i, d) == k)))
        if ctx().entails(z3.And(k >= 0, k < self.cnt._z)):
            ctx().assume(self.inside(i, d))
        return self.mk(i, d)

    def rank(self, i, d):
        i, d = zint(i), zint(d)
        r = self.RANK(i, d)
        ctx().assume(z3.Implies(self.inside(i, d), z3.And(r >= 0, r < self.cnt._z, self.IDX(r) == i, self.DATE(r) == d)))
        return r

    def __bool__(self):
        return ctx().branch(self.cnt._z > 0)


class Expr:
    _pv_obj = True
    def __init__(self, S, eq, wrt=None):
        self.S, self.eq, self.wrt = S, eq, wrt

    def diff(self, v, *more):
        if more or self.wrt is not None or not isinstance(v, Var):
            raise Unsupported("derivative")
        return Expr(self.S, self.eq, v)

    def subs(self, d, *more):
        if more:
            raise Unsupported("substitution of a single symbol")
        S = self.S
        # the value where all variables are zero
        if not isinstance(d, PDict) or not d.syms or dict.__len__(d):
            raise Unsupported("substitution")
        i = SymInt(z3.Int(ctx().fresh("sub")))
        ctx().assume(z3.And(i._z >= 0, i._z < zint(S.n)))
        if not all(ctx().entails(zreal(sd.pair(i)[1]) == 0) for sd in d.syms):
            raise Unsupported("substitution by other values")
        dates = (0,) if isinstance(self.eq, SymInt) or self.eq[0] == "obs" else (-1, 0, 1)
        if all(any(arr.deq(sd.length(), S.n) and ctx().entails((sd.pair(i)[0] == Var(i, t))._z) for sd in d.syms) for t in dates):
            return mk(S.coef(self.eq, self.wrt)) if self.wrt is not None else mk(S.CONST(zint(self.eq)))
        raise Unsupported("not all variables are replaced")

    def __getattr__(self, n):
        raise Unsupported("expression.%s" % n)


class Eq:
    _pv_obj = True
    def __init__(self, S, eq, obs=False):
        self.S, self.eq, self.obs = S, eq, obs

    def atoms(self, *kinds):
        if len(kinds) != 1 or not isinstance(kinds[0], Kind):
            raise Unsupported("atoms")
        return Atoms(self.S, ("obs", self.eq) if self.obs else ("eq", self.eq), kinds[0].name)

    @property
    def set_eq_zero(self):
        if self.obs:
            raise AttributeError("set_eq_zero")
        return Expr(self.S, ("eq", self.eq))

    def diff(self, v):
        if not self.obs:
            raise Unsupported("derivative of an equation")
        return Expr(self.S, ("obs", self.eq), v)

    def subs(self, d, *more):
        if not self.obs:
            raise Unsupported("substitution in an equation")
        e = Expr(self.S, self.eq)
        return e.subs(d, *more)


class SMat(SArr):
    """sympy matrix: a single index counts through the only row"""

    def _key(self, k):
        if isinstance(k, tuple):
            return k
        if not arr.deq(self.shape[0], 1):
            raise Unsupported("single index into a matrix")
        return (0, k)

    def __setitem__(self, k, v):
        SArr.__setitem__(self, self._key(k), v)

    def __getitem__(self, k):
        return SArr.__getitem__(self, self._key(k))


class ByName(dict):
    def __init__(self, S):
        self.S = S

    def __getitem__(self, s):
        if not isinstance(s, SymStr):
            raise Unsupported("observable")
        i = self.S.OPOS(s._z)
        if not ctx().entails(z3.And(i >= 0, i < zint(self.S.no))):
            raise Unsupported("observable")
        return Eq(self.S, mk(i), True)


class Self(Obj):
    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v


class Spec:
    def __init__(self, p, cons=True):
        F = z3.Function
        self.p, self.cons = p, cons
        self.n, self.ne, self.no, self.nf = Int("n_vars"), Int("n_shocks"), Int("n_obs"), Int("n_fwd")
        p.assume(band(self.n >= 2, self.ne >= 1, self.no >= 0, self.nf >= 0))
        self.neq = self.n - 1 if cons else self.n
        self.AT = {(k, s): F("IN_%s_%s" % (k, s), IZ, IZ, IZ, BZ) for k in ("eq", "obs") for s in ("var", "shk")}
        self.CO = {(k, s): F("COEF_%s_%s" % (k, s), IZ, IZ, IZ, RZ) for k in ("eq", "obs") for s in ("var", "shk")}
        self.CONST = F("CONST", IZ, RZ)
        self.ONAME, self.OPOS = F("ONAME", IZ, SZ), F("OPOS", SZ, IZ)
        self.FW = F("FWD", IZ, IZ)
        p.data["index_hook"] = self.index

    def atom(self, eq, kind, i, d):
        k, e = eq
        i, d, e = zint(i), zint(d), zint(e)
        a, c = self.AT[k, kind](e, i, d), self.CO[k, kind](e, i, d)
        lo, hi = (-1, 1) if (k, kind) == ("eq", "var") else (0, 0)
        n = self.n if kind == "var" else self.ne
        # a symbol that does not occur has no coefficient; symbols are declared ones, dates are the supported ones
        ctx().assume(z3.Implies(z3.Not(a), c == 0))
        ctx().assume(z3.Implies(a, z3.And(i >= 0, i < zint(n), d >= lo, d <= hi)))
        if k == "eq" and eq[1] is CONS:
            ctx().assume(z3.Implies(a, d <= 0)) if self.p.data.get("no lead") else None
        return a

    def coef(self, eq, v):
        kind = "shk" if isinstance(v, Shk) else "var"
        self.atom(eq, kind, v.i, v.date)
        return self.CO[eq[0], kind](zint(eq[1]), zint(v.i), zint(v.date))

    def full(self, k, e, kind, i, d):
        self.atom((k, e), kind, i, d)
        return self.CO[k, kind](zint(e), zint(i), zint(d))

    def index(self, lst, v):
        if isinstance(v, SymStr):
            raise Unsupported("position of a name")
        if not isinstance(v, Var):
            raise Unsupported("position")

        def at(k):
            x = lst.at(k)
            return x == v if type(x) is type(v) else mk(z3.BoolVal(False))
        n = lst.length()
        for k in (mk(zint(v.i)), mk(zint(v.i) + zint(self.n))):
            if not ctx().branch(z3.And(zint(k) >= 0, zint(k) < zint(n))):
                continue
            if not ctx().branch(at(k)._z):
                continue

            def before():
                j = SymInt(z3.Int(ctx().fresh("before")))
                ctx().assume(z3.And(j._z >= 0, j._z < zint(k)))
                return ctx().entails(z3.Not(at(j)._z))
            if not all(ctx().forall_paths(before)):
                raise Unsupported("position in another list")
            return k

        def nowhere():
            j = SymInt(z3.Int(ctx().fresh("nowhere")))
            ctx().assume(z3.And(j._z >= 0, j._z < zint(n)))
            return ctx().entails(z3.Not(at(j)._z))
        if not all(ctx().forall_paths(nowhere)):
            raise Unsupported("position in another list")
        raise ValueError("not in list")

    # ------------------------------------------------ what the matrices are: (number of rows, columns, equation, symbol of a column, sign)
    def roles(self):
        n, ne = self.n, self.ne
        r = {}
        for nm, d in (("A", 1), ("B", 0), ("C", -1)):
            r[nm] = (self.neq, n, "eq", "var", lambda j, d=d: (j, z3.IntVal(d)), 1)
        r["PSI"] = (self.neq, ne, "eq", "shk", lambda j: (j, z3.IntVal(0)), -1)
        r["Z0"] = (self.no, n, "obs", "var", lambda j: (j, z3.IntVal(0)), 1)
        if self.cons:
            r["bb"] = (1, n + n, "eq", "var", lambda j: (z3.If(j < zint(n), j, j - zint(n)), z3.If(j < zint(n), z3.IntVal(0), z3.IntVal(-1))), -1)
            r["bbP"] = (1, ne, "eq", "shk", lambda j: (j, z3.IntVal(0)), -1)
        return r

    def entry(self, role, r, j):
        rows, cols, k, kind, sym, sg = self.roles()[role]
        i, d = sym(zint(j))
        v = self.full(k, CONS if role in ("bb", "bbP") else r, kind, i, d)
        return v if sg == 1 else -v


def invariants(S):
    def over(env):
        """the set of symbols the loop is over"""
        it = env.it if isinstance(env.it, Atoms) else getattr(env.it, "origin", None)
        return it if isinstance(it, Atoms) else None

    def cands(env):
        out = []
        for k in env.ints():
            if k not in env.loop.stored:
                continue
            out.append(Cand("%s counts iterations" % k, lambda e, k=k: mk(zint(e[k]) == zint(e.n))))
        for k, v in env.items():
            if isinstance(v, PList) and v.sym is None:
                if True:
                    out.append(Cand("%s grows with the iterations" % k, lambda e, k=k: mk(zint(e[k].length()) == zint(e.n)) if isinstance(e.get(k), PList) else None))
                    out.append(CellCand("%s lists the variables" % k, k, 1, lambda e, i: True, lambda e, i: Var(i[0], 0)))
        at = over(env)
        for k in env.arrays(2):
            if (k,) not in env.loop.mut:
                continue
            # the last guess is tried first
            for role, (rows, cols, kd, kind, sym, sg) in sorted(S.roles().items(), key=lambda x: k.startswith(x[0])):
                a = env[k]
                if not (arr.deq(a.shape[0], rows) and arr.deq(a.shape[1], cols)):
                    continue
                if at is None:
                    if role in ("bb", "bbP"):
                        continue

                    def val(e, ix, role=role):
                        return mk(z3.If(zint(ix[0]) < zint(e.n), S.entry(role, ix[0], ix[1]), z3.RealVal(0)))
                    out.append(CellCand("%s: %s of the equations so far" % (k, role), k, 2, lambda e, ix: True, val, alt=True))
                    continue
                if at.eq[0] != kd:
                    continue
                row = 0 if role in ("bb", "bbP") else at.eq[1]

                old = SArr(a.shape, a.c.copy() if isinstance(a.c, arr.Log) else a.c)

                def val(e, ix, role=role, row=row, kind=kind, sym=sym, old=old):
                    it = over(e)
                    was = old.elem(*ix)
                    if it.kind != kind:
                        return was
                    i, d = sym(zint(ix[1]))
                    rk = it.rank(mk(i), mk(d))
                    return mk(z3.If(z3.And(zint(ix[0]) == zint(row), it.inside(i, d), rk < zint(e.n)), S.entry(role, ix[0], ix[1]), zreal(was)))
                out.append(CellCand("%s: %s of the symbols so far" % (k, role), k, 2, lambda e, ix: True, val, alt=True))
        for k in env.arrays(2):
            a = env[k]
            if at is None and (k,) in env.loop.mut and arr.deq(a.shape[1], 1) and arr.deq(a.shape[0], S.no):
                out.append(CellCand("%s: constants so far" % k, k, 2, lambda e, ix: True,
                                    lambda e, ix: mk(z3.If(zint(ix[0]) < zint(e.n), S.CONST(zint(ix[0])), z3.RealVal(0))), alt=True))
        return out
    return cands


class Fun:
    """what lambdify returns"""

    def __init__(self, args, expr):
        self.args, self.expr = args, expr


def world(p, cons=True):
    S = Spec(p, cons)
    zeros = lambda r, c=None: SMat((r, r if c is None else c), Elem(lambda *i: mk(z3.RealVal(0))))
    kv, ks = Kind("var"), Kind("shk")
    lam = StubModule("sympy.utilities.lambdify", lambdify=lambda args, expr, *a, **k: Fun(args, expr), implemented_function=lambda nm, f: ("function", nm))
    g = program(yaml=StubModule("yaml"), cloudpickle=StubModule("cloudpickle"))
    norm = StubModule("norm", pdf=None, cdf=None, ppf=None)
    g.shims["scipy"] = StubModule("scipy", stats=StubModule("scipy.stats", norm=norm))
    g.shims["scipy.stats"] = StubModule("scipy.stats", norm=norm)
    g.shims["sympy"] = StubModule("sympy")
    g.shims["sympy.matrices"] = StubModule("sympy.matrices", zeros=zeros, Matrix=None)
    g.shims["sympy.utilities.lambdify"] = lam
    g.shims["sympy.utilities"] = StubModule("sympy.utilities", lambdify=lam)
    g.shims["os"] = StubModule("os", path=StubModule("os.path", exists=lambda f: False, basename=lambda f: f))
    g.mods["symbols"] = StubModule("pydsge.symbols", Variable=kv, Shock=ks, Equation=None, Parameter=None, TSymbol=None)
    g.mods["clsmethods"] = StubModule("pydsge.clsmethods", Model=type("Model", (dict,), {}))
    g.mods["utils"] = StubModule("pydsge.utils", _dumper=None)
    p.data["lambdify module"] = lam
    m = g.load("parser")
    return S, m


def matrices(p, cons=True):
    S, m = world(p, cons)
    p.unit.loops = invariants(S)
    p.unit.cut_while = False     # the dependent parameters are few and concrete
    lead = cons and p.choose(".lead in the constraint")
    o = Self()
    vs = PList(sym=(S.n, lambda i: Var(i, 0)))
    fw = PList(sym=(S.nf, lambda i: Var(mk(S.FW(zint(i))), 1)))

    def oname(i):
        z = zint(i)
        ctx().assume(z3.Implies(z3.And(z >= 0, z < zint(S.no)), S.OPOS(S.ONAME(z)) == z))
        return SymStr(S.ONAME(z))
    par = [Par("a"), Par("b")]
    oth = [Par("c")]
    tok = object(), object()
    cv = object() if cons else []
    o.__dict__["_d"] = dict(
        var_ordering=vs, fvars=fw, fvars_lagged=PList(sym=(S.nf, lambda i: ("lagged", i))), re_errors=PList(sym=(S.nf, lambda i: ("error", i))), re_errors_eq=PList(sym=(S.nf, lambda i: ("eq", i))),
        shk_ordering=PList(sym=(S.ne, lambda i: Shk(i, 0))), perturb_eq=PList(sym=(S.neq, lambda i: Eq(S, i))), equations=None,
        observables=PList(sym=(S.no, oname)), obs_equations=ByName(S), const_var=cv, const_eq=Eq(S, CONS) if cons else {}, par_ordering=PList(par), other_para=PList(oth),
        para_func={"c": "a + b"}, covariance=tok[0], measurement_errors=tok[1])
    o._d["equations"] = o._d["perturb_eq"]
    o.parameters, o.const_var, o.func_file = o._d["par_ordering"], cv, ""
    if cons:
        A = S.AT["eq", "var"]
        if not lead:
            p.data["no lead"] = True
        else:
            w = z3.Int("lead_in_constraint")
            p.assume(A(CONS, w, 1))
            p.data["occurs"] = [(("eq", CONS), "var", w, z3.IntVal(1))]
    try:
        m.DSGE.get_matrices(o)
    except NotImplementedError:
        p.prove(lead, "only a lead in the constraint is refused")
        return
    p.prove(not lead, "a lead in the constraint is refused")
    if lead:
        return
    d = o._d["var_ordering"]
    i = Int("i")
    p.assume(z3.And(i._z >= 0, i._z < zint(S.n)))
    p.prove(arr.deq(d.length(), S.n), "number of variables")
    p.prove((d.at(i) == Var(i, 0))._z, "the order of the variables is kept")
    allpar = list(par) + list(oth)

    def fun(nm):
        f = getattr(o, nm, None)
        ok = isinstance(f, Fun) and len(f.args) == 1 and len(f.args[0]) == len(allpar) and all(x is y for x, y in zip(f.args[0], allpar))
        p.prove(ok, "%s is a function of all parameters, the dependent ones last" % nm)
        return f.expr if ok else None

    def same(nm, role):
        M = fun(nm)
        rows, cols = S.roles()[role][:2]
        ok = isinstance(M, SArr) and arr.deq(M.shape[0], rows) and arr.deq(M.shape[1], cols)
        if ok:
            def one():
                r, j = SymInt(z3.Int(ctx().fresh("r"))), SymInt(z3.Int(ctx().fresh("j")))
                ctx().assume(z3.And(r._z >= 0, r._z < zint(rows), j._z >= 0, j._z < zint(cols)))
                return p.prove(zreal(SArr.__getitem__(M, (r, j))) == S.entry(role, r, j), "", record=False)
            res = ctx().forall_paths(one)
            ok = all(res)     # no cells: nothing to show
        p.prove(ok, "%s holds the coefficients of the equations" % nm)
    for nm, role in (("AA", "A"), ("BB", "B"), ("CC", "C"), ("PSI", "PSI"), ("ZZ0", "Z0")) + ((("bb", "bb"), ("bb_PSI", "bbP")) if cons else ()):
        same(nm, role)
    Z1 = fun("ZZ1")
    p.prove(isinstance(Z1, SArr) and arr.deq(Z1.shape[0], S.no) and arr.deq(Z1.shape[1], 1), "one constant per observable")
    k = Int("k")
    p.assume(z3.And(k._z >= 0, k._z < zint(S.no)))
    p.prove(zreal(SArr.__getitem__(Z1, (k, 0))) == S.CONST(k._z), "constants of the observables")
    p.prove(fun("QQ") is tok[0] and fun("HH") is tok[1], "covariances are those declared")


class Par(SymReal):
    def __init__(self, name):
        SymReal.__init__(self, z3.Real(name))
        self.name = self._pv_text = name


def dependent(p, order, defs, given=("a", "b")):
    """dependent parameters are evaluated for the given values of the others, whatever the order of their definitions"""
    S, m = world(p)

    def lambdify(args, expr, *a, **k):
        if not isinstance(expr, list):
            return Fun(args, expr)

        def psi(px):
            px = list(px)
            if len(px) != len(args[0]):
                raise TypeError("wrong number of arguments")
            pairs = [(x._z, zreal(v)) for x, v in zip(args[0], px)]
            return [mk(z3.substitute(zreal(e), *pairs)) for e in expr]
        return psi
    lam = p.data["lambdify module"]
    lam.__dict__["lambdify"] = lambdify
    par = [Par(x) for x in given]
    oth = [Par(x) for x in order]
    o = Self()
    o.__dict__["_d"] = dict(var_ordering=PList(), fvars=PList(), fvars_lagged=PList(), re_errors=PList(), re_errors_eq=PList(), shk_ordering=PList(), perturb_eq=PList(), observables=PList(),
                            obs_equations={}, const_var=[], const_eq={}, other_para=PList(oth), para_func=dict(defs), covariance=None, measurement_errors=None)
    o.parameters, o.const_var, o.func_file = PList(par), [], ""
    p.unit.cut_while = False
    known, vals = set(given), {x: z3.Real("value_" + x) for x in given}
    ok = True
    todo = list(order)
    while todo:
        nxt = [x for x in todo if all(w in known for w in words(defs[x]))]
        if not nxt:
            ok = False
            break
        for x in nxt:
            vals[x] = zreal(eval(defs[x], {k: mk(v) for k, v in vals.items()}))
            known.add(x)
            todo.remove(x)
    try:
        m.DSGE.get_matrices(o)
    except NameError:
        p.prove(not ok, "only circular or undefined dependent parameters are refused")
        return
    p.prove(ok, "circular or undefined dependent parameters are refused")
    if not ok:
        return
    px = [mk(vals[x]) for x in given]
    for form, arg in (("list", PList(px)), ("array", SArr((len(px),), Elem(lambda i: arr.ite(mk(zint(i) == 0), px[0], px[-1])))))[:1 if len(px) > 2 else 2]:
        r = o.pcompile(arg)
        p.prove(isinstance(r, list) and len(r) == len(given) + len(order), "all parameters, the dependent ones last (%s)" % form)
        for x, v in zip(list(given) + list(order), r):
            p.prove(zreal(v) == vals[x], "the value of parameter %s (%s)" % (x, form))
    nm, psi = o.parafunc
    p.prove(list(nm) == list(order), "names of the dependent parameters")
    for x, v in zip(order, psi(PList(px))):
        p.prove(zreal(v) == vals[x], "the value of dependent parameter %s" % x)


def words(t):
    import re
    return set(re.findall(r"[a-z]+", t))


def cached(p):
    """a parsed model is reused only for the same text of the model and of its functions"""
    S, m = world(p)
    F = z3.Function
    n = Int("n_cached")
    p.assume(n >= 0)
    TXT, FTXT, HAS = F("TXT", IZ, SZ), F("FTXT", IZ, SZ), F("HAS_FUNCTIONS", IZ, BZ)
    mtxt = SymStr(z3.String("mtxt"))
    ftxt = SymStr(z3.String("ftxt")) if p.choose(".functions file") else None

    class Fd:
        _pv_obj = True

        def __init__(self, i):
            self.i = zint(i)

        def __getitem__(self, k):
            if k == "yaml_raw":
                return SymStr(TXT(self.i))
            if k == "ffile_raw" and ctx().branch(HAS(self.i)):
                return SymStr(FTXT(self.i))
            raise KeyError(k)

        def get(self, k, d=None):
            try:
                return self[k]
            except KeyError:
                return d

        def __contains__(self, k):
            return k == "yaml_raw" or k == "ffile_raw" and ctx().branch(HAS(self.i))

    class Pm:
        _pv_obj = True

        def __init__(self, i):
            self.i, self.fdict = i, Fd(i)

    class Cache:
        _pv_symiter = True

        def length(self):
            return n

        def at(self, i):
            return i

        def __getitem__(self, i):
            return Pm(i)

        def keys(self):
            return PList(sym=(n, lambda i: i))

        def values(self):
            return PList(sym=(n, Pm))

        def items(self):
            return PList(sym=(n, lambda i: (i, Pm(i))))

        def __bool__(self):
            return ctx().branch(n._z > 0)

    def match(i):
        i = zint(i)
        f = z3.Not(HAS(i)) if ftxt is None else z3.And(HAS(i), FTXT(i) == ftxt._z)
        return z3.And(TXT(i) == mtxt._z, f)
    empty = p.choose(".nothing cached")
    if not empty:
        m.__dict__["cached_models"] = Cache()
    w = Int("other")
    p.unit.loops = lambda env: [Cand("no match so far", lambda e: mk(z3.Implies(z3.And(w._z >= 0, w._z < zint(e.n)), z3.Not(match(w)))))]
    r = m.crawl_cached_models(mtxt, ftxt)
    if empty:
        p.prove(r is None and len(m.__dict__["cached_models"]) == 0, "nothing is cached at first")
        return
    if r is None:
        p.prove(z3.Implies(z3.And(w._z >= 0, w._z < n._z), z3.Not(match(w))), "a model with the same texts is reused")
    else:
        p.prove(isinstance(r, Pm), "a cached model is reused")
        p.prove(match(r.i), "a model is reused only if both texts are the same")


def units(modular=True):
    us = [Unit("parser.get_matrices", matrices, functions=["parser.DSGE.get_matrices"], time_limit=600)]
    us.append(Unit("parser.crawl_cached_models", cached, functions=["parser.crawl_cached_models"]))
    defs = dict(c="a + b", d="c*2 - a", e="d*c + b")
    import itertools
    cases = [(o, defs) for k in (0, 1, 2, 3) for o in itertools.permutations(("c", "d", "e")[:k])]
    cases += [(("c", "d"), dict(c="a + d", d="b")), (("c", "d"), dict(c="d", d="c")), (("c",), dict(c="a + u")), (("d", "e", "c"), dict(c="d + e", d="e + c", e="a"))]
    for o, d in cases:
        u = Unit("parser.get_matrices: dependent parameters %s" % ", ".join("%s=%s" % (x, d[x]) for x in o), lambda p, o=o, d=d: dependent(p, o, d), functions=["parser.DSGE.get_matrices"])
        u.bounded = "up to 3 dependent parameters, every order of their definitions"
        us.append(u)
    return us
