"""C21: names resolve to the positions they label"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj
from pyvc.loops import Cand, CellCand, PList
from pyvc.sym import Int, Real, SymInt, SymStr, band, zint, zreal, mk
from pyvc.arr import SArr, Elem
from .c02 import same
from .model_spec import program, unchanged

ASSUMPTIONS = [
    "names of variables, observables and shocks are distinct; list.index returns the position of a name that is in the list and raises ValueError otherwise",
    "the labels are those of the stored series (C04, C08; checked at run time)",
]
IZ, BZ, SZ = z3.IntSort(), z3.BoolSort(), z3.StringSort()


class Labels:
    """a list of labels: KN(name) says whether a name is one of them, POS(name) where"""

    def __init__(self, p, nm):
        self.p = p
        self.n = Int("n_" + nm)
        p.assume(self.n >= 1)
        self.LAB, self.POS, self.KN = z3.Function("LAB_" + nm, IZ, SZ), z3.Function("POS_" + nm, SZ, IZ), z3.Function("KNOWN_" + nm, SZ, BZ)
        self.list = PList(sym=(self.n, lambda i: SymStr(self.LAB(zint(i)))))

    def known(self, v):
        z = v._z if isinstance(v, SymStr) else z3.StringVal(v)
        q = self.POS(z)
        self.p.assume(z3.Implies(self.KN(z), z3.And(q >= 0, q < zint(self.n), self.LAB(q) == z)))
        return self.KN(z)

    def pos(self, v):
        self.known(v)
        return SymInt(self.POS(v._z))

    def is_mine(self, lst):
        if not arr.deq(lst.length(), self.n):
            return False

        def one():
            i = SymInt(z3.Int(ctx().fresh("lab")))
            ctx().assume(z3.And(i._z >= 0, i._z < zint(self.n)))
            v = lst.at(i)
            return isinstance(v, SymStr) and ctx().entails(v._z == self.LAB(i._z))
        return all(ctx().forall_paths(one))


def hook(labels):
    def index(lst, v):
        for L in labels:
            if L.is_mine(lst):
                if isinstance(v, SymStr) and ctx().branch(L.known(v)):
                    return L.pos(v)
                raise ValueError("not in list")
        raise Unsupported("position in an unknown list")
    return index


class Request:
    def __init__(self, p, L):
        self.p, self.L = p, L
        self.N = Int("n_request")
        p.assume(self.N >= 0)
        F = z3.Function
        self.NAME, self.CNT, self.OUT = F("NAME", IZ, SZ), F("CNT", IZ, IZ), F("OUT", IZ, IZ)
        self.list = PList(sym=(self.N, lambda i: SymStr(self.NAME(zint(i)))))

    def name(self, i):
        return SymStr(self.NAME(zint(i)))

    def cnt(self, n):
        """number of known names among the first n; position of the last one in the sequence of known names"""
        n = zint(n)
        i = n - 1
        k = self.L.known(self.name(mk(i)))
        self.p.assume(z3.If(n <= 0, self.CNT(n) == 0, z3.And(self.CNT(n) == self.CNT(i) + z3.If(k, 1, 0), self.CNT(i) >= 0, self.CNT(i) <= i)))
        self.p.assume(z3.Implies(z3.And(n > 0, k), self.OUT(self.CNT(i)) == self.L.POS(self.NAME(i))))
        return self.CNT(n)

    def all_known(self, n):
        """precise for the loop: as long as every name so far is known the count is the number of names"""
        return self.cnt(n) == zint(n)

    def loops(self, env):
        R, out = self, []
        for v in [k for k, x in env.items() if isinstance(x, PList) and x is not R.list and not R.L.is_mine(x)]:
            out.append(Cand("%s has one entry per name so far" % v, lambda e, v=v: e[v].length() == e.n))
            out.append(Cand("%s has one entry per known name so far" % v, lambda e, v=v: zint(e[v].length()) == R.cnt(e.n)))
            out.append(CellCand("%s holds the positions of the known names in order" % v, v, 1, lambda e, i: True, lambda e, i: SymInt(R.OUT(zint(i[0]))), alt=True))
        out.append(Cand("every name so far is known", lambda e: R.all_known(e.n)))
        out.append(Cand("known names are counted", lambda e: z3.And(R.cnt(e.n) >= 0, R.cnt(e.n) <= zint(e.n))))
        return out


def units(modular=True):
    out = []

    def lists(p, fn, skip):
        prog = program()
        m = prog.load("clsmethods")
        V, O = Labels(p, "vv"), Labels(p, "observables")
        L = V if fn == "vix" else O
        R = Request(p, L)
        o = Obj()
        o.vv, o.observables = V.list, O.list
        before = dict(o._pv_fields())
        p.data["index_hook"] = hook((V, O))
        p.unit.loops = R.loops
        kw = {}
        if fn == "vix" and (skip or p.choose(".given")):
            kw = dict(dontfail=skip)
        one = not skip and p.choose(".text")
        try:
            r = getattr(m, fn)(o, R.name(0) if one else R.list, **kw)
        except ValueError:
            i = Int("witness_of_refusal")
            if one:
                p.prove(z3.Not(L.known(R.name(0))), "%s: a single name is refused only if it is unknown" % fn)
            else:
                # the iteration (or element) that raised
                ls = ctx().loop_stack
                w = [v for v in [zint(x.n) for x in ls]] + [z3.Int(c) for c in _witnesses(p)]
                p.prove(not skip and bool(w) and z3.Or(*[z3.And(x >= 0, x < zint(R.N), z3.Not(L.known(SymStr(R.NAME(x))))) for x in w]),
                        "%s: a list is refused only if one of the names is unknown, and never if unknown names are to be skipped" % fn)
            return
        unchanged(p, o, before)
        if one:
            p.prove(arr.deq(r.length(), 1), "%s: one position for a single name" % fn)
            p.prove(zint(r.at(0)) == zint(L.pos(R.name(0))), "%s: position of a single name" % fn)
            p.prove(L.known(R.name(0)), "%s: an unknown name is refused" % fn)
            return
        if skip:
            p.prove(zint(r.length()) == R.cnt(R.N), "%s: one position per known name" % fn)
            j = Int("j")
            p.assume(z3.And(j._z >= 0, j._z < R.cnt(R.N)))
            p.prove(zint(r.at(j)) == R.OUT(j._z), "%s: positions of the known names in the order of the request" % fn)
            return
        p.prove(arr.deq(r.length(), R.N), "%s: one position per name" % fn)
        i = Int("i")
        p.assume(band(i >= 0, i < R.N))
        R.cnt(R.N)
        v = zint(r.at(i))
        every = p.entails(R.CNT(zint(R.N)) == zint(R.N))
        if every:      # a count of N means that every name is known and the sequence of known names is the request
            p.assume(z3.And(L.known(R.name(i)), R.OUT(i._z) == L.POS(R.NAME(i._z))))
        p.prove(L.known(R.name(i)), "%s: a list with an unknown name is refused" % fn)
        p.prove(v == zint(L.pos(R.name(i))), "%s: positions in the order of the request" % fn)
    for fn, skip in (("vix", False), ("vix", True), ("oix", False)):
        out.append(Unit("%s%s" % (fn, " (unknown names skipped)" if skip else ""), lambda p, fn=fn, skip=skip: lists(p, fn, skip), functions=["clsmethods." + fn]))

    def shock(p):
        m = program().load("tools")
        L = Labels(p, "shocks")
        ds, size = Int("dimstates"), Real("size")
        p.assume(ds >= 1)
        o = Obj()
        o.shocks = L.list
        o.dimeps = o.neps = L.n
        o.dimq = ds + L.n
        p.data["index_hook"] = hook((L,))
        before = dict(o._pv_fields())
        nm = SymStr(z3.String("name"))
        arg = (nm, size) if p.choose(".2") else (nm, size, Int("period"))
        try:
            r = m.shock2state(o, arg)
        except ValueError:
            p.prove(z3.Not(L.known(nm)), "a shock is refused only if it is unknown")
            return
        p.prove(L.known(nm), "an unknown shock is refused")
        unchanged(p, o, before)
        p.prove(r.ndim == 1 and arr.deq(r.shape[0], o.dimq), "state vector has one entry per state and shock")
        j = Int("j")
        p.assume(band(j >= 0, j < o.dimq))
        p.prove(zreal(r.elem(j)) == z3.If(j._z == zint(ds) + L.POS(nm._z), zreal(size), z3.RealVal(0)),
                "the size is placed at the position of the shock and zero elsewhere")
    out.append(Unit("shock2state", shock, functions=["tools.shock2state"]))
    return out


def _witnesses(p):
    """names of the witness constants introduced on this path"""
    out = set()
    for c in p.pc:
        todo = [c]
        while todo:
            e = todo.pop()
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == IZ and e.decl().name().startswith("witness"):
                out.add(e.decl().name())
            todo.extend(e.children())
    return sorted(out)
