"""C17: loaded data are exactly the requested observables and periods"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.loops import Cand, PList
from pyvc.sym import Int, SymInt, SymStr, band, zint, zreal, mk
from .model_spec import program

INLINED = True
ASSUMPTIONS = [
    "pandas: frame[names] are the columns of these names in this order (KeyError if one is missing), frame.loc[a:b] the rows from the one labelled a to the one labelled b inclusive "
    "(from the first / to the last if not given; labels of an index of texts or dates are given as text, those of a numeric index as numbers), frame.isna() marks missing values, and none of them modifies the frame",
    "cloudpickle.dumps stores the frame as it is at that time (run-time contract: pickle.loads gives an equal frame)",
]
IZ, BZ, SZ, RZ = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()


class Label:
    """whatever the user gives as start or end: has a text, is no text itself"""

    def __init__(self, z):
        self._pv_text = SymStr(z)


class Flags:
    """which entries of a frame are missing; reduces to: is any one"""

    def __init__(self, frame):
        self.frame = frame

    def any(self, *a, **k):
        return self

    @property
    def values(self):
        return self

    to_numpy = any

    def _pv_any(self):
        f = self.frame
        i, j = z3.Int(ctx().fresh("row")), z3.Int(ctx().fresh("col"))
        return mk(z3.Exists([i, j], z3.And(i >= 0, i < f.n, j >= 0, j < f.k, f.W.NA(f.lo + i, f.name(j)))))

    def __bool__(self):
        return ctx().branch(self._pv_any()._z)


class Index:
    pass


def numeric(W, ix):
    if not isinstance(ix, Index):
        raise Unsupported("dtype")
    return mk(W.NUM)


class Frame:
    """rows lo .. lo+n of the table, the k columns name(0) .. (all columns of the table: name is None)"""

    def __init__(self, W, lo, n, k=None, name=None):
        self.W, self.lo, self.n, self.k, self.name = W, lo, n, k, name
        self.modified = False

    def keys(self):
        return self.columns

    index = Index()

    @property
    def columns(self):
        if self.name is not None:
            raise Unsupported("columns of a selection")
        return self

    def __contains__(self, o):
        if self.name is not None:
            raise Unsupported("columns of a selection")
        z = o._z if isinstance(o, SymStr) else z3.StringVal(o)
        return ctx().branch(self.W.COL(z))

    def __getitem__(self, names):
        W = self.W
        if isinstance(names, PList) and self.name is None:
            if W.is_observables(names):
                if not ctx().branch(W.all(W.N)):
                    raise KeyError("not in index")
                return Frame(W, self.lo, self.n, zint(W.N), lambda j: W.NAME(j))
        raise Unsupported("selection of columns")

    @property
    def loc(self):
        f = self

        class L:
            def __getitem__(s, k):
                if isinstance(k, tuple):
                    if len(k) != 2:
                        raise Unsupported("loc")
                    r = s[k[0]]
                    return r if k[1] == slice(None) else r[k[1]]
                if not isinstance(k, slice) or k.step is not None:
                    raise Unsupported("loc")
                lo, n = f.lo, f.n
                if not f.W.whole(f):
                    raise Unsupported("repeated selection of rows")
                a = f.W.row(f.W.FROM, k.start) if k.start is not None else z3.IntVal(0)
                b = f.W.row(f.W.TO, k.stop) if k.stop is not None else lo + n
                return Frame(f.W, a, z3.If(b > a, b - a, 0), f.k, f.name)
        return L()

    def isna(self):
        if self.name is None:
            k = z3.Int("n_columns")
            ctx().assume(k >= zint(self.W.N))
            ALL = z3.Function("COLUMN", IZ, SZ)
            return Flags(Frame(self.W, self.lo, self.n, k, lambda j: ALL(j)))
        return Flags(self)

    isnull = isna

    def copy(self, *a, **k):
        return Frame(self.W, self.lo, self.n, self.k, self.name)

    def __setitem__(self, *a):
        raise Unsupported("assignment into a frame")


class World:
    def __init__(self, p):
        self.p = p
        F = z3.Function
        self.N, self.T = Int("n_observables"), Int("n_rows")
        p.assume(band(self.N >= 0, self.T >= 0))
        self.NAME, self.COL, self.ALL = F("NAME", IZ, SZ), F("COL", SZ, BZ), F("ALL_FOUND", IZ, BZ)
        self.NUM = z3.Bool("numeric_index")
        self.FROM, self.TO, self.NA = F("FROM", SZ, IZ), F("TO", SZ, IZ), F("NA", IZ, SZ, BZ)
        self.obs = PList(sym=(self.N, lambda i: SymStr(self.NAME(zint(i)))))

    def row(self, F, x):
        """row selected by a label: its text if the index has texts or dates, the number itself if it has numbers; anything else is unknown"""
        if isinstance(x, Label):
            return F(x._pv_text._z) if ctx().branch(self.NUM) else z3.Int(ctx().fresh("row"))
        if isinstance(x, SymStr):
            return z3.Int(ctx().fresh("row")) if ctx().branch(self.NUM) else F(x._z)
        raise Unsupported("loc with something that is no label")

    def table(self):
        return Frame(self, z3.IntVal(0), zint(self.T))

    def whole(self, f):
        return ctx().entails(z3.And(f.lo == 0, f.n == zint(self.T)))

    def all(self, n):
        """the first n observables are columns of the table"""
        n = zint(n)
        i = n - 1
        self.p.assume(self.ALL(n) == z3.If(n <= 0, z3.BoolVal(True), z3.And(self.ALL(i), self.COL(self.NAME(i)))))
        return self.ALL(n)

    def member(self, i):
        """instance of what ALL_FOUND(N) means"""
        i = zint(i)
        self.p.assume(z3.Implies(z3.And(self.all(self.N), i >= 0, i < zint(self.N)), self.COL(self.NAME(i))))

    def is_observables(self, lst):
        if not arr.deq(lst.length(), self.N):
            return False

        def one():
            i = SymInt(z3.Int(ctx().fresh("ob")))
            ctx().assume(z3.And(i._z >= 0, i._z < zint(self.N)))
            v = lst.at(i)
            return isinstance(v, SymStr) and ctx().entails(v._z == self.NAME(i._z))
        return all(ctx().forall_paths(one))


def units(modular=True):
    out = []

    def load(p):
        W = World(p)
        dumps = []
        prog = program(cloudpickle=StubModule("cloudpickle", dumps=lambda d, **k: dumps.append(d) or ("dump", d)),
                       pandas=StubModule("pandas", DataFrame=Frame, api=StubModule("pandas.api", types=StubModule(
                           "pandas.api.types", is_numeric_dtype=lambda ix: numeric(W, ix)))))
        m = prog.load("clsmethods")
        o = Obj()
        o.observables, o.fdict, o.data = W.obs, dict(name="m", data="old", other=1), "old"
        df = W.table()
        kw, lo, hi = {}, z3.IntVal(0), zint(W.T)

        def label(s):      # labels of a numeric index are numbers
            return Label(s) if p.branch(W.NUM) or p.choose(".no text") else SymStr(s)
        if p.choose(".start"):
            s = z3.String("start")
            kw["start"], lo = label(s), W.FROM(s)
            p.assume(z3.And(lo >= 0, lo <= zint(W.T)))
        elif p.choose(".nostart"):
            kw["start"] = None
        if p.choose(".end"):
            s = z3.String("end")
            kw["end"], hi = label(s), W.TO(s)
            p.assume(z3.And(hi >= 0, hi <= zint(W.T)))
        rows = z3.If(hi > lo, hi - lo, 0)

        def loops(env):
            return [Cand("the observables so far are columns", lambda e: W.all(e.n))]
        p.unit.loops = loops
        before = dict(o._pv_fields()), dict(o.fdict)

        def kept(label):
            p.prove(o.observables is W.obs and o.data == "old" and o.fdict == before[1] and o.fdict is before[0]["fdict"] and set(o._pv_fields()) == set(before[0]), label)
        other = p.choose(".no table")
        arg = [1., 2.] if other else df
        i, j = z3.Int("i"), z3.Int("j")
        try:
            r = m.load_data(o, arg, **kw)
        except TypeError as e:
            p.prove(other, "only what is no table is refused as such")
            kept("a refusal changes nothing")
            return
        except KeyError:
            for L in ctx().loop_stack:
                W.member(L.n)
            p.prove(z3.Not(W.all(W.N)), "a table is refused for a missing observable only if it lacks one")
            kept("a refusal changes nothing")
            return
        except Unsupported:
            raise
        except Exception as e:
            if type(e) is not Exception:
                raise
            p.prove(not other, "what is no table is refused as such")
            p.prove(z3.Exists([i, j], z3.And(i >= 0, i < rows, j >= 0, j < zint(W.N), W.NA(lo + i, W.NAME(j)))),
                    "a table is refused for missing values only if a selected one is missing")
            kept("a refusal changes nothing")
            return
        p.prove(not other, "anything but a table is refused")
        p.prove(W.all(W.N), "a table that lacks an observable is refused")
        p.prove(isinstance(r, Frame) and r.name is not None, "a table is returned")
        for f, nm in ((r, "returned"), (o.data, "kept"), (dumps[-1] if dumps else None, "stored")):
            if not (isinstance(f, Frame) and f.name is not None):
                p.prove(False, "the %s data are a table of the observables" % nm)
                continue
            p.prove(f.k == zint(W.N), "%s data: one column per observable" % nm)
            p.prove(z3.Implies(z3.And(j >= 0, j < zint(W.N)), f.name(j) == W.NAME(j)), "%s data: columns in the order of the observables" % nm)
            p.prove(f.n == rows, "%s data: as many rows as from start to end" % nm)
            p.prove(z3.Implies(rows > 0, f.lo == lo), "%s data: rows from start to end inclusive" % nm)
        p.prove(z3.Implies(z3.And(i >= 0, i < rows, j >= 0, j < zint(W.N)), z3.Not(W.NA(lo + i, W.NAME(j)))), "missing values in the selected range are refused")
        p.prove(o.fdict.get("data") == ("dump", dumps[-1]) and len(dumps) == 1, "the data stored with the model are those that were loaded")
        fo = o.fdict.get("obs")
        p.prove(isinstance(fo, PList) and W.is_observables(fo), "the names of the observables are stored along")
        p.prove({k: v for k, v in o.fdict.items() if k not in ("data", "obs")} == {k: v for k, v in before[1].items() if k != "data"}
                and o.observables is W.obs and set(o._pv_fields()) == set(before[0]), "nothing else of the model changes")
    out.append(Unit("load_data", load, functions=["clsmethods.load_data"]))
    return out
