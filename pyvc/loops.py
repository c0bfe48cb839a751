"""Loop cutting: invariants found by a Houdini fixpoint over the contract's candidates.

A loop over a symbolic range (or a `while` on a symbolic condition) is executed once, from an
arbitrary state satisfying the invariant: checked on entry, assumed at an arbitrary iteration,
checked again after the body.  Candidates that fail are dropped and the proof starts over, so the
surviving set is inductive.  What the loop changes (locals and arrays) is havocked first; an array
the body turns out to change outside that frame restarts the proof with a larger frame.
"""
import sys
import z3
from . import arr, nc
from .arr import SArr, Log, FamBase, Block, Elem, Uninit, View
from .core import ctx, PathEnd, Restart, Unsupported, Obligation
from .sym import SymInt, SymReal, SymBool, SymNum, SymStr, mk, zint, tobool, conc, _num

UNBOUND = object()


class SymRange:
    def __init__(self, a, b, step=1, par=False):
        self.a, self.b, self.step, self.par = a, b, step, par

    @property
    def n(self):
        a, b = zint(self.a), zint(self.b)
        d = b - a if self.step == 1 else a - b
        return mk(z3.simplify(z3.If(d > 0, d, z3.IntVal(0))))

    def at(self, i):
        if self.step == 1:
            return self.a + i if not (isinstance(self.a, int) and self.a == 0) else i
        return self.a - i

    def length(self):
        return self.n

    def __iter__(self):
        raise Unsupported("python iteration over a symbolic range outside a cut loop")


def mkrange(*a, par=False):
    a = [x if conc(x) is None else conc(x) for x in a]
    if len(a) == 1:
        a = [0, a[0]]
    step = a[2] if len(a) > 2 else 1
    for x in a:
        if not isinstance(x, (int, SymInt)):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    if all(isinstance(x, int) for x in a) and not par:
        return range(*a)
    if step not in (1, -1):
        raise Unsupported("symbolic range with a step")
    return SymRange(a[0], a[1], step, par)


class SymSeq:
    """lazily combined symbolic sequence (zip / enumerate / map)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def at(self, i):
        return self.fn(i)

    def length(self):
        return self.n

    def __iter__(self):
        raise Unsupported("python iteration over a symbolic sequence outside a cut loop")


class PList(list):
    """python list; after a cut loop its first part may be symbolic: n elements fn(i)"""

    def __init__(self, it=(), sym=None):
        super().__init__(it)
        self.sym = sym
        self.origin = None      # the set this list enumerates
        self._serial = arr.tick()

    __hash__ = object.__hash__

    def _touch(self):
        self.origin = None
        if _has_ctx():
            for s in ctx().mutated:
                s.add(self)

    def append(self, x):
        self._touch()
        list.append(self, x)

    def extend(self, xs):
        self._touch()
        if getattr(xs, "sym", None) is not None:
            raise Unsupported("list.extend by a symbolic list")
        list.extend(self, xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __setitem__(self, k, v):
        if self.sym is not None:
            raise Unsupported("assignment into a symbolic list")
        self._touch()
        list.__setitem__(self, k, v)

    def pop(self, *a):
        if self.sym is not None:
            raise Unsupported("pop")
        self._touch()
        return list.pop(self, *a)

    def insert(self, *a):
        raise Unsupported("list.insert") if self.sym is not None else None

    def index(self, v, *a):
        if self.sym is None:
            return list.index(self, v, *a)
        h = ctx().data.get("index_hook")
        if h is None or a:
            raise Unsupported("position in a symbolic list")
        return h(self, v)

    def __contains__(self, v):
        if self.sym is None:
            return list.__contains__(self, v)
        try:
            self.index(v)
            return True
        except ValueError:
            return False

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        if self.sym is None and getattr(o, "sym", None) is None:
            return PList(list.__add__(self, o))
        if not list.__len__(o) and getattr(o, "sym", None) is None:
            return PList(list(list.__iter__(self)), sym=self.sym)
        a = PList(list(list.__iter__(self)), sym=self.sym)
        b = PList(list(list.__iter__(o)), sym=getattr(o, "sym", None))
        n, m = a.length(), b.length()
        return PList(sym=(n + m, lambda i: a.at(i) if ctx().branch(zint(i) < zint(n)) else b.at(i - n)))

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return PList(o).__add__(self)

    def copy(self):
        return PList(list(list.__iter__(self)), sym=self.sym)

    def __eq__(self, o):
        if self is o:
            return True
        if self.sym is not None or getattr(o, "sym", None) is not None:
            raise Unsupported("comparison of symbolic lists")
        return list.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def length(self):
        n = list.__len__(self)
        return n if self.sym is None else self.sym[0] + n

    def at(self, i):
        if self.sym is None:
            c = conc(i)
            if c is not None:
                return list.__getitem__(self, c)
            n = list.__len__(self)
            for j in range(n):
                if j == n - 1 or ctx().branch(zint(i) == j):
                    return list.__getitem__(self, j)
            raise IndexError
        n, fn = self.sym
        m = list.__len__(self)
        if ctx().branch(zint(i) < zint(n)):
            return fn(i)
        for j in range(m):
            if j == m - 1 or ctx().branch(zint(i) == zint(n) + j):
                return list.__getitem__(self, j)
        raise IndexError("list index out of range")

    def __getitem__(self, k):
        if self.sym is None:
            if isinstance(k, SymInt):
                return self.at(k)
            return list.__getitem__(self, k)
        if isinstance(k, slice):
            if k == slice(None):
                return self.copy()
            raise Unsupported("slice of a symbolic list")
        c = conc(k)
        if isinstance(c, int) and c < 0:
            if -c <= list.__len__(self):
                return list.__getitem__(self, c)
            k = self.length() + c
        return self.at(k)

    def __iter__(self):
        if self.sym is not None:
            raise Unsupported("python iteration over a symbolic list outside a cut loop")
        return list.__iter__(self)

    def __bool__(self):
        return list.__len__(self) > 0 if self.sym is None else bool(list.__len__(self)) or ctx().branch(zint(self.sym[0]) > 0)

    def __len__(self):
        if self.sym is not None:
            raise Unsupported("len of a symbolic list outside the shim")
        return list.__len__(self)

    def __repr__(self):
        return "PList(%s%s)" % ("sym+" if self.sym else "", list.__repr__(self) if not self.sym else "...")


def _guard(nm):
    f = getattr(list, nm)

    def g(self, *a, **k):
        if self.sym is not None:
            raise Unsupported("list.%s of a symbolic list" % nm)
        if nm in ("remove", "reverse", "sort", "clear", "__delitem__", "__imul__"):
            self._touch()
        r = f(self, *a, **k)
        return PList(r) if type(r) is list else r
    return g


for _nm in ("remove", "reverse", "sort", "count", "__delitem__", "__mul__", "__rmul__", "__imul__", "__reversed__"):
    setattr(PList, _nm, _guard(_nm))


class PTup(PList):
    """python tuple whose length differs between the iterations of a cut loop"""

    def _no(self, *a):
        raise AttributeError("a tuple cannot be changed")
    append = extend = insert = pop = _no

    def __setitem__(self, k, v):
        raise TypeError("'tuple' object does not support item assignment")

    def __add__(self, o):
        if not isinstance(o, (tuple, PTup)):
            return NotImplemented
        if isinstance(o, tuple) or o.sym is None:
            return PTup(list(list.__iter__(self)) + list(o if isinstance(o, tuple) else list.__iter__(o)), sym=self.sym)
        r = PList.__add__(PList(list(list.__iter__(self)), sym=self.sym), PList(list(list.__iter__(o)), sym=o.sym))
        return PTup(list(list.__iter__(r)), sym=r.sym)

    __iadd__ = __add__

    def __radd__(self, o):
        if not isinstance(o, tuple):
            return NotImplemented
        return PTup(o) + self

    def __getitem__(self, k):
        r = PList.__getitem__(self, k)
        return PTup(list(list.__iter__(r)), sym=r.sym) if type(r) is PList and isinstance(k, slice) else r


def seqlen(v):
    return v.length() if hasattr(v, "length") else len(v)


def _has_ctx():
    from . import core
    return core.CTX is not None


# ------------------------------------------------------------------ havoc
def describe(v):
    """type descriptor used to widen havocked locals"""
    if v is UNBOUND:
        return ("unbound",)
    if isinstance(v, (bool, SymBool)):
        return ("bool",)
    if isinstance(v, (int, SymInt)):
        return ("int",)
    if isinstance(v, (float, SymReal)) or (_num(v) is not None and not isinstance(v, SArr)):
        return ("real",)
    if isinstance(v, SymStr):
        return ("str",)
    if isinstance(v, SArr):
        return ("arr", v.ndim, v)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(describe(x) for x in v)
    if isinstance(v, PTup):
        return ("seq",)
    if isinstance(v, PList):
        return ("list",)
    if type(v) is Poison:
        return ("poison",)
    return ("other", v)


def join(a, b, basic=False):
    if a[0] == "unbound":
        return b if b[0] == "unbound" else ("maybe", b)
    if a[0] == "maybe":
        if b[0] == "unbound":
            return a
        return ("maybe", join(a[1], b))
    if b[0] == "unbound":
        return ("maybe", a)
    if a[0] == b[0]:
        if a[0] == "tuple":
            if len(a) != len(b):
                return ("seq",)
            return ("tuple",) + tuple(join(x, y) for x, y in zip(a[1:], b[1:]))
        if a[0] == "other":
            if a[1] is b[1] or (type(a[1]) is type(b[1]) and isinstance(a[1], (str, type(None))) and a[1] == b[1]):
                return a
            if isinstance(a[1], str) and isinstance(b[1], str):
                return ("str",)
            if (type(a[1]) is type(b[1]) or hasattr(a[1], "_pv_obj") and hasattr(b[1], "_pv_obj")) and obj_like(a[1]):
                return ("poison",)
            raise Unsupported("loop changes a local of unmodelled type %s" % type(b[1]).__name__)
        if a[0] == "arr" and a[1] != b[1]:
            raise Unsupported("array of varying rank")
        return a
    s = {a[0], b[0]}
    if s == {"tuple", "seq"}:
        return ("seq",)
    if s in ({"poison", "list"}, {"other", "list"}) and all(x[0] != "other" or obj_like(x[1]) for x in (a, b)):
        return ("poison",)
    if s == {"poison", "other"} and obj_like((a if a[0] == "other" else b)[1]):
        return ("poison",)
    if s == {"str", "other"} and isinstance((a if a[0] == "other" else b)[1], str):
        return ("str",)
    if s <= {"bool", "int", "real"}:
        return ("real",) if "real" in s else ("int",)
    if basic:
        raise Unsupported("local of varying type (%s, %s)" % (a[0], b[0]))
    alts = list(a[1:]) if a[0] == "union" else [a]
    for y in (b[1:] if b[0] == "union" else [b]):
        for i, x in enumerate(alts):
            try:
                j = join(x, y, True)
            except Unsupported:
                continue
            if j[0] != "union":
                alts[i] = j
                break
        else:
            alts.append(y)
    if len(alts) > 4 or any(x[0] == "list" for x in alts):
        raise Unsupported("local of varying type (%s)" % ", ".join(x[0] for x in alts))
    return ("union",) + tuple(alts) if len(alts) > 1 else alts[0]


def Obj_like():
    from .loader import Obj
    return Obj


def obj_like(x):
    """an object whose identity may differ between iterations: unusable after the loop head unless assigned anew"""
    return isinstance(x, Obj_like()) or hasattr(x, "_pv_obj")


class Poison:
    """an object of an earlier iteration: must be assigned anew before it is used"""

    def __getattr__(self, n):
        if n.startswith(("__", "_pv")):
            raise AttributeError(n)
        raise Unsupported("use of an object of an earlier iteration")

    def _no(self, *a):
        raise Unsupported("use of an object of an earlier iteration")
    __bool__ = __eq__ = __ne__ = __len__ = __iter__ = __getitem__ = __call__ = __setitem__ = __contains__ = _no
    __hash__ = None

    def __setattr__(self, k, v):
        self._no()


def same_desc(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "arr":
        return a[1] == b[1]
    if a[0] == "other":
        return a[1] is b[1] or isinstance(a[1], str)
    return len(a) == len(b) and all(same_desc(x, y) if isinstance(x, tuple) else x == y for x, y in zip(a[1:], b[1:]))


def fresh_of(d, hint):
    c = ctx()
    k = d[0]
    if k == "bool":
        return SymBool(z3.Bool(c.fresh(hint)))
    if k == "int":
        return SymInt(z3.Int(c.fresh(hint)))
    if k == "real":
        return SymReal(z3.Real(c.fresh(hint)))
    if k == "str":
        return SymStr(z3.String(c.fresh(hint)))
    if k == "arr":
        return fresh_like(d[2], hint)
    if k == "tuple":
        return tuple(fresh_of(x, hint) for x in d[1:])
    if k == "seq":
        n = SymInt(z3.Int(c.fresh("len")))
        c.assume(n._z >= 0)

        def el(i):
            raise Unsupported("element of a tuple of an earlier iteration without a known value")
        return PTup(sym=(n, el))
    if k == "other":
        return d[1]
    if k in ("poison", "list"):
        return Poison()
    if k == "union":
        for x in d[1:-1]:
            if c.choose(".type"):
                return fresh_of(x, hint)
        return fresh_of(d[-1], hint)
    raise Unsupported("havoc of %s" % k)


def fresh_like(v, hint):
    r = SArr(v.shape, None, dtype=v.dtype)
    r._c = fresh_content(v, hint)
    return r


def fresh_content(v, hint):
    c = v.c
    nm = ctx().fresh(hint)
    if isinstance(c, Log) or v.ndim > 2:
        m = c.m if isinstance(c, Log) else max(1, v.ndim - 1)
        return Log(m, FamBase(lambda *idx: arr.atom_value(nm, idx, v.shape[m:])))
    if v.ndim == 0:
        raise Unsupported("0-d array")
    if v.dtype == "bool" or isinstance(c, Elem):
        return arr.el_array(nm, v.shape, "bool" if v.dtype == "bool" else "real").c
    return Block.single(v.shape[0], v.shape[1] if v.ndim == 2 else 1, nc.Poly.of(nc.atom(nm)))


# ------------------------------------------------------------------ candidates
class Cand:
    """scalar invariant: fn(env) -> bool proxy"""
    kind = "bool"

    def __init__(self, key, fn):
        self.key, self.fn = key, fn


class ValCand:
    """local `var` holds value(env)"""
    kind = "val"

    def __init__(self, key, var, value, alt=False):
        self.key, self.var, self.value, self.alt = key, var, value, alt


class CellCand:
    """for all cells idx of array `var` with guard(env, idx): var[idx] == value(env, idx)"""
    kind = "cell"

    def __init__(self, key, var, m, guard, value, alt=False):
        self.key, self.var, self.m, self.guard, self.value = key, var, m, guard, value
        self.alt = alt      # one of several mutually exclusive guesses


class _IdSet:
    """set of objects by identity"""

    def __init__(self):
        self.d = {}

    def add(self, o):
        self.d[id(o)] = o

    def __iter__(self):
        return iter(self.d.values())


class Env(dict):
    """locals at a loop head; .n iterations done so far, .it the iterable, .outer enclosing loops"""

    def names(self, *types):
        return [k for k, v in self.items() if isinstance(v, types) and not k.startswith("__")]

    def ints(self):
        return [k for k, v in self.items() if isinstance(v, (int, SymInt)) and not isinstance(v, bool)
                and not k.startswith("__")]

    def arrays(self, ndim=None):
        return [k for k, v in self.items() if isinstance(v, SArr) and (ndim is None or v.ndim == ndim)]


class Loop:
    def __init__(self, rt, lid, it, frame, is_while, stored):
        self.rt, self.lid, self.it, self.is_while = rt, lid, it, is_while
        self.stored = stored
        self.frame = frame
        self.serial = arr.tick()
        c = ctx()
        self.unit = c.unit
        # one loop per call chain of instrumented functions
        self.key = (lid,)
        f_env = dict(frame.f_locals)
        self.entry = f_env
        self._enter(c, f_env)

    # environment seen by candidates
    def env(self, loc, n):
        e = Env((k, v) for k, v in loc.items() if not k.startswith("__pv"))
        e.n = n
        e.it = self.it
        e.loop = self
        e.outer = self.outer_loops()
        for k, v in e.items():
            if isinstance(v, tuple) and getattr(self, "types", {}).get(k, ("",))[0] == "seq":
                e[k] = PTup(v)
        return e

    def resolve(self, loc, path):
        v = loc.get(path[0], UNBOUND)
        for a in path[1:]:
            v = getattr(v, a, UNBOUND) if not isinstance(v, dict) else v.get(a, UNBOUND)
        return v

    def paths(self, loc):
        out = []
        for k, v in loc.items():
            if k.startswith("__pv"):
                continue
            if isinstance(v, (SArr, PList)):
                out.append(((k,), v))
            d = getattr(v, "_pv_fields", None)
            if d is not None:
                for a, w in d().items():
                    if isinstance(w, (SArr, PList)):
                        out.append(((k, a), w))
            if isinstance(v, (tuple,)):
                continue
        return out

    def _enter(self, c, loc):
        u = self.unit
        n0 = 0
        self.types = u.havoc_types.setdefault(self.key, {})
        self.mut = u.mutsets.setdefault(self.key, set())
        spec = u.loops
        env = self.env(loc, n0)
        self.cands = [x for x in (spec(env) if spec and not u.frame_only else [])]
        self.cands = [x for x in self.cands if (self.key, x.key) not in u.dropped]
        # alternatives: only one guess about the content of a local at a time
        last = {x.var: x for x in self.cands if getattr(x, "alt", False)}
        self.cands = [x for x in self.cands if not getattr(x, "alt", False) or last[x.var] is x]
        u.loops_cut.add(self.key)
        self._check(c, env, "entry")
        # ---- havoc
        new = dict(loc)
        frozen = {}
        n = SymInt(z3.Int(c.fresh("n")))
        c.assume(n._z >= 0)
        if not self.is_while:
            self.count = self.it.length() if hasattr(self.it, "length") else None
            c.assume(n._z <= zint(self.count))
        self.n = n
        for k in self.stored:
            cur = loc.get(k, UNBOUND)
            d = describe(cur)
            if k in self.types:
                d = join(self.types[k], d)
            else:
                self.types[k] = d
            self.types[k] = d
            if self._par():
                new[k] = UNBOUND
                continue
            if d[0] == "unbound":
                new[k] = UNBOUND
            elif d[0] == "maybe":
                new[k] = fresh_of(d[1], k) if c.branch(n._z > 0) else UNBOUND
            elif d[0] in ("list", "other") and not (d[0] == "other" and cur is UNBOUND):
                new[k] = cur
            else:
                new[k] = fresh_of(d, k)
        self.mutobjs = {}
        for path in sorted(self.mut):
            o = self.resolve(loc, path)
            if o is UNBOUND:
                raise Unsupported("mutated object %s vanished" % (path,))
            if id(o) in self.mutobjs:
                continue
            self.mutobjs[id(o)] = o
            if isinstance(o, PList):
                frozen[id(o)] = (o, o.length(), o.at)
                base = o.length()
                el = self._list_elem(o, path)
                o_n = SymInt(z3.Int(c.fresh("len")))
                c.assume(o_n._z >= 0)
                o.sym = (o_n, el)
                list.clear(o)
                o._touch()
                continue
            content = fresh_content(o, "_".join(path))
            o._set(content)
        # value / cell candidates substitute, scalar ones are assumed
        henv = self.env({k: v for k, v in new.items() if v is not UNBOUND}, n)
        for x in self.cands:
            if x.kind == "val":
                cur = henv.get(x.var, UNBOUND)
                if cur is UNBOUND:
                    continue
                v = x.value(henv)
                if v is None:
                    continue
                if isinstance(cur, SArr) and isinstance(v, SArr):
                    if id(cur) in self.mutobjs:
                        cur._set(v.c)
                    elif x.var in self.stored:
                        w = SArr(v.shape, v.c, dtype=v.dtype)
                        new[x.var] = w
                        henv[x.var] = w
                elif isinstance(cur, PList):
                    continue
                else:
                    r = (cur == v)
                    c.assume(r)
            elif x.kind == "cell":
                o = henv.get(x.var)
                if isinstance(o, SArr):
                    if id(o) in self.mutobjs:
                        self._install(o, x, henv)
                elif isinstance(o, PTup) and x.var in self.stored and o is new.get(x.var):
                    ln, old = o.sym
                    o.sym = (ln, self._guarded(x, henv, old))
                elif isinstance(o, PList) and id(o) in self.mutobjs:
                    ln, old = o.sym
                    o.sym = (ln, self._guarded(x, henv, old))
        for x in self.cands:
            if x.kind == "bool":
                b = x.fn(henv)
                if b is not None:
                    c.assume(tobool(b) if not isinstance(b, bool) else b)
        self.new = new
        self.henv = henv
        self.variants = None

    def _list_elem(self, o, path):
        shapes = self.unit.list_elems.get((self.key, path))
        nm = ctx().fresh("_".join(path))
        if shapes is None:
            def el(i):
                raise Unsupported("element of a havocked list without a known value")
            return el
        d = shapes

        def el(i):
            if d[0] == "arr":
                return arr.atom_value(nm, (i,), d[2].shape)
            return part(d, nm, i)

        def part(d, nm, i):
            if d[0] == "tuple":
                return tuple(part(x, "%s.%d" % (nm, j), i) for j, x in enumerate(d[1:]))
            if d[0] not in sorts:
                raise Unsupported("list of %s" % d[0])
            return mk(z3.Function(nm, z3.IntSort(), sorts[d[0]])(zint(i)))
        sorts = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(), "str": z3.StringSort()}
        return el

    def _guarded(self, x, env, old):
        def el(i):
            g = x.guard(env, (i,))
            if g is True or (g is not False and ctx().branch(tobool(g))):
                return x.value(env, (i,))
            return old(i)
        return el

    def _install(self, o, x, env):
        c = o.c
        if not isinstance(c, Log):
            oldarr = SArr(o.shape, c)
            m = x.m
            old = lambda idx: oldarr._sub_ints(idx)
        else:
            m = c.m
            snap = SArr(o.shape, c.copy())
            old = lambda idx: snap.read_idx(idx)
        if m != x.m:
            if m > x.m:
                raise Unsupported("array %s is accessed below the level of its invariant" % x.var)
            m = x.m

        def fn(*idx):
            g = x.guard(env, idx)
            if g is True or (g is not False and ctx().branch(tobool(g))):
                return x.value(env, idx)
            return old(idx)
        o._set(Log(m, FamBase(fn)))

    # ---- checking
    def _check(self, c, env, where):
        bad = []
        for x in self.cands:
            try:
                ok = self._holds(c, x, env)
            except (Unsupported, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
                ok = False
            if not ok:
                bad.append(x)
        if bad:
            for x in bad:
                self.unit.dropped.add((self.key, x.key))
                self.unit.drop_log.append((self.key, x.key, where))
            raise Restart()

    def _holds(self, c, x, env):
        if x.kind == "bool":
            b = x.fn(env)
            if b is None:
                return True
            return c.entails(tobool(b) if not isinstance(b, bool) else b, ms=8000)
        if x.kind == "val":
            if x.var not in env:
                return True
            v = x.value(env)
            if v is None:
                return True
            cur = env[x.var]
            return arr.arr_equal(cur, v)
        # cell
        o = env.get(x.var)
        if isinstance(o, tuple):
            o = PTup(o)
        if isinstance(o, SArr):
            shape = o.shape
        elif isinstance(o, PList):
            shape = (o.length(),)
        else:
            return False

        def one():
            idx = []
            for ax in range(x.m):
                i = SymInt(z3.Int(c.fresh("ix")))
                c.assume(z3.And(i._z >= 0, i._z < zint(shape[ax])))
                idx.append(i)
            idx = tuple(idx)
            g = x.guard(env, idx)
            if g is False:
                return True
            if g is not True:
                c.assume(tobool(g))
            if c.check() == z3.unsat:
                return True
            got = o.at(idx[0]) if isinstance(o, PList) else \
                (o.elem(*idx) if x.m == o.ndim else o._sub_ints(idx))
            return arr.arr_equal(got, x.value(env, idx))
        return all(c.forall_paths(one))

    # ---- protocol used by the instrumented code
    def h(self, k):
        return self.new.get(k, UNBOUND) is not UNBOUND

    def u(self, k):
        """must k be unbound by the loop head?"""
        return self.new.get(k, UNBOUND) is UNBOUND and k in self.entry

    def g(self, k):
        return self.new[k]

    def _par(self):
        return getattr(self.it, "par", False)

    def __iter__(self):
        c = ctx()
        if not self.is_while:
            more = c.choose(".loop")
            if not more:
                c.assume(self.n._z == zint(self.count))
                if c.check() == z3.unsat:
                    raise PathEnd()
                return
            c.assume(self.n._z < zint(self.count))
        if c.check() == z3.unsat:
            raise PathEnd()
        if self.is_while and self.unit.termination:
            self._variants_start()
        self.myset = _IdSet()
        c.mutated.append(self.myset)
        c.loop_stack.append(self)
        if self._par():
            c.par_log = []
        self.cur = None if self.is_while else self.it.at(self.n)
        yield self.cur
        frame = sys._getframe(1)
        loc = dict(frame.f_locals)
        self._finish(c, loc)
        raise PathEnd()

    def _pop(self, c):
        c.loop_stack = [x for x in c.loop_stack if x is not self]
        c.mutated = [x for x in c.mutated if x is not getattr(self, "myset", None)]

    def outer_loops(self):
        """enclosing loops whose frame is still running, outermost first"""
        live, f = set(), sys._getframe(1)
        while f is not None:
            live.add(id(f))
            f = f.f_back
        return [x for x in ctx().loop_stack if id(x.frame) in live and x is not self]

    def _finish(self, c, loc):
        mset = self.myset
        for par in [x for x in self.outer_loops() if x._par()] + ([self] if self._par() else []):
            par._par_obligations(c, loc)
        self._pop(c)
        # frame
        pre = {}
        for path, o in self.paths({k: v for k, v in self.entry.items()}):
            pre.setdefault(id(o), path)
        grew = False
        for o in mset:
            if id(o) in self.mutobjs:
                continue
            if id(o) in pre:
                if pre[id(o)] not in self.mut:
                    self.mut.add(pre[id(o)])
                    grew = True
            elif getattr(o, "_serial", 0) < self.serial:
                raise Unsupported("loop changes an object that no local names")
        if grew:
            raise Restart()
        # list elements
        for path in self.mut:
            o = self.resolve(self.entry, path)
            if isinstance(o, PList) and list.__len__(o):
                d = describe(list.__getitem__(o, list.__len__(o) - 1))
                old = self.unit.list_elems.get((self.key, path))
                if old is None:
                    self.unit.list_elems[self.key, path] = d
                    raise Restart()
        # types
        for k in self.stored:
            d0 = self.types[k]
            d1 = describe(loc.get(k, UNBOUND))
            dj = join(d0, d1)
            if not same_desc(dj, d0) and not self._par():
                self.types[k] = dj
                raise Restart()
        env = self.env(loc, self.n + 1)
        self._check(c, env, "preservation")
        c.record(Obligation("loop %s: invariant preserved" % (self.lid,), "proved",
                            "%d invariants" % len(self.cands)))
        self.unit.inv_used[self.key] = sorted(x.key for x in self.cands)
        if self.is_while and self.unit.termination:
            self._variants_end(c, loc)

    # ---- termination
    def _variants_start(self):
        vs = self.unit.termination(self.henv) or []
        self.variants = [(k, fn, fn(self.henv)) for k, fn in vs
                         if (self.key, "variant " + k) not in self.unit.dropped]

    def _variants_end(self, c, loc):
        env = self.env(loc, self.n + 1)
        keep, bad = [], []
        for k, fn, old in self.variants:
            ok = False
            try:
                new = fn(env)
                ok = c.entails(z3.And(zint(old) >= 0, zint(new) < zint(old)))
            except (KeyError, TypeError, AttributeError):
                pass
            (keep if ok else bad).append(k)
        if keep:
            if bad:
                for k in bad:
                    self.unit.dropped.add((self.key, "variant " + k))
                raise Restart()
            c.record(Obligation("loop %s: terminates" % (self.lid,), "proved", "variant " + keep[0]))
        else:
            c.record(Obligation("loop %s: terminates" % (self.lid,), "unknown",
                                "no variant decreases (tried %s)" % bad))

    # ---- parallel loops
    def _par_obligations(self, c, loc):
        """iterations of a parallel loop touch disjoint cells and share nothing they write"""
        i = self.cur
        writes = [w for w in c.par_log if w[0] == "w"]
        reads = [w for w in c.par_log if w[0] == "r"]
        shared = {}
        for _, o, pat in writes:
            if getattr(o, "_serial", 0) >= self.serial:
                continue
            ax = [a for a, p in enumerate(pat) if p is not arr.ANY and c.entails(zint(p) == zint(i))]
            shared.setdefault(id(o), [o, None])
            s = set(ax)
            shared[id(o)][1] = s if shared[id(o)][1] is None else shared[id(o)][1] & s
        for oid, (o, axes) in shared.items():
            c.record(Obligation("parallel loop %s: iterations write disjoint cells" % (self.lid,),
                                "proved" if axes else "refuted",
                                "" if axes else "an array is written at cells not indexed by the parallel index"))
            if not axes:
                continue
            for _, ro, pat in reads:
                if ro is o:
                    ok = any(a < len(pat) and pat[a] is not arr.ANY and c.entails(zint(pat[a]) == zint(i)) for a in axes)
                    c.record(Obligation("parallel loop %s: iterations read only their own results" % (self.lid,),
                                        "proved" if ok else "refuted",
                                        "" if ok else "an iteration reads cells another iteration writes"))
