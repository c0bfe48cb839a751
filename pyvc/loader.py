"""Loads the real modules from /repo's current source into the verifier.

The source text is parsed and executed as it stands.  The only rewriting is mechanical: loops and
list displays/comprehensions inside functions are routed through the verifier (which runs them
natively when they are over concrete data), imports and builtins resolve to the shims.  Nothing
else is dropped or replaced; decorators run (njit is the identity: see DESIGN.md, assumptions).
"""
import ast
import builtins
import os
import sys
import types
import z3
from . import arr, core, loops, sym
from .arr import SArr
from .core import Unsupported, ctx
from .loops import Loop, PList, SymRange, SymSeq, mkrange
from .sym import SymBool, SymInt, SymNum, SymReal, SymStr, conc, mk, tobool, zint, zreal

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pydsge"


# ------------------------------------------------------------------ instrumentation
class Stored(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for w in ast.walk(n):
            if isinstance(w, ast.NamedExpr):
                self.names.add(w.target.id)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)


def stored(nodes):
    v = Stored()
    for n in nodes:
        v.visit(n)
    return sorted(v.names)


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.count = {}

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.count[".".join(self.fn)] = 0
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = [y for x in n.body for y in self._stmts(self.visit(x))]
        self.fn.pop()
        return n

    def _stmts(self, r):
        return r if isinstance(r, list) else [r]

    def _id(self):
        q = ".".join(self.fn)
        self.count[q] += 1
        return "%s.%s#%d" % (self.mod, q, self.count[q])

    def _havoc(self, lname, names, at):
        out = []
        for k in names:
            src = "if {L}.h({k!r}):\n  {k} = {L}.g({k!r})\nelif {L}.u({k!r}):\n  del {k}\n".format(L=lname, k=k)
            out += ast.parse(src).body
        return out

    def visit_For(self, n):
        if not self.fn:
            return n
        lid = self._id()
        L = "__pv_L%d" % self.count[".".join(self.fn)]
        names = stored([n.target] + n.body)
        it = self.visit(n.iter)
        body = [y for x in n.body for y in self._stmts(self.visit(x))]
        orelse = [y for x in n.orelse for y in self._stmts(self.visit(x))]
        pre = ast.parse("%s = __pv__.loop(%r, None, %r)" % (L, lid, names)).body[0]
        pre.value.args[1] = it
        loop = ast.For(target=n.target, iter=ast.Name(L, ast.Load()), body=body, orelse=orelse)
        post = ast.parse("__pv__.end(%s)" % L).body
        out = [pre] + self._havoc(L, names, n) + [loop] + post
        for x in out:
            _loc(x, n)
        return out

    def visit_While(self, n):
        if not self.fn:
            return n
        lid = self._id()
        L = "__pv_L%d" % self.count[".".join(self.fn)]
        names = stored(n.body + [n.test])
        test = self.visit(n.test)
        body = [y for x in n.body for y in self._stmts(self.visit(x))]
        orelse = [y for x in n.orelse for y in self._stmts(self.visit(x))]
        pre = ast.parse("%s = __pv__.wloop(%r, %r)" % (L, lid, names)).body
        brk = ast.If(test=ast.UnaryOp(ast.Not(), test), body=orelse + [ast.Break()], orelse=[])
        loop = ast.For(target=ast.Name("__pv_i", ast.Store()), iter=ast.Name(L, ast.Load()),
                       body=[brk] + body, orelse=[])
        post = ast.parse("__pv__.end(%s)" % L).body
        out = pre + self._havoc(L, names, n) + [loop] + post
        for x in out:
            _loc(x, n)
        return out

    def _comp(self, n, kind):
        if self.fn and len(n.generators) > 1:
            # nested generators: the inner ones form a list of their own
            inner = _loc(ast.ListComp(elt=n.elt, generators=n.generators[1:]), n)
            flat = _loc(ast.Call(func=ast.Attribute(ast.Name("__pv__", ast.Load()), "flat", ast.Load()),
                                 args=[_loc(ast.ListComp(elt=inner, generators=n.generators[:1]), n), ast.Constant(kind)], keywords=[]), n)
            return self.visit(flat)
        n = self.generic_visit(n)
        if (not self.fn or len(n.generators) != 1 or n.generators[0].is_async
                or any(isinstance(w, (ast.NamedExpr, ast.Yield, ast.Await)) for w in ast.walk(n))):
            return n
        g = n.generators[0]
        inner = ast.ListComp(elt=n.elt, generators=[ast.comprehension(
            target=g.target, iter=ast.List([ast.Name("__pv_x", ast.Load())], ast.Load()), ifs=g.ifs, is_async=0)])
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg("__pv_x")], kwonlyargs=[],
                                            kw_defaults=[], defaults=[]), body=inner)
        call = ast.Call(func=ast.Attribute(ast.Name("__pv__", ast.Load()), "comp", ast.Load()),
                        args=[g.iter, lam, ast.Constant(bool(g.ifs)), ast.Constant(kind)], keywords=[])
        _loc(call, n)
        return call

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_DictComp(self, n):
        if not self.fn:
            return self.generic_visit(n)
        pairs = _loc(ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators), n)
        call = ast.Call(func=ast.Attribute(ast.Name("__pv__", ast.Load()), "mkdict", ast.Load()), args=[self.visit(pairs)], keywords=[])
        return _loc(call, n)

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if not self.fn:
            return n
        return _loc(ast.Call(func=ast.Attribute(ast.Name("__pv__", ast.Load()), "dict", ast.Load()), args=[n], keywords=[]), n)

    def visit_List(self, n):
        n = self.generic_visit(n)
        if not self.fn or not isinstance(n.ctx, ast.Load):
            return n
        if len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
            call = ast.Call(func=ast.Attribute(ast.Name("__pv__", ast.Load()), "mkstar", ast.Load()), args=[n.elts[0].value], keywords=[])
        else:
            call = ast.Call(func=ast.Attribute(ast.Name("__pv__", ast.Load()), "mklist", ast.Load()),
                            args=[ast.Tuple(elts=n.elts, ctx=ast.Load())], keywords=[])
        _loc(call, n)
        return call

    def visit_JoinedStr(self, n):
        n = self.generic_visit(n)
        if not self.fn:
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(v.conversion), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        call = ast.Call(func=ast.Attribute(ast.Name("__pv__", ast.Load()), "fstr", ast.Load()), args=parts, keywords=[])
        _loc(call, n)
        return call

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        if n.format_spec is not None:
            n.format_spec = self.visit(n.format_spec)
        return n

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if self.fn and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            call = ast.Call(func=ast.Attribute(ast.Name("__pv__", ast.Load()), "smod", ast.Load()), args=[n.left, n.right], keywords=[])
            _loc(call, n)
            return call
        return n

    def visit_Raise(self, n):
        n = self.generic_visit(n)
        if self.fn and isinstance(n.exc, ast.Call):
            # the text of an exception
            for a in n.exc.args:
                if isinstance(a, ast.Starred):
                    a.value = _loc(ast.Call(func=ast.Attribute(ast.Name("__pv__", ast.Load()), "star", ast.Load()), args=[a.value], keywords=[]), n)
        return n

    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        if self.fn:
            g = ast.parse("__pv__.exc()").body[0]
            _loc(g, n)
            n.body = [g] + n.body
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        f = n.func
        if self.fn and isinstance(f, ast.Name) and f.id == "dict":
            n.func = ast.Attribute(ast.Name("__pv__", ast.Load()), "mkdict", ast.Load())
            _loc(n, n)
            return n
        if self.fn and isinstance(f, ast.Attribute) and f.attr in ("format", "join") and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            n.func = ast.Attribute(ast.Name("__pv__", ast.Load()), "s" + f.attr, ast.Load())
            n.args = [f.value] + n.args
            _loc(n, n)
        return n


def _loc(x, n):
    for w in ast.walk(x):
        if not hasattr(w, "lineno") and isinstance(w, (ast.expr, ast.stmt, ast.arg, ast.excepthandler)):
            w.lineno, w.col_offset = n.lineno, n.col_offset
            w.end_lineno, w.end_col_offset = n.lineno, n.col_offset
    ast.fix_missing_locations(x)
    return x


# ------------------------------------------------------------------ run-time support
class NativeLoop:
    CAP = 3000

    def __init__(self, it):
        self.it = it

    def h(self, k):
        return False

    u = h

    def __iter__(self):
        n = 0
        for x in self.it:
            n += 1
            if n > self.CAP:
                raise Unsupported("unrolled loop exceeds %d iterations" % self.CAP)
            yield x


def _forever():
    while True:
        yield None


def is_symiter(it):
    if isinstance(it, (SymRange, SymSeq)):
        return True
    if isinstance(it, PList):
        return it.sym is not None
    if isinstance(it, SArr):
        return not isinstance(conc(it.shape[0]) if it.shape else 0, int)
    return hasattr(it, "_pv_symiter")


class SymDict:
    """dict built from a symbolic sequence of pairs"""

    def __init__(self, n, pair):
        self.n, self.pair = n, pair

    def length(self):
        return self.n

    def keys(self):
        return PList(sym=(self.n, lambda i: self.pair(i)[0]))

    def values(self):
        return PList(sym=(self.n, lambda i: self.pair(i)[1]))

    def items(self):
        return PList(sym=(self.n, lambda i: self.pair(i)))


class PDict(dict):
    """python dict; may have been updated by dicts built from symbolic sequences"""

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.syms = []

    def update(self, *a, **k):
        if a and isinstance(a[0], SymDict):
            if dict.__len__(self) or k:
                raise Unsupported("update of a dict by a symbolic one")
            self.syms.append(a[0])
            return
        if self.syms:
            raise Unsupported("update of a symbolic dict")
        dict.update(self, *a, **k)


def _dguard(nm):
    f = getattr(dict, nm)

    def g(self, *a, **k):
        if self.syms:
            raise Unsupported("dict.%s of a symbolic dict" % nm)
        return f(self, *a, **k)
    return g


for _nm in ("__getitem__", "__setitem__", "__delitem__", "__contains__", "__iter__", "__len__", "get", "items", "keys", "values", "pop", "popitem", "setdefault", "copy", "clear", "__eq__", "__or__", "__ior__"):
    setattr(PDict, _nm, _dguard(_nm))
PDict.__hash__ = None


def frozen_value(v):
    if isinstance(v, SArr):
        return v.copy()
    if isinstance(v, PList) and v.sym is not None:
        r = v.copy()
        r.origin = v.origin
        return r
    return v


def frozen(f):
    """a function whose free variables keep their present values"""
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f
    cells = []
    for c in f.__closure__:
        try:
            cells.append(types.CellType(frozen_value(c.cell_contents)))
        except ValueError:
            cells.append(c)
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


class RT:
    def loop(self, lid, it, names):
        if is_symiter(it):
            return Loop(self, lid, it, sys._getframe(1), False, names)
        return NativeLoop(it)

    def wloop(self, lid, names):
        if core.CTX is not None and core.CTX.unit.cut_while:
            return Loop(self, lid, None, sys._getframe(1), True, names)
        return NativeLoop(_forever())

    def end(self, L):
        if isinstance(L, Loop) and core.CTX is not None:
            L._pop(ctx())

    def comp(self, it, f, ifs, kind):
        if is_symiter(it):
            # evaluated when an element is used: what it refers to is as it is now
            f = frozen(f)
            if kind == "list":
                it = frozen_value(it)
            if ifs:
                if not hasattr(it, "_pv_filter"):
                    raise Unsupported("filtered comprehension over a symbolic sequence")
                it = it._pv_filter(lambda x: len(f(x)) == 1)
            n = it.length()
            raw = lambda i: f(it.at(i))[0]
            seen = []

            def one():
                i = SymInt(z3.Int(ctx().fresh("cx")))
                ctx().assume(z3.And(i._z >= 0, i._z < zint(n)))
                try:
                    raw(i)
                except Unsupported:
                    raise
                except Exception as e:
                    seen.append(type(e).__name__)
            ctx().forall_paths(one)
            fn = raw
            if seen:
                # an element may raise: either some element does (witness), or none does
                if ctx().branch(z3.Bool(ctx().fresh("raises"))):
                    i = SymInt(z3.Int(ctx().fresh("witness")))
                    ctx().assume(z3.And(i._z >= 0, i._z < zint(n)))
                    raw(i)
                    raise core.PathEnd()

                def fn(i):
                    try:
                        return raw(i)
                    except Unsupported:
                        raise
                    except Exception:
                        raise core.PathEnd()
            if kind != "list":
                return SymSeq(n, fn)
            r = PList(sym=(n, fn))
            if hasattr(it, "_pv_filter"):
                i = SymInt(z3.Int(ctx().fresh("cx")))
                probe = object()
                if f(probe) == [probe] if not ifs else all(ctx().forall_paths(lambda: (lambda x: all(y is x for y in f(x)))(it.at(i)))):
                    r.origin = it
            return r
        out = []
        for x in it:
            out.extend(f(x))
        return PList(out) if kind == "list" else iter(out)

    def flat(self, xs, kind):
        if is_symiter(xs):
            # all parts of one and the same concrete length
            ln = []

            def one():
                i = SymInt(z3.Int(ctx().fresh("fx")))
                ctx().assume(z3.And(i._z >= 0, i._z < zint(xs.length())))
                y = xs.at(i)
                ln.append(None if is_symiter(y) else len(y))
            ctx().forall_paths(one)
            if len(set(ln)) != 1 or not ln[0]:
                raise Unsupported("nested comprehension")
            c = ln[0]
            r = PList(sym=(xs.length() * c, lambda i: xs.at(i)[0] if c == 1 else xs.at(mk(zint(i) / c))[mk(zint(i) % c)]))
            return r if kind == "list" else SymSeq(r.length(), r.at)
        out = []
        for x in xs:
            if is_symiter(x):
                raise Unsupported("nested comprehension")
            out.extend(x)
        return PList(out) if kind == "list" else iter(out)

    def mklist(self, xs):
        return PList(xs)

    def dict(self, d):
        return PDict(d)

    def star(self, x):
        return (x,) if is_symiter(x) else x

    def mkstar(self, x):
        return list_(x)

    def mkdict(self, *a, **k):
        if a and is_symiter(a[0]):
            if k:
                raise Unsupported("dict of a symbolic sequence")
            return SymDict(a[0].length(), a[0].at)
        return dict(*a, **k)

    def exc(self):
        """first statement of every handler: what the verifier raises is not the program's to catch"""
        e = sys.exc_info()[1]
        if isinstance(e, (core.PathEnd, core.Restart, Unsupported)):
            raise e
        if isinstance(e, (AttributeError, TypeError)) and any(w in str(e) for w in ("Sym", "SArr", "PList", "Missing", "StubModule")):
            raise Unsupported("%s: %s" % (type(e).__name__, e))

    # text: a symbolic string stays one; a number (or anything else symbolic) formatted into a text is an unknown text
    def _piece(self, v, conv=-1, spec=""):
        if isinstance(v, SymStr) and conv in (-1, 115) and spec == "":
            return v
        if isinstance(v, (SymStr, SymNum, SymBool, SArr)) or isinstance(spec, SymStr):
            return SymStr(z3.String(ctx().fresh("text")))
        v = {115: str, 114: repr, 97: ascii}.get(conv, lambda x: x)(v)
        return format(v, spec)

    def fstr(self, *parts):
        return self._cat([self._piece(*x) if isinstance(x, tuple) else x for x in parts])

    def _cat(self, parts):
        r = ""
        for x in parts:
            r = x if isinstance(r, str) and r == "" else r + x
        return r

    def smod(self, f, a):
        xs = a if isinstance(a, tuple) else (a,)
        if not any(isinstance(x, (SymStr, SymNum, SymBool, SArr)) for x in xs):
            return f % a
        import re
        toks = re.split(r"(%[-#0 +]*[0-9*]*(?:\.[0-9*]+)?[a-zA-Z%])", f)
        out, i = [], 0
        for t in toks:
            if t == "%%":
                out.append("%")
            elif t.startswith("%"):
                if i >= len(xs):
                    raise TypeError("not enough arguments for format string")
                out.append(self._piece(xs[i]) if t == "%s" else self._piece(xs[i], spec=SymStr(z3.String("x"))) if isinstance(xs[i], (SymStr, SymNum, SymBool, SArr)) else t % xs[i])
                i += 1
            elif t:
                out.append(t)
        if i != len(xs):
            raise TypeError("not all arguments converted during string formatting")
        return self._cat(out)

    def sformat(self, f, *a, **k):
        if not any(isinstance(x, (SymStr, SymNum, SymBool, SArr)) for x in list(a) + list(k.values())):
            return f.format(*a, **k)
        import string
        out, n = [], 0
        for lit, name, spec, conv in string.Formatter().parse(f):
            out.append(lit)
            if name is None:
                continue
            if name == "":
                v, n = a[n], n + 1
            elif name.isdigit():
                v = a[int(name)]
            elif name.isidentifier():
                v = k[name]
            else:
                raise Unsupported("format field %r" % name)
            out.append(self._piece(v, ord(conv) if conv else -1, spec or ""))
        return self._cat([x for x in out if not (isinstance(x, str) and x == "")])

    def sjoin(self, sep, xs):
        if is_symiter(xs):
            return SymStr(z3.String(ctx().fresh("text")))
        xs = list(xs)
        if not any(isinstance(x, SymStr) for x in xs):
            return sep.join(xs)
        out = []
        for i, x in enumerate(xs):
            out += ([sep] if i and sep else []) + [x]
        return self._cat(out)


# ------------------------------------------------------------------ builtins
class _TypeShim(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._py)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._py

    def __hash__(cls):
        return hash(cls._py)

    def __getattr__(cls, n):
        return getattr(cls._py, n)


class int_(metaclass=_TypeShim):
    _py = int

    def _inst(x):
        return isinstance(x, (int, SymInt, SymBool))

    def _make(x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return mk(z3.If(x._z, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(x, SymReal):
            if z3.is_to_real(x._z):
                return mk(x._z.arg(0))
            return mk(z3.If(x._z >= 0, z3.ToInt(x._z), -z3.ToInt(-x._z)))
        if isinstance(x, SArr):
            raise Unsupported("int of an array")
        return int(x, *a)


class float_(metaclass=_TypeShim):
    _py = float

    def _inst(x):
        return isinstance(x, (float, SymReal))

    def _make(x=0.0):
        if isinstance(x, SymNum):
            return mk(zreal(x))
        return float(x)


class bool_(metaclass=_TypeShim):
    _py = bool

    def _inst(x):
        return isinstance(x, (bool, SymBool))

    def _make(x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymNum):
            return mk(x._z != 0)
        return bool(x)


class str_(metaclass=_TypeShim):
    _py = str

    def _inst(x):
        return isinstance(x, (str, SymStr))

    def _make(x="", *a):
        if isinstance(x, SymStr):
            return x
        if hasattr(x, "_pv_text"):
            return x._pv_text
        if isinstance(x, (SymNum, SymBool, SArr)):
            return SymStr(z3.String(ctx().fresh("text")))
        return str(x, *a)


class list_(metaclass=_TypeShim):
    _py = list

    def _inst(x):
        return isinstance(x, list) and not isinstance(x, loops.PTup)

    def _make(x=()):
        if isinstance(x, PList) and x.sym is not None:
            r = PList(list.__iter__(x), sym=x.sym)
            r.origin = x.origin
            return r
        if isinstance(x, SArr) and is_symiter(x):
            x = x.copy()
        if is_symiter(x):
            r = PList(sym=(x.length(), x.at))
            r.origin = x if hasattr(x, "_pv_filter") else None
            return r
        return PList(x)


class tuple_(metaclass=_TypeShim):
    _py = tuple

    def _inst(x):
        return isinstance(x, (tuple, loops.PTup))

    def _make(x=()):
        if isinstance(x, PList) and x.sym is not None:
            return loops.PTup(list.__iter__(x), sym=x.sym)
        if is_symiter(x):
            raise Unsupported("tuple of a symbolic sequence")
        return tuple(x)


def len_(x):
    f = getattr(x, "length", None)
    if f is not None and not isinstance(x, (str, list, tuple, dict)) or isinstance(x, PList):
        return x.length()
    return len(x)


def range_(*a):
    return mkrange(*a)


def _maxmin(a, lt, k):
    if k or not any(isinstance(x, (SymNum, SymBool)) for x in a):
        return None
    r = a[0]
    for x in a[1:]:
        r = arr.ite(mk(lt(r, x)), x, r)
    return r


def max_(*a, **k):
    if len(a) == 1 and not is_symiter(a[0]):
        a = tuple(a[0])
        if len(a) == 0 and "default" in k:
            return k["default"]
    elif len(a) == 1:
        raise Unsupported("max over a symbolic sequence")
    r = _maxmin(a, lambda r, x: sym._num(r) < sym._num(x) if not (isinstance(r, int) and isinstance(x, int)) else z3.BoolVal(r < x), k)
    return r if r is not None else max(*a, **k) if len(a) > 1 else a[0]


def min_(*a, **k):
    if len(a) == 1 and not is_symiter(a[0]):
        a = tuple(a[0])
        if len(a) == 0 and "default" in k:
            return k["default"]
    elif len(a) == 1:
        raise Unsupported("min over a symbolic sequence")
    r = _maxmin(a, lambda r, x: sym._num(x) < sym._num(r) if not (isinstance(r, int) and isinstance(x, int)) else z3.BoolVal(x < r), k)
    return r if r is not None else min(*a, **k) if len(a) > 1 else a[0]


def _minlen(ns):
    r = ns[0]
    for x in ns[1:]:
        if core.CTX is not None and arr.deq(r, x):
            continue
        r = min_(r, x)
    return r


def zip_(*its, **k):
    its = [t if not hasattr(t, "__next__") else list(t) for t in its]
    if not any(is_symiter(t) for t in its):
        return zip(*its)
    seqs = [t if hasattr(t, "at") else PList(t) for t in its]
    return SymSeq(_minlen([len_(t) for t in seqs]), lambda i: tuple(t.at(i) for t in seqs))


def enumerate_(it, start=0):
    if not is_symiter(it):
        return enumerate(it, start)
    return SymSeq(it.length(), lambda i: (i + start, it.at(i)))


def map_(f, *its):
    if not any(is_symiter(t) for t in its):
        return map(f, *its)
    z = zip_(*its)
    return SymSeq(z.n, lambda i: f(*z.at(i)))


def sum_(it, start=0):
    if isinstance(it, SArr) and it.ndim == 1 and it.dtype == "bool":
        return start + arr.selection(it).cnt
    if is_symiter(it):
        h = ctx().data.get("pysum")
        if h:
            return h(it)
        raise Unsupported("sum over a symbolic sequence")
    r = start
    for x in it:
        r = r + x
    return r


def filter_(f, it):
    if is_symiter(it):
        if not hasattr(it, "_pv_filter"):
            raise Unsupported("filter over a symbolic sequence")
        return it._pv_filter(f if f is not None else (lambda x: x))
    return filter(f, it)


def any_(it):
    if is_symiter(it):
        raise Unsupported("any over a symbolic sequence")
    for x in it:
        if x:
            return True
    return False


def all_(it):
    if is_symiter(it):
        raise Unsupported("all over a symbolic sequence")
    for x in it:
        if not x:
            return False
    return True


def reversed_(it):
    if isinstance(it, SymRange):
        a, b = it.a, it.b
        if it.step == 1:
            return SymRange(b - 1, a - 1, -1, it.par)
        return SymRange(b + 1, a + 1, 1, it.par)
    if is_symiter(it):
        n = it.length()
        return SymSeq(n, lambda i: it.at(n - 1 - i))
    return reversed(it)


def abs_(x):
    return abs(x)


def print_(*a, **k):
    return None


def round_(x, *a):
    if isinstance(x, (SymNum, SArr)):
        raise Unsupported("rounding a symbolic value")
    return round(x, *a)


BUILTINS = dict(vars(builtins))
BUILTINS.update(int=int_, float=float_, bool=bool_, str=str_, list=list_, tuple=tuple_, len=len_, range=range_,
                max=max_, min=min_, zip=zip_, enumerate=enumerate_, map=map_, sum=sum_, any=any_, all=all_,
                reversed=reversed_, filter=filter_, print=print_, round=round_)


# ------------------------------------------------------------------ imports
class Missing:
    """an attribute of an unmodelled library: using it leaves the supported subset"""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __call__(self, *a, **k):
        # decorators applied to functions are the identity
        raise Unsupported("call of unmodelled %s" % self._name)

    def __getattr__(self, n):
        if n.startswith(("__", "_pv")):
            raise AttributeError(n)
        return Missing(self._name + "." + n)

    def __repr__(self):
        return "<unmodelled %s>" % self._name


class StubModule(types.ModuleType):
    def __init__(self, name, **k):
        super().__init__(name)
        self.__dict__.update(k)
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n.startswith(("__", "_pv")):
            raise AttributeError(n)
        return Missing(self.__name__ + "." + n)


def _njit(*a, **k):
    if a and callable(a[0]) and not isinstance(a[0], Missing):
        return a[0]
    return lambda f: f


class Program:
    """the package as loaded for one proof unit; contract stubs override names in its modules"""

    PURE = {"sys", "math", "decimal", "itertools", "functools", "collections", "copy", "re", "string", "operator",
            "numbers", "warnings", "contextlib", "typing", "fractions", "datetime", "types", "__future__", "abc", "sympy", "ast", "io", "tokenize", "keyword"}

    def __init__(self, shims=None, repo=None):
        from . import npshim
        self.repo = repo or REPO
        self.mods = {}
        self.rt = RT()
        self.shims = npshim.default_shims(self)
        numba = StubModule("numba", njit=_njit, jit=_njit, prange=lambda *a: mkrange(*a, par=True))
        numba.vectorize = lambda *a, **k: (lambda f: f)
        self.shims["numba"] = numba
        self.shims.update(shims or {})
        self.overrides = {}

    def path(self, name):
        return os.path.join(self.repo, PKG, name + ".py")

    def source(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType(PKG + "." + name)
        self.mods[name] = m
        m.__dict__["__builtins__"] = dict(BUILTINS, __import__=self.importer(name))
        m.__dict__["__pv__"] = self.rt
        m.__dict__["__file__"] = self.path(name)
        m.__dict__["__package__"] = PKG
        code = _compiled(self.path(name), name)
        exec(code, m.__dict__)
        return m

    def override(self, mod, fn, stub):
        """replace a callee by its contract in every module that sees it under that name"""
        for m in self.mods.values():
            cur = m.__dict__.get(fn)
            if cur is not None and getattr(cur, "__module__", None) in (PKG + "." + mod, None) or (
                    m.__name__ == PKG + "." + mod and fn in m.__dict__):
                m.__dict__[fn] = stub

    def importer(self, me):
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level or name == PKG or name.startswith(PKG + "."):
                base = name if level else name[len(PKG) + 1:]
                if base and os.path.exists(self.path(base)):
                    return self.load(base)
                # from . import x  /  from pydsge import x
                ns = StubModule(PKG)
                for f in fromlist or ():
                    if os.path.exists(self.path(f)):
                        ns.__dict__[f] = self.load(f)
                return ns
            if name in self.shims:
                return self._sub(name, fromlist)
            top = name.split(".")[0]
            if top in self.shims:
                return self._sub(name, fromlist)
            if top in self.PURE:
                return __import__(name, globals, locals, fromlist, 0)
            return StubModule(name if fromlist else top)
        return imp

    def _sub(self, name, fromlist):
        if fromlist or "." not in name:
            if name in self.shims:
                return self.shims[name]
            m = self.shims[name.split(".")[0]]
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        return self.shims[name.split(".")[0]]


_CODE = {}


def _compiled(path, name):
    with open(path) as f:
        src = f.read()
    k = (path, src)
    if k not in _CODE:
        tree = ast.parse(src, path)
        tree = Instrument(name).visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[k] = compile(tree, path, "exec")
    return _CODE[k]


class Obj:
    """a model object given by the contract"""

    def __init__(self, **k):
        self.__dict__.update(k)
        self.__dict__["_serial"] = arr.tick()

    def _pv_fields(self):
        return {k: v for k, v in self.__dict__.items() if not k.startswith("_")}

    def __setattr__(self, k, v):
        if core.CTX is not None:
            for s in core.CTX.mutated:
                s.add(self)
        self.__dict__[k] = v
