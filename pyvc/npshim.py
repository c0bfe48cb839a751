"""numpy / scipy / pandas / ... as seen by the verifier (contracts on dependencies; all assumed)"""
import numpy as _np
import z3
from . import arr, core, nc, sym
from .arr import SArr, Block, Elem, Log, Uninit
from .core import Unsupported, ctx
from .sym import SymBool, SymInt, SymNum, SymReal, SymStr, conc, mk, tobool, zint, zreal


def _sym(*xs):
    for x in xs:
        if isinstance(x, (SArr, SymNum, SymBool, SymStr)):
            return True
        if isinstance(x, (tuple, list)):
            from .loops import PList
            if isinstance(x, PList) and x.sym is not None:
                return True
            if _sym(*list.__iter__(x) if isinstance(x, list) else x):
                return True
    return False


def shape_(s):
    return tuple(s) if isinstance(s, (tuple, list)) else (s,)


def zeros(shape, dtype=None, **k):
    return arr.zeros(shape_(shape))


def empty(shape, dtype=None, **k):
    return arr.empty(shape_(shape))


def ones(shape, dtype=None, **k):
    s = shape_(shape)
    return arr.full(s, mk(z3.RealVal(1)))


def full(shape, v, dtype=None, **k):
    return arr.full(shape_(shape), v)


def zeros_like(a, dtype=None):
    if isinstance(a, list) and getattr(a, "sym", None) is None and not any(isinstance(x, SArr) for x in a):
        return _np.zeros(len(a), dtype=bool if dtype is not None and getattr(dtype, "_py", dtype) is bool else float)
    return arr.zeros(a.shape)


def empty_like(a, dtype=None):
    return arr.empty(a.shape)


def eye(n, *a, **k):
    return arr.eye(n)


def asarr(x):
    from .loops import PList
    if isinstance(x, SArr):
        return x
    if isinstance(x, PList) and x.sym is not None:
        n = x.length()
        probe = {}
        cells = PList(list.__iter__(x), sym=x.sym)

        def shp():
            i = SymInt(z3.Int(ctx().fresh("px")))
            ctx().assume(z3.And(i._z >= 0, i._z < zint(n)))
            v = cells.at(i)
            return v.shape if isinstance(v, SArr) else ()
        shapes = ctx().forall_paths(shp)
        if not shapes:
            raise Unsupported("array of an empty symbolic list")
        for s in shapes[1:]:
            if len(s) != len(shapes[0]) or not all(arr.deq(p, q) for p, q in zip(s, shapes[0])):
                raise ValueError("inhomogeneous list")
        cs = shapes[0]
        if not cs:
            return SArr((n,), Elem(lambda i: cells.at(i)))
        r = SArr((n,) + tuple(cs), Log(1, arr.FamBase(lambda i: cells.at(i))))
        return r
    if isinstance(x, (list, tuple)):
        xs = [asarr(v) if isinstance(v, (list, tuple)) else v for v in x]
        if all(isinstance(v, SArr) for v in xs) and xs:
            cells = list(xs)
            s0 = cells[0].shape
            for c in cells[1:]:
                if len(c.shape) != len(s0) or not all(arr.deq(p, q) for p, q in zip(c.shape, s0)):
                    raise ValueError("inhomogeneous list")
            P = PList(cells)
            return SArr((len(cells),) + tuple(s0), Log(1, arr.FamBase(lambda i: P.at(i))))
        if all(arr.is_scalar(v) for v in xs):
            P = PList(xs)
            return SArr((len(xs),), Elem(lambda i: P.at(i)))
    raise Unsupported("np.array of %r" % (type(x),))


def array(x, *a, **k):
    if isinstance(x, SArr):
        return x.copy()
    if _is_df(x):
        return x.values.copy()
    if not _sym(x):
        try:
            return asarr(x)
        except Unsupported:
            return _np.array(x, *a, **k)
    return asarr(x)


def asarray(x, *a, **k):
    return x if isinstance(x, SArr) else array(x)


def _is_df(x):
    return hasattr(x, "_pv_df")


def ascontiguousarray(x):
    return x


def hstack(xs):
    return arr.hstack([_one_d(x) for x in xs])


def _one_d(x):
    if isinstance(x, SArr):
        return x
    if arr.is_scalar(x):
        return SArr((1,), Elem(lambda i: x))
    return asarr(x)


def vstack(xs):
    if isinstance(xs, SArr):
        raise Unsupported("vstack of array")
    return arr.vstack([_one_d(x) for x in xs])


def concatenate(xs, axis=0):
    xs = [_one_d(x) for x in xs]
    if all(isinstance(x.c, Block) for x in xs):
        return arr.concat(xs, axis)
    return arr.econcat(xs, axis)


def stack(xs, axis=0):
    if axis != 0:
        raise Unsupported("stack axis")
    return asarr(tuple(xs))


def tile(x, reps):
    x = asarr(x)
    if not isinstance(x, SArr):
        return _np.tile(x, reps)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    x = SArr(x.shape, x.c, dtype=x.dtype).copy()
    n = max(len(reps), x.ndim)
    reps = (1,) * (n - len(reps)) + reps
    pad = n - x.ndim
    dims = (1,) * pad + tuple(x.shape)

    def el(*i):
        # the index within the repeated array; no division where it is repeated once
        j = [0 if arr.deq(d, 1) else q if arr.deq(r, 1) else arr.idivmod(q, d)[1] for q, d, r in zip(i, dims, reps)]
        return x.elem(*j[pad:])
    return SArr(tuple(d if arr.deq(r, 1) else r if arr.deq(d, 1) else d * r for d, r in zip(dims, reps)), Elem(el), dtype=x.dtype)


def ndim(x):
    if isinstance(x, SArr):
        return x.ndim
    if arr.is_scalar(x) or isinstance(x, (str, type(None))):
        return 0
    if isinstance(x, (list, tuple)):
        return asarr(x).ndim if x else 1
    if _is_df(x):
        return x.values.ndim
    return _np.ndim(x)


def shape(x):
    return x.shape if isinstance(x, SArr) else _np.shape(x)


def _elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, SArr):
            y = SArr(x.shape, x.c.copy() if isinstance(x.c, Log) else x.c)
            return SArr(x.shape, Elem(lambda *i: f(y.elem(*i), *a)))
        return f(x, *a)
    return g


abs_ = _elementwise(lambda v: abs(v))


def isnan(x):
    h = ctx().data.get("isnan")
    if h is not None:
        return h(x)
    if isinstance(x, SArr):
        return SArr(x.shape, Elem(lambda *i: False), dtype="bool")
    if isinstance(x, SymNum):
        return False
    return bool(_np.isnan(x))


def isfinite(x):
    h = ctx().data.get("isfinite")
    if h is not None:
        return h(x)
    if isinstance(x, (SArr,)):
        return SArr(x.shape, Elem(lambda *i: True), dtype="bool")
    if isinstance(x, SymNum):
        return True
    return bool(_np.isfinite(x))


def isinf(x):
    if isinstance(x, SymNum):
        return False
    return bool(_np.isinf(x))


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one argument")
    if not isinstance(c, SArr):
        return arr.ite(c, a, b)
    C = SArr(c.shape, c.c)
    A = SArr(a.shape, a.c) if isinstance(a, SArr) else a
    B = SArr(b.shape, b.c) if isinstance(b, SArr) else b
    sh = C.shape
    for x in (A, B):
        if isinstance(x, SArr):
            sh = arr.bshape(sh, x.shape)

    def get(X, idx):
        if not isinstance(X, SArr):
            return X
        return X.elem(*idx[len(idx) - X.ndim:])
    return SArr(sh, Elem(lambda *i: arr.ite(get(C, i), get(A, i), get(B, i))))


def maximum(a, b):
    return where(a < b, b, a)


def minimum(a, b):
    return where(b < a, b, a)


def multiply(a, b):
    return a * b


def add(a, b):
    return a + b


def subtract(a, b):
    return a - b


def _exists(a, f):
    """quantified elementwise test over a symbolic array"""
    n = a.ndim
    xs = [z3.Int(ctx().fresh("q")) for _ in range(n)]
    rng = z3.And(*[z3.And(x >= 0, x < zint(d)) for x, d in zip(xs, a.shape)]) if n else z3.BoolVal(True)
    return xs, rng, f(a.elem(*[SymInt(x) for x in xs]))


def _truth(v):
    t = tobool(v)
    if t is None:
        raise Unsupported("truth of %r" % (v,))
    return t


def any_(x, axis=None):
    if axis is not None:
        raise Unsupported("any over an axis")
    if hasattr(x, "_pv_any"):
        return x._pv_any()
    if isinstance(x, (SymBool, SymNum)):
        return mk(tobool(x))
    if isinstance(x, SArr):
        if all(isinstance(conc(d), int) for d in x.shape) and x.ndim == 1:
            bs = [tobool(x.elem(i)) for i in range(conc(x.shape[0]))]
            return mk(z3.Or(*bs)) if bs else False
        h = ctx().data.get("any_hook")
        if h is not None:
            r = h(x)
            if r is not None:
                return r
        if x.ndim == 1 and x.dtype == "bool" and ctx().data.get("masks"):
            return arr.selection(x).cnt > 0
        xs, rng, b = _exists(x, _truth)
        return mk(z3.Exists(xs, z3.And(rng, b)))
    if isinstance(x, list) and getattr(x, "sym", None) is not None:
        h = ctx().data.get("any_list")
        if h is not None:
            return h(x)
        raise Unsupported("any over a symbolic list")
    if isinstance(x, (list, tuple)):
        return mk(z3.Or(*[tobool(any_(v)) if not isinstance(v, (str, type(None))) else z3.BoolVal(bool(v)) for v in x])) if len(x) else False
    if x is None or isinstance(x, str):
        return bool(x)
    return bool(_np.any(x))


def all_(x, axis=None):
    if axis is not None:
        raise Unsupported("all over an axis")
    if hasattr(x, "_pv_any"):
        raise Unsupported("all of %r" % (type(x),))
    if isinstance(x, (SymBool, SymNum)):
        return mk(tobool(x))
    if isinstance(x, SArr):
        if all(isinstance(conc(d), int) for d in x.shape) and x.ndim == 1:
            bs = [tobool(x.elem(i)) for i in range(conc(x.shape[0]))]
            return mk(z3.And(*bs)) if bs else True
        xs, rng, b = _exists(x, _truth)
        return mk(z3.ForAll(xs, z3.Implies(rng, b)))
    if isinstance(x, (list, tuple)):
        return mk(z3.And(*[tobool(all_(v)) for v in x])) if len(x) else True
    return bool(_np.all(x))


def _shapes(a, b):
    a, b = (x if isinstance(x, SArr) or not isinstance(x, (list, tuple)) else asarray(x) for x in (a, b))
    if isinstance(a, SArr) and isinstance(b, SArr) and (a.ndim != b.ndim or not all(arr.deq(x, y) for x, y in zip(a.shape, b.shape))):
        raise Unsupported("comparison of arrays whose shapes may differ")
    return a, b


def array_equal(a, b):
    if not isinstance(a, (SArr, SymNum)) and not isinstance(b, (SArr, SymNum)):
        if a is b:
            return True
        return bool(_np.array_equal(a, b))
    a, b = _shapes(a, b)
    if arr.arr_equal(a, b):
        return True
    return all_(a == b)


def isclose(a, b, rtol=1e-5, atol=1e-8):
    if not isinstance(a, (SArr, SymNum)) and not isinstance(b, (SArr, SymNum)):
        return _np.isclose(a, b, rtol, atol)
    a, b = _shapes(a, b)
    return abs_(a - b) <= abs_(b) * rtol + atol


def allclose(a, b, rtol=1e-5, atol=1e-8):
    if not isinstance(a, (SArr, SymNum)) and not isinstance(b, (SArr, SymNum)):
        return bool(_np.allclose(a, b, rtol, atol))
    return all_(isclose(a, b, rtol, atol))


def diagonal(a, offset=0, axis1=0, axis2=1):
    A = SArr(a.shape, a.c.copy() if isinstance(a.c, Log) else a.c)
    if a.ndim == 2 and axis1 == 0 and axis2 == 1:
        return SArr((a.shape[0],), Elem(lambda i: A.elem(i, i)))
    if a.ndim == 3 and axis1 == 1 and axis2 == 2:
        return SArr((a.shape[0], a.shape[1]), Elem(lambda t, i: A.elem(t, i, i)))
    raise Unsupported("diagonal")


def diag(v):
    if v.ndim == 1:
        V = SArr(v.shape, v.c)
        nm = ctx().fresh("diag")
        h = ctx().data.get("diag")
        if h is not None:
            return h(v)
        return SArr((v.shape[0], v.shape[0]), Elem(lambda i, j: arr.ite(mk(zint(i) == zint(j)), V.elem(i), mk(z3.RealVal(0)))))
    if v.ndim == 2:
        return diagonal(v)
    raise Unsupported("diag")


def sqrt(x):
    h = ctx().data.get("sqrt")
    if h is not None:
        return h(x)

    def f(v):
        s = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
        z = zreal(v)
        ctx().assume(z3.Implies(z >= 0, z3.And(s(z) >= 0, s(z) * s(z) == z)))
        return mk(s(z))
    return _elementwise(f)(x)


def sum_(x, axis=None, **k):
    return arr.asum(x, axis)


def mean(x, axis=None, **k):
    if not _sym(x):
        return _np.mean(x, axis, **k)
    return x.mean(axis)


def round_(x, *a, **k):
    if _sym(x):
        d = a[0] if a else k.get("decimals", 0)
        R = z3.Function("ROUND", z3.RealSort(), z3.IntSort(), z3.RealSort())
        return _elementwise(lambda v: mk(R(zreal(v), zint(d))))(asarr(x) if isinstance(x, (list, tuple)) else x)
    return _np.round(x, *a, **k)


def dot(a, b):
    return arr.matmul(a, b)


def transpose(a):
    return a.T


def copy(a):
    return a.copy()


def _ceil1(v):
    """smallest integer that is not below v (as a float); for a quotient a/b of integers also in terms of b*result"""
    if not isinstance(v, SymNum):
        return _np.ceil(v)
    if isinstance(v, SymInt):
        return mk(zreal(v))
    x = v._z
    c = z3.Int(ctx().fresh("ceil"))
    ctx().assume(z3.And(z3.ToReal(c) >= x, z3.ToReal(c) < x + 1))
    a, b = _int_quotient(x)
    if b is not None and ctx().entails(b > 0):
        ctx().assume(z3.And(c * b >= a, c * b - b < a))
    return SymReal(z3.ToReal(c))


def _int_quotient(x):
    if z3.is_app_of(x, z3.Z3_OP_DIV) and z3.is_to_real(x.arg(0)) and z3.is_to_real(x.arg(1)):
        return x.arg(0).arg(0), x.arg(1).arg(0)
    return None, None


ceil = _elementwise(_ceil1)
floor = _elementwise(lambda v: -_ceil1(-v))


def arange(a, b=None, step=None, **k):
    if step is not None and conc(step) != 1:
        raise Unsupported("arange with a step")
    lo, hi = (0, a) if b is None else (a, b)
    n = hi - lo
    if not (isinstance(n, int) and n >= 0) and not ctx().branch(zint(n) >= 0):
        n = 0
    return SArr((n,), Elem(lambda i: i if isinstance(lo, int) and lo == 0 else lo + i), dtype="int")


def reshape(a, *shape, **k):
    return (a if isinstance(a, SArr) else asarr(a)).reshape(*shape)


def argmax(a, axis=None):
    return a.argmax(axis)


def maxval(a, axis=None):
    if not isinstance(a, SArr):
        raise Unsupported("np.max of %r" % (type(a),))
    return a.max(axis)


def unravel_index(q, shape):
    out = []
    for d in reversed(shape[1:]):
        q, r = arr.idivmod(q, d)
        out.insert(0, r)
    return (q,) + tuple(out)


def pad(a, width, mode="constant", **k):
    if mode != "constant" or k.get("constant_values", 0) != 0:
        raise Unsupported("padding")
    a = a if isinstance(a, SArr) else asarr(a)
    if a.ndim == 1 and not isinstance(width[0], (tuple, list)):
        width = (width,)
    if not all(isinstance(w, (tuple, list)) for w in width):
        width = (tuple(width),) * a.ndim
    me = SArr(a.shape, a.c.copy() if isinstance(a.c, Log) else a.c)

    def at(*idx):
        sub = []
        for i, (lo, hi), n in zip(idx, width, me.shape):
            if conc(lo) != 0:
                if ctx().branch(zint(i) < zint(lo)):
                    return mk(z3.RealVal(0))
                i = i - lo
            if conc(hi) != 0 and not ctx().branch(zint(i) < zint(n)):
                return mk(z3.RealVal(0))
            sub.append(i)
        return me.elem(*sub)
    return SArr(tuple(lo + n + hi for n, (lo, hi) in zip(me.shape, width)), Elem(at))


def block(rows):
    rows = [list(r) if isinstance(r, (list, tuple)) else [r] for r in rows]
    return vstack([hstack(r) if len(r) > 1 else r[0] for r in rows])


def block_diag(*ms):
    if len(ms) != 2:
        raise Unsupported("block_diag")
    a, b = (SArr(m.shape, m.c.copy() if isinstance(m.c, Log) else m.c) for m in ms)

    def at(i, j):
        ri, cj = ctx().branch(zint(i) < zint(a.shape[0])), ctx().branch(zint(j) < zint(a.shape[1]))
        if ri and cj:
            return a.elem(i, j)
        if not ri and not cj:
            return b.elem(i - a.shape[0], j - a.shape[1])
        return mk(z3.RealVal(0))
    return SArr((a.shape[0] + b.shape[0], a.shape[1] + b.shape[1]), Elem(at))


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, _np.ndarray))


class ndarray(metaclass=_NdMeta):
    pass


def cond(a):
    return SymReal(z3.Real(ctx().fresh("cond")))


class LinAlgError(Exception):
    pass


def default_shims(prog):
    from .loader import StubModule, Missing
    nl = StubModule("numpy.linalg", inv=arr.inv, cond=cond, LinAlgError=LinAlgError)
    np = StubModule(
        "numpy", zeros=zeros, empty=empty, ones=ones, full=full, eye=eye, identity=eye, array=array, asarray=asarray,
        ascontiguousarray=ascontiguousarray, hstack=hstack, vstack=vstack, concatenate=concatenate, stack=stack,
        ndim=ndim, tile=tile, shape=shape, abs=abs_, isnan=isnan, isfinite=isfinite, isinf=isinf, where=where, maximum=maximum, minimum=minimum, multiply=multiply,
        add=add, subtract=subtract, any=any_, all=all_, array_equal=array_equal, isclose=isclose, allclose=allclose, diagonal=diagonal, diag=diag, sqrt=sqrt, sum=sum_, mean=mean, round=round_,
        dot=dot, matmul=arr.matmul, transpose=transpose, copy=copy, zeros_like=zeros_like, empty_like=empty_like, ceil=ceil, floor=floor, arange=arange, reshape=reshape, argmax=argmax,
        max=maxval, amax=maxval, unravel_index=unravel_index, pad=pad, block=block, ravel=lambda a: a.flatten(), repeat=lambda a, n, axis=None: a.repeat(n, axis),
        ndarray=ndarray, linalg=nl, inf=float("inf"), nan=float("nan"), pi=_np.pi, newaxis=None,
        float64=float, int64=int, bool_=bool)
    s = {"numpy": np, "numpy.linalg": nl}
    import time
    s["time"] = StubModule("time", time=lambda: 0.0)
    s["os"] = StubModule("os", path=StubModule("os.path"))
    return s
