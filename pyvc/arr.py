"""symbolic numpy arrays"""
from fractions import Fraction
import z3
from . import nc
from .nc import Poly
from . import core
from .core import ctx, Unsupported
from .sym import (SymBool, SymInt, SymReal, SymNum, SymStr, mk, zint, zreal, tobool, _num, conc, is_sym)

ANY = "*"
_TICK = [0]


def tick():
    _TICK[0] += 1
    return _TICK[0]


def _log_access(kind, o, key):
    c = core.CTX
    if c is None or c.par_log is None:
        return
    pat = tuple(ANY if isinstance(k, (slice, SArr, list)) or k is None else k for k in key)
    c.par_log.append((kind, o, pat))


# ------------------------------------------------------------------ dimensions
def deq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().entails(zint(a) == zint(b))


def dle(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return ctx().entails(zint(a) <= zint(b))


def dsum(ds):
    s = 0
    for d in ds:
        s = s + d
    return s


def bounds(sl, n):
    """numpy slice semantics on an axis of length n (symbolic)"""
    if sl.step is not None and conc(sl.step) != 1:
        raise Unsupported("strided slice")

    def fix(v, dflt):
        if v is None:
            return dflt
        if not isinstance(v, int):
            c = conc(v)
            v = c if c is not None else v
        if v < 0:
            v = n + v
            if v < 0:
                v = 0
        elif v > n:
            v = n
        return v
    a, b = fix(sl.start, 0), fix(sl.stop, n)
    if b < a:
        b = a
    return a, b


# ------------------------------------------------------------------ contents
class Block:
    """1-D / 2-D array as a grid of matrix polynomials"""

    def __init__(self, rows, cols, b):
        self.rows, self.cols, self.b = list(rows), list(cols), b

    @staticmethod
    def single(r, c, poly):
        return Block([r], [c], {(0, 0): poly})

    @staticmethod
    def zero(r, c):
        return Block([r], [c], {(0, 0): Poly()})

    def copy(self):
        return Block(self.rows, self.cols, dict(self.b))

    def T(self):
        return Block(self.cols, self.rows, {(j, i): p.T() for (i, j), p in self.b.items()})

    # splitting
    def _split(self, axis, k, off):
        """split part k of axis (0 rows / 1 cols) at offset off; in place"""
        if axis == 1:
            t = self.T()
            t._split(0, k, off)
            t = t.T()
            self.rows, self.cols, self.b = t.rows, t.cols, t.b
            return
        h = self.rows[k]
        ident = []
        nb = {}
        for (i, j), p in self.b.items():
            if i < k:
                nb[i, j] = p
            elif i > k:
                nb[i + 1, j] = p
            else:
                q = dict(p.t)
                if () in q:
                    if not deq(h, self.cols[j]):
                        raise Unsupported("identity in non-square block")
                    ident.append((j, q.pop(())))
                nb[k, j] = slice_rows(Poly(q), 0, off)
                nb[k + 1, j] = slice_rows(Poly(q), off, h)
        self.rows[k:k + 1] = [off, h - off]
        self.b = nb
        for j, c in ident:
            self._split(1, j, off)
            self.b[k, j] = self.b[k, j].add(Poly({(): c}))
            self.b[k + 1, j + 1] = self.b[k + 1, j + 1].add(Poly({(): c}))
            if len(ident) > 1:
                raise Unsupported("two identities in a row")

    def cut(self, axis, pos):
        """make pos a boundary; returns the number of parts before it"""
        for _ in range(3):
            parts = self.rows if axis == 0 else self.cols
            cum = 0
            for k in range(len(parts) + 1):
                if deq(cum, pos):
                    return k
                if k < len(parts):
                    cum = cum + parts[k]
            cum = 0
            for k in range(len(parts)):
                nxt = cum + parts[k]
                if dle(cum, pos) and dle(pos, nxt):
                    self._split(axis, k, pos - cum)
                    return k + 1
                cum = nxt
            raise Unsupported("cannot place boundary %s in %s" % (pos, parts))

    def sub(self, axis, a, b):
        r = self.copy()
        if deq(a, b):
            return Block.zero(0, dsum(r.cols)) if axis == 0 else Block.zero(dsum(r.rows), 0)
        i = r.cut(axis, a)
        j = r.cut(axis, b)
        i = r.cut(axis, a)
        parts = (r.rows if axis == 0 else r.cols)[i:j]
        if axis == 0:
            return Block(parts, r.cols, {(x - i, y): p for (x, y), p in r.b.items() if i <= x < j})
        return Block(r.rows, parts, {(x, y - i): p for (x, y), p in r.b.items() if i <= y < j})

    def put(self, a0, b0, a1, b1, v):
        """self[a0:b0, a1:b1] = v, returns new Block"""
        r, v = self.copy(), v.copy()
        for axis, a in ((0, a0), (1, a1)):
            parts = list(v.rows if axis == 0 else v.cols)
            cum = a
            r.cut(axis, a)
            for d in parts:
                cum = cum + d
                r.cut(axis, cum)
        # v may have to follow r's finer partition
        for axis, a, b in ((0, a0, b0), (1, a1, b1)):
            i, j = r.cut(axis, a), r.cut(axis, b)
            parts = list((r.rows if axis == 0 else r.cols)[i:j])
            cum = 0
            for d in parts:
                cum = cum + d
                v.cut(axis, cum)
        i0, i1 = r.cut(0, a0), r.cut(1, a1)
        for (x, y), p in v.b.items():
            r.b[i0 + x, i1 + y] = p
        return r


def slice_rows(p, a, b):
    out = Poly()
    for m, c in p.t.items():
        f = m[0]
        lo = 0 if f[4] is None else nc.iterm(f[4][0])
        lo = mk(lo) if not isinstance(lo, int) else lo
        rng = (nc.ikey(zint(lo + a)), nc.ikey(zint(lo + b)))
        out = out.add(Poly({((f[0], f[1], f[2], f[3], rng, f[5]),) + m[1:]: c}))
    return out


def align(a, b, axa, axb):
    """refine a (axis axa) and b (axis axb) to a common partition; in place"""
    for x, axx, y, axy in ((a, axa, b, axb), (b, axb, a, axa)):
        cum = 0
        for d in list(x.rows if axx == 0 else x.cols)[:-1]:
            cum = cum + d
            y.cut(axy, cum)


def bmatmul(a, b):
    a, b = a.copy(), b.copy()
    if not deq(dsum(a.cols), dsum(b.rows)):
        raise ValueError("matmul: dimension mismatch %s vs %s" % (dsum(a.cols), dsum(b.rows)))
    align(a, b, 1, 0)
    if len(a.cols) != len(b.rows):
        align(a, b, 1, 0)
    out = {}
    for i in range(len(a.rows)):
        for j in range(len(b.cols)):
            p = Poly()
            for k in range(len(a.cols)):
                p = p.add(a.b[i, k].mul(b.b[k, j]))
            out[i, j] = nc.reduce(p)
    return Block(a.rows, b.cols, out)


def badd(a, b, s=Fraction(1)):
    a, b = a.copy(), b.copy()
    for ax in (0, 1):
        if not deq(dsum(a.rows if ax == 0 else a.cols), dsum(b.rows if ax == 0 else b.cols)):
            raise ValueError("operands could not be broadcast together")
        align(a, b, ax, ax)
    return Block(a.rows, a.cols, {k: p.add(b.b[k], s) for k, p in a.b.items()})


class Elem:
    """elementwise array: fn(*idx z3/py ints) -> scalar proxy"""

    def __init__(self, fn):
        self.fn = fn


class Log:
    """n-d array read and written by integer index on its first m axes"""

    def __init__(self, m, base, writes=()):
        self.m, self.base, self.writes = m, base, list(writes)

    def copy(self):
        return Log(self.m, self.base, self.writes)


class Uninit:
    """np.empty: contents arbitrary"""


class FamBase:
    """base of a Log: a family of cells given by a function idx -> value"""

    def __init__(self, fn):
        self.fn = fn

    def read(self, arr, idx):
        return self.fn(*idx)


class UninitBase:
    """cells were never written: reading one is an error the contract can ask about"""

    def __init__(self, name):
        self.name = name

    def read(self, arr, idx):
        shape = arr.shape[len(idx):]
        return atom_value("uninit:" + self.name, idx, shape)


class ZeroBase:
    def read(self, arr, idx):
        shape = arr.shape[len(idx):]
        return zeros(shape) if shape else mk(z3.RealVal(0))


def atom_value(name, idx, shape):
    """the cell of a named family"""
    if not shape:
        args = [zint(i) for i in idx]
        if not args:
            return SymReal(z3.Real(name))
        return SymReal(z3.Function(name, *([z3.IntSort()] * len(args) + [z3.RealSort()]))(*args))
    if len(shape) > 2:
        raise Unsupported("cell of more than two axes")
    f = nc.atom(name, idx)
    if len(shape) == 1:
        return SArr(shape, Block.single(shape[0], 1, Poly.of(f)))
    return SArr(shape, Block.single(shape[0], shape[1], Poly.of(f)))


# ------------------------------------------------------------------ scalars of the matrix domain
def atom_index(v, name):
    """index tuple of the single family member `name` a (part of a) vector or matrix consists of, or None"""
    if not isinstance(v, SArr) or not isinstance(v.c, Block):
        return None
    found = None
    for p in v.c.b.values():
        for m in p.t:
            for f in m:
                if f[0] == "A" and f[1] == name:
                    i = tuple(mk(nc.iterm(k)) for k in f[2])
                    if found is not None and not all(deq(a, b) for a, b in zip(found, i)):
                        return None
                    found = i
    return found


def mono_real(m):
    """value of a 1x1 monomial as a z3 real"""
    # inner products of unit vectors
    scal = []
    facs = list(m)
    segs = []
    i = 0
    while i < len(facs):
        f = facs[i]
        if (f[0] == "A" and f[1] == "e" and f[3] and i + 1 < len(facs)
                and facs[i + 1][0] == "A" and facs[i + 1][1] == "e" and not facs[i + 1][3]):
            scal.append(z3.If(nc.iterm(f[2][0]) == nc.iterm(facs[i + 1][2][0]), z3.RealVal(1), z3.RealVal(0)))
            i += 2
        else:
            segs.append(f)
            i += 1
    r = z3.RealVal(1)
    for s in scal:
        r = r * s
    if segs:
        cands = []
        for mm in (tuple(segs), nc.m_T(tuple(segs))):
            args = []
            name = _mono_name(mm, args)
            cands.append((name, args))
        name, args = min(cands, key=lambda t: t[0])
        if args:
            fn = z3.Function(name, *([z3.IntSort()] * len(args) + [z3.RealSort()]))
            r = r * fn(*args)
        else:
            r = r * z3.Real(name)
    return r


def _mono_name(m, args):
    out = []
    for f in m:
        if f[0] == "A":
            s = f[1] + "#%d" % len(f[2])
        else:
            s = "inv(" + "+".join("%s*%s" % (c, _mono_name(mm, args)) for mm, c in
                                  sorted(nc.INVS[f[1]].t.items(), key=repr)) + ")"
        args.extend(nc.iterm(i) for i in f[2])
        for r in (f[4], f[5]):
            if r:
                s += "{}"
                args.extend(nc.iterm(i) for i in r)
            else:
                s += "."
        out.append(s + ("'" if f[3] else ""))
    return "<" + "*".join(out) + ">"


def poly_real(p):
    p = nc.reduce(p)
    r = z3.RealVal(0)
    for m, c in p.t.items():
        c = z3.RealVal(c) if isinstance(c, Fraction) else c
        r = r + c * (mono_real(m) if m else z3.RealVal(1))
    return mk(z3.simplify(r))


def unit(j, n):
    return SArr((n,), Block.single(n, 1, Poly.of(nc.atom("e", (j,)))))


# ------------------------------------------------------------------ the array proxy
class SArr:
    __array_priority__ = 1000

    def __init__(self, shape, c, name=None, dtype=None):
        self.shape = tuple(shape)
        self._c = c
        self.name = name
        self._atom = None
        self.dtype = dtype
        self._serial = tick()

    # shape protocol
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    def length(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    @property
    def c(self):
        return self._c

    def _set(self, c):
        self._c = c
        self._atom = None
        for s in ctx().mutated:
            s.add(self)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "SArr%r" % (self.shape,)

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self.shape):
            return bool(self.elem(*([0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    # ---- views of the content
    def block(self):
        _log_access("r", self, [slice(None)] * self.ndim)
        c = self.c
        if isinstance(c, Block):
            return c
        if self.ndim not in (1, 2):
            raise Unsupported("matrix view of %d-d array" % self.ndim)
        if self._atom is None:
            if isinstance(c, Uninit):
                self._set(Log(self.ndim, UninitBase(ctx().fresh("empty"))))
                c = self.c
            nm = ctx().fresh("arr")
            self._atom = nm
        r = self.shape[0]
        cc = self.shape[1] if self.ndim == 2 else 1
        return Block.single(r, cc, Poly.of(nc.atom(self._atom)))

    def elem(self, *idx):
        c = self.c
        if isinstance(c, Elem):
            return c.fn(*idx)
        if isinstance(c, Block):
            return self._block_elem(c, idx)
        if isinstance(c, (Log, Uninit)):
            v = self.read_idx(idx)
            return v
        raise Unsupported("elem")

    def _block_elem(self, c, idx):
        i = idx[0]
        j = idx[1] if self.ndim == 2 else 0

        def locate(parts, x):
            cum = 0
            for k, d in enumerate(parts):
                nxt = cum + d
                if k == len(parts) - 1 or ctx().branch(zint(x) < zint(nxt)):
                    return k, (x - cum if not (isinstance(cum, int) and cum == 0) else x)
                cum = nxt
        if len(c.rows) == 1:
            bi, ri = 0, i
        else:
            bi, ri = locate(c.rows, i)
        if len(c.cols) == 1:
            bj, rj = 0, j
        else:
            bj, rj = locate(c.cols, j)
        p = c.b[bi, bj]
        left = (nc.atom("e", (zint(ri),), T=True),)
        right = () if self.ndim == 1 else (nc.atom("e", (zint(rj),)),)
        q = nc.drop_ones(Poly({left + m + right: co for m, co in p.t.items()}))
        return poly_real(q)

    # ---- reading by index
    def _log(self, m):
        c = self.c
        if isinstance(c, Log):
            return c
        if isinstance(c, Uninit):
            base = UninitBase(self.name or ctx().fresh("empty"))
            l = Log(m, base)
        elif isinstance(c, Block) and all(p.is_zero for p in c.b.values()):
            l = Log(m, ZeroBase())
        elif isinstance(c, (Elem, Block)):
            old = SArr(self.shape, c)
            l = Log(m, FamBase(lambda *idx: old._sub_ints(idx)))
        else:
            raise Unsupported("log of %r" % c)
        self._c = l
        return l

    def _sub_ints(self, idx):
        """value at integer indices of the leading axes"""
        k = len(idx)
        if k == self.ndim:
            return self.elem(*idx)
        c = self.c
        if isinstance(c, Block) and self.ndim == 2 and k == 1:
            n = self.shape[0]
            e = unit(idx[0], n)
            return SArr((self.shape[1],), bmatmul(c.T(), e.c))
        if isinstance(c, Elem):
            return SArr(self.shape[k:], Elem(lambda *r: c.fn(*(tuple(idx) + r))))
        if isinstance(c, (Log, Uninit)):
            return self.read_idx(idx)
        raise Unsupported("partial integer index")

    def read_idx(self, idx):
        idx = tuple(idx)
        l = self._log(len(idx))
        if len(idx) > l.m:
            v = self.read_idx(idx[:l.m])
            return v._sub_ints(idx[l.m:])
        if len(idx) < l.m:
            me = self
            shape = self.shape[len(idx):]
            snap = SArr(self.shape, l.copy())
            return SArr(shape, Elem(lambda *r: snap.elem(*(idx + r)))) if l.m == self.ndim else \
                SArr(shape, Log(l.m - len(idx), FamBase(lambda *r: snap.read_idx(idx + r))))
        for pat, val in reversed(l.writes):
            cond = []
            for p, i in zip(pat, idx):
                if p is ANY:
                    continue
                cond.append(zint(p) == zint(i))
            if not cond or ctx().branch(z3.And(*cond)):
                return val(idx) if callable(val) else val
        return l.base.read(self, idx)

    def _norm_index(self, k, n):
        """integer index with python wrap-around, bounds obligation left to the contract"""
        if isinstance(k, bool):
            raise Unsupported("bool index")
        c = conc(k)
        if isinstance(c, int):
            if c >= 0:
                self._bound(c, n)
                return c
            self._bound(-c - 1, n)
            return n + c
        if ctx().branch(zint(k) < 0):
            k = k + n
        self._bound(k, n)
        return k

    def _bound(self, k, n):
        b = ctx().data.get("bounds")
        if b is None:
            # out of range: numpy raises
            if not ctx().branch(z3.And(zint(k) < zint(n), zint(k) >= 0)):
                raise IndexError("index out of bounds")
        else:
            ctx().prove(z3.And(zint(k) < zint(n), zint(k) >= 0), b)

    def _expand(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n_real = sum(1 for k in key if k is not Ellipsis and k is not None)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n_real)
            else:
                out.append(k)
        while sum(1 for k in out if k is not None) < self.ndim:
            out.append(slice(None))
        if sum(1 for k in out if k is not None) > self.ndim:
            raise IndexError("too many indices for array")
        return out

    def __getitem__(self, key):
        if isinstance(key, list):
            from .npshim import asarr
            key = asarr(key)
        if isinstance(key, SArr):
            return self._fancy_get(key)
        key = self._expand(key)
        _log_access("r", self, key)
        if any(k is None for k in key):
            raise Unsupported("newaxis")
        if any(isinstance(k, (SArr, list)) for k in key):
            return self._fancy_axes(key)
        isint = [not isinstance(k, slice) for k in key]
        full = [isinstance(k, slice) and k == slice(None) for k in key]
        if all(full):
            return View(self, key)
        if all(isint):
            idx = [self._norm_index(k, n) for k, n in zip(key, self.shape)]
            return self.elem(*idx)
        return View(self, key)

    def _fancy_get(self, key):
        h = getattr(self, "fancy", None)
        if h is not None:
            return h(self, key)
        if key.dtype == "bool":
            if key.ndim != 1:
                raise Unsupported("boolean mask of more than one axis")
            return select(self, 0, key)
        # integer index array on the first axis
        me = SArr(self.shape, self.c)
        kk = SArr(key.shape, key.c)
        if self.ndim == 1:
            return SArr(key.shape, Elem(lambda *i: me.elem(kk.elem(*i))), dtype=self.dtype)
        return SArr(key.shape + self.shape[1:], Elem(lambda i, *r: me.elem(kk.elem(i), *r)), dtype=self.dtype)

    def _fancy_axes(self, key):
        h = getattr(self, "fancy_axes", None)
        if h is not None:
            return h(self, key)
        ms = [ax for ax, k in enumerate(key) if isinstance(k, SArr) and k.dtype == "bool" and k.ndim == 1]
        if len(ms) == 1 and all(isinstance(k, slice) for ax, k in enumerate(key) if ax != ms[0]):
            base = self if all(k == slice(None) for ax, k in enumerate(key) if ax != ms[0]) else \
                self[tuple(slice(None) if ax == ms[0] else k for ax, k in enumerate(key))]
            return select(base, ms[0], key[ms[0]])
        raise Unsupported("fancy indexing")

    def _materialise(self, key):
        """content of self[key] for basic index key (slices and ints, not all ints)"""
        ints = [(not isinstance(k, slice)) for k in key]
        # leading ints, then slices
        c = self.c
        if isinstance(c, Block):
            return self._block_view(c, key)
        lead = 0
        while lead < len(key) and ints[lead]:
            lead += 1
        if lead and not any(ints[lead:]):
            idx = [self._norm_index(k, n) for k, n in zip(key[:lead], self.shape)]
            v = self._sub_ints(idx)
            rest = key[lead:]
            if all(k == slice(None) for k in rest):
                return v.shape, v.c
            w = v[tuple(rest)]
            return w.shape, w.c
        # general: keep axes
        free, fixed, cell = [], {}, []
        rngs = {}
        for ax, k in enumerate(key):
            if ints[ax]:
                fixed[ax] = self._norm_index(k, self.shape[ax])
            else:
                a, b = bounds(k, self.shape[ax])
                rngs[ax] = (a, b)
                free.append(ax)
        shape = tuple(rngs[ax][1] - rngs[ax][0] for ax in free)
        snap = SArr(self.shape, c.copy() if isinstance(c, Log) else c, name=self.name)
        if isinstance(c, Uninit):
            raise Unsupported("view of uninitialised array")
        if isinstance(c, Log) and c.m < self.ndim:
            m = c.m
            tail = tuple(key[m:])
            headfree = [ax for ax in free if ax < m]

            def cell_at(*r):
                idx, it = [], iter(r)
                for ax in range(m):
                    if ax in fixed:
                        idx.append(fixed[ax])
                    else:
                        a = rngs[ax][0]
                        x = next(it)
                        idx.append(x if isinstance(a, int) and a == 0 else a + x)
                v = snap.read_idx(idx)
                if all(isinstance(k, slice) and k == slice(None) for k in tail):
                    return v
                return v[tail]
            return shape, Log(len(headfree), FamBase(cell_at))

        def at(*r):
            idx, it = [], iter(r)
            for ax in range(len(key)):
                if ax in fixed:
                    idx.append(fixed[ax])
                else:
                    a = rngs[ax][0]
                    x = next(it)
                    idx.append(x if isinstance(a, int) and a == 0 else a + x)
            return snap.elem(*idx)
        return shape, Elem(at)

    def _block_view(self, c, key):
        if self.ndim == 1:
            a, b = bounds(key[0], self.shape[0])
            return (b - a,), (c if deq(a, 0) and deq(b, self.shape[0]) else c.sub(0, a, b))
        k0, k1 = key
        if isinstance(k0, slice) and isinstance(k1, slice):
            a0, b0 = bounds(k0, self.shape[0])
            a1, b1 = bounds(k1, self.shape[1])
            r = c
            if not (deq(a0, 0) and deq(b0, self.shape[0])):
                r = r.sub(0, a0, b0)
            if not (deq(a1, 0) and deq(b1, self.shape[1])):
                r = r.sub(1, a1, b1)
            return (b0 - a0, b1 - a1), r
        if not isinstance(k0, slice):
            i = self._norm_index(k0, self.shape[0])
            v = self._sub_ints((i,))
            if k1 == slice(None):
                return v.shape, v.c
            w = v[k1]
            return w.shape, w.c
        t = SArr((self.shape[1], self.shape[0]), c.T())
        i = t._norm_index(k1, t.shape[0])
        v = t._sub_ints((i,))
        if k0 == slice(None):
            return v.shape, v.c
        w = v[k0]
        return w.shape, w.c

    # ---- writing
    def __setitem__(self, key, val):
        if isinstance(key, list):
            from .npshim import asarr
            key = asarr(key)
        if isinstance(key, SArr) and key.dtype != "bool" and self.ndim == 1 and getattr(self, "fancy_set", None) is None:
            from .npshim import asarr
            v = asarr(val) if isinstance(val, (list, tuple)) else val
            v = SArr(v.shape, v.c) if isinstance(v, SArr) else v
            h = ctx().data.get("inverse")       # position -> (is it addressed, by which entry of the index)
            inv = h(key) if h is not None else None
            if inv is None:
                raise Unsupported("assignment by a symbolic index vector")
            if isinstance(v, SArr) and not deq(v.shape[0], key.shape[0]):
                raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
            old = SArr(self.shape, self.c)

            def scattered(i):
                e, j = inv(i)
                if ctx().branch(e):
                    return v.elem(mk(j)) if isinstance(v, SArr) else v
                return old.elem(i)
            self._set(Elem(scattered))
            return
        if isinstance(key, SArr):
            _log_access("w", self, [slice(None)] * self.ndim)
            h = getattr(self, "fancy_set", None)
            if h is not None:
                return h(self, key, val)
            if key.dtype == "bool" and key.ndim == 1 and isinstance(val, SArr):
                return select_set(self, 0, key, val)
            if key.dtype == "bool" and key.ndim == self.ndim and not isinstance(val, SArr):
                old = SArr(self.shape, self.c)
                k = SArr(key.shape, key.c)
                self._set(Elem(lambda *i: ite(k.elem(*i), val.elem(*i) if isinstance(val, SArr) else val, old.elem(*i))))
                return
            raise Unsupported("fancy assignment")
        key = self._expand(key)
        _log_access("w", self, key)
        if any(isinstance(k, (SArr, list)) for k in key):
            h = getattr(self, "fancy_axes_set", None)
            if h is not None:
                return h(self, key, val)
            ms = [ax for ax, k in enumerate(key) if isinstance(k, SArr) and k.dtype == "bool" and k.ndim == 1]
            if len(ms) == 1 and all(isinstance(k, slice) and k == slice(None) for ax, k in enumerate(key) if ax != ms[0]):
                return select_set(self, ms[0], key[ms[0]], val)
            raise Unsupported("fancy assignment")
        isint = [not isinstance(k, slice) for k in key]
        c = self.c
        if isinstance(c, Block) and not any(isint):
            if self.ndim == 1:
                a, b = bounds(key[0], self.shape[0])
                v = _as_block(val, (b - a,))
                self._set(c.put(a, b, 0, 1, v))
            else:
                a0, b0 = bounds(key[0], self.shape[0])
                a1, b1 = bounds(key[1], self.shape[1])
                v = _as_block(val, (b0 - a0, b1 - a1))
                self._set(c.put(a0, b0, a1, b1, v))
            return
        if isinstance(c, Block) and self.ndim == 1 and all(isint):
            i = self._norm_index(key[0], self.shape[0])
            old = self.elem(i)
            d = zreal(val) - zreal(old)
            if len(c.rows) != 1:
                raise Unsupported("element write into partitioned vector")
            p = c.b[0, 0].add(Poly({(nc.atom("e", (i,)),): nc.coef(mk(z3.simplify(d)))}))
            self._set(Block(c.rows, c.cols, {(0, 0): p}))
            return
        if isinstance(c, Elem) or (isinstance(c, (Block, Uninit)) and not any(isint)) \
                or (isinstance(c, Log) and not any(isint)):
            return self._elem_set(key, val)
        # write by (partial) integer index: log
        if isinstance(c, Log):
            m = c.m
        else:
            m = max([ax for ax, b in enumerate(isint) if b]) + 1
        l = self._log(m)
        m = l.m
        if any(isint[m:]) or not all(b or (isinstance(k, slice) and k == slice(None)) for b, k in zip(isint, key)):
            return self._elem_set(key, val)
        pat, wild = [], []
        for ax in range(m):
            if isint[ax]:
                pat.append(self._norm_index(key[ax], self.shape[ax]))
            else:
                pat.append(ANY)
                wild.append(ax)
        cshape = self.shape[m:]
        v = val
        if wild:
            if isinstance(v, SArr) and v.ndim > len(cshape):
                vv = SArr(v.shape, v.c)
                v = lambda idx, vv=vv: vv._sub_ints([idx[a] for a in wild][-(vv.ndim - len(cshape)):])
            elif isinstance(v, SArr):
                v = SArr(v.shape, v.c)
        else:
            if isinstance(v, SArr):
                if v.ndim != len(cshape):
                    if v.ndim > len(cshape):
                        raise Unsupported("broadcast in assignment")
                else:
                    for x, y in zip(v.shape, cshape):
                        if not deq(x, y):
                            raise ValueError("could not broadcast input array")
                v = SArr(v.shape, v.c)
            if cshape and not isinstance(v, SArr):
                v = full(cshape, v)
        nl = l.copy()
        nl.writes.append((tuple(pat), v))
        self._set(nl)

    def _elem_set(self, key, val):
        old = SArr(self.shape, self.c.copy() if isinstance(self.c, Log) else self.c, name=self.name)
        conds = []
        free = []
        for ax, k in enumerate(key):
            if isinstance(k, slice):
                a, b = bounds(k, self.shape[ax])
                conds.append((ax, "r", a, b))
                free.append((ax, a))
            else:
                conds.append((ax, "i", self._norm_index(k, self.shape[ax]), None))
        v = SArr(val.shape, val.c) if isinstance(val, SArr) else val

        def at(*idx):
            cs = []
            for ax, kind, a, b in conds:
                if kind == "i":
                    cs.append(zint(idx[ax]) == zint(a))
                else:
                    if not deq(a, 0):
                        cs.append(zint(idx[ax]) >= zint(a))
                    if not deq(b, self.shape[ax]):
                        cs.append(zint(idx[ax]) < zint(b))
            hit = z3.And(*cs) if cs else z3.BoolVal(True)
            if isinstance(v, SArr):
                sub = [idx[ax] - a if not (isinstance(a, int) and a == 0) else idx[ax] for ax, a in free]
                sub = sub[len(sub) - v.ndim:]
                new = lambda: v.elem(*sub)
            else:
                new = lambda: v
            if z3.is_true(z3.simplify(hit)):
                return new()
            if isinstance(old.c, Uninit) or ctx().data.get("split_set"):
                return new() if ctx().branch(hit) else old.elem(*idx)
            return ite(mk(hit), new(), old.elem(*idx))
        self._set(Elem(at))

    # ---- arithmetic
    def _bin(self, o, kind):
        return binop(self, o, kind)

    def __add__(self, o):
        return binop(self, o, "+")

    def __radd__(self, o):
        return binop(o, self, "+")

    def __sub__(self, o):
        return binop(self, o, "-")

    def __rsub__(self, o):
        return binop(o, self, "-")

    def __mul__(self, o):
        return binop(self, o, "*")

    def __rmul__(self, o):
        return binop(o, self, "*")

    def __truediv__(self, o):
        return binop(self, o, "/")

    def __rtruediv__(self, o):
        return binop(o, self, "/")

    def __pow__(self, e):
        me = SArr(self.shape, self.c)
        return SArr(self.shape, Elem(lambda *i: me.elem(*i) ** e))

    def __neg__(self):
        c = self.c
        if isinstance(c, Block):
            return SArr(self.shape, Block(c.rows, c.cols, {k: p.scale(Fraction(-1)) for k, p in c.b.items()}))
        me = SArr(self.shape, c.copy() if isinstance(c, Log) else c)
        return SArr(self.shape, Elem(lambda *i: -me.elem(*i)))

    def __abs__(self):
        me = SArr(self.shape, self.c)
        return SArr(self.shape, Elem(lambda *i: abs(me.elem(*i))))

    def _iop(self, o, k):
        r = binop(self, o, k)
        if len(r.shape) != self.ndim:
            raise ValueError("non-broadcastable output operand")
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._iop(o, "+")

    def __isub__(self, o):
        return self._iop(o, "-")

    def __imul__(self, o):
        return self._iop(o, "*")

    def __itruediv__(self, o):
        return self._iop(o, "/")

    def _cmp(self, o, f):
        me = SArr(self.shape, self.c)
        oo = SArr(o.shape, o.c) if isinstance(o, SArr) else o

        def at(*i):
            return f(me.elem(*i), oo.elem(*i[len(i) - oo.ndim:]) if isinstance(oo, SArr) else oo)
        return SArr(self.shape, Elem(at), dtype="bool")

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not isinstance(o, (SArr, SymNum, SymBool, int, float)):
            return NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not isinstance(o, (SArr, SymNum, SymBool, int, float)):
            return NotImplemented
        return self._cmp(o, lambda a, b: a != b)

    def __and__(self, o):
        return self._cmp(o, lambda a, b: mk(z3.And(tobool(a), tobool(b))))

    def __or__(self, o):
        return self._cmp(o, lambda a, b: mk(z3.Or(tobool(a), tobool(b))))

    def __invert__(self):
        me = SArr(self.shape, self.c)
        return SArr(self.shape, Elem(lambda *i: mk(z3.Not(tobool(me.elem(*i))))), dtype="bool")

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def dot(self, o):
        return matmul(self, o)

    @property
    def T(self):
        if self.ndim == 1:
            return self
        if self.ndim == 2 and isinstance(self.c, Block):
            return SArr((self.shape[1], self.shape[0]), self.c.T())
        me = SArr(self.shape, self.c)
        return SArr(self.shape[::-1], Elem(lambda *i: me.elem(*i[::-1])))

    def transpose(self):
        return self.T

    def copy(self):
        c = self.c
        r = SArr(self.shape, c.copy() if isinstance(c, (Log, Block)) else c, dtype=self.dtype)
        if isinstance(c, Uninit):
            r._c = Uninit()
        return r

    def astype(self, *a, **k):
        return self.copy()

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        return self.reshape(-1)

    ravel = flatten

    @property
    def flat(self):
        return self.reshape(-1)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def repeat(self, n, axis=None):
        me = self.copy()
        if axis is None:
            me, axis = me.reshape(-1), 0
        axis = conc(axis) % me.ndim
        return SArr(tuple(d * n if a == axis else d for a, d in enumerate(me.shape)),
                    Elem(lambda *i: me.elem(*[idivmod(x, n)[0] if a == axis else x for a, x in enumerate(i)])), dtype=self.dtype)

    def argmax(self, axis=None):
        """a position of the largest entry of the flattened array; the contract instantiates that no other entry is larger"""
        if axis is not None:
            raise Unsupported("argmax over an axis")
        me = self.copy()
        i = SymInt(z3.Int(ctx().fresh("argmax")))
        fl = me.reshape(-1)
        if not ctx().branch(zint(fl.shape[0]) >= 1):
            raise ValueError("attempt to get argmax of an empty sequence")
        ctx().assume(z3.And(i._z >= 0, i._z < zint(fl.shape[0])))
        ctx().data.setdefault("argmax", []).append((me, fl, i))
        return i

    def max(self, axis=None):
        return self.reshape(-1).elem(self.argmax(axis))

    def squeeze(self):
        return self

    def round(self, *a):
        raise Unsupported("rounding of a symbolic array")

    def sum(self, axis=None):
        return asum(self, axis)

    def mean(self, axis=None):
        h = ctx().data.get("mean")
        if h is None:
            raise Unsupported("mean of a symbolic array")
        return h(self, axis)

    def all(self, axis=None):
        raise Unsupported("all")

    def __iter__(self):
        n = conc(self.shape[0])
        if not isinstance(n, int):
            raise Unsupported("python iteration over a symbolic array outside a cut loop")
        for i in range(n):
            yield self[i]

    def at(self, i):
        """i-th element along the first axis (iteration)"""
        return self._sub_ints((i,))


def idivmod(q, b):
    """quotient and remainder for a positive divisor (a lemma of integer arithmetic, instantiated for q)"""
    cq, cb = conc(q), conc(b)
    if isinstance(cb, int) and cb > 0:
        return (cq // cb, cq % cb) if isinstance(cq, int) else (mk(zint(q) / cb), mk(zint(q) % cb))
    zq, zb = zint(q), zint(b)
    for t, w, n, f in ctx().data.get("pairs", []):
        if f.eq(zq) and deq(n, b):
            return t, w
    if not ctx().branch(zb > 0):
        raise Unsupported("division by a number that need not be positive")
    D, M = z3.Function("IDIV", z3.IntSort(), z3.IntSort(), z3.IntSort()), z3.Function("IMOD", z3.IntSort(), z3.IntSort(), z3.IntSort())
    d, m = D(zq, zb), M(zq, zb)
    ctx().assume(z3.And(m >= 0, m < zb, zq == d * zb + m, z3.Implies(zq >= 0, d >= 0)))
    return mk(d), mk(m)


def ipair(t, w, b):
    """t*b + w with 0 <= w < b"""
    f = zint(t) * zint(b) + zint(w)
    ctx().data.setdefault("pairs", []).append((t, w, b, f))
    return mk(f)


def reshape(a, shape):
    me = a.copy()
    S, T = list(me.shape), list(shape)
    head, tail = [], []

    def isfree(d):
        return conc(d) == -1
    while S and T and not isfree(T[-1]) and deq(S[-1], T[-1]):
        tail.insert(0, S.pop())
        T.pop()
    while len(S) > 1 and len(T) > 1 and not isfree(T[0]) and deq(S[0], T[0]):
        head.append(S.pop(0))
        T.pop(0)
    if not T and not S:
        return me
    free = [k for k, d in enumerate(T) if isfree(d)]
    if len(free) > 1:
        raise ValueError("can only specify one unknown dimension")
    n = 1
    for d in S:
        n = n * d
    if free:
        rest = [d for k, d in enumerate(T) if k != free[0]]
        if not rest:
            T[free[0]] = n
        else:
            m = 1
            for d in rest:
                m = m * d
            q = next((d for d in S if deq(d * m, n)), None)
            if q is None:
                q, r = idivmod(n, m)
                if not ctx().branch(zint(r) == 0):
                    raise ValueError("cannot reshape array")
            T[free[0]] = q
    m = 1
    for d in T:
        m = m * d
    if not deq(m, n):
        if ctx().entails(zint(m) != zint(n)):
            raise ValueError("cannot reshape array")
        raise Unsupported("reshape")
    nh, nt = len(head), len(T)

    def at(*idx):
        q = idx[nh]
        for k in range(1, nt):
            q = ipair(q, idx[nh + k], T[k])
        out = []
        for d in reversed(S[1:]):
            if not (isinstance(d, int) and d == 1):
                q, r = idivmod(q, d)
            else:
                r = 0
            out.insert(0, r)
        if len(S) > 1:
            # the quotient stays within the first axis
            inside = z3.And(*[z3.And(zint(x) >= 0, zint(x) < zint(d)) for x, d in zip(idx[nh:nh + nt], T)])
            ctx().assume(z3.Implies(inside, z3.And(zint(q) >= 0, zint(q) < zint(S[0]))))
        return me.elem(*(tuple(idx[:nh]) + ((q,) + tuple(out) if S else ()) + tuple(idx[nh + nt:])))
    return SArr(tuple(head) + tuple(T) + tuple(tail), Elem(at), dtype=a.dtype)


class View(SArr):
    """basic-index view: reads through, writes through"""

    def __init__(self, base, key):
        self.base, self.key = base, tuple(key)
        sh, c = base._materialise(list(key)) if not all(
            isinstance(k, slice) and k == slice(None) for k in key) else (base.shape, base.c)
        self.shape = tuple(sh)
        self._cache = (base.c, c)
        self._atom = None
        self._serial = tick()
        self.name = None
        self.dtype = base.dtype
        for nm in ("fancy", "fancy_axes", "fancy_set", "fancy_axes_set"):
            pass

    @property
    def c(self):
        if self._cache[0] is not self.base.c:
            if all(isinstance(k, slice) and k == slice(None) for k in self.key):
                self._cache = (self.base.c, self.base.c)
            else:
                bc = self.base.c
                self._cache = (bc, self.base._materialise(list(self.key))[1])
        return self._cache[1]

    @property
    def _c(self):
        return self.c

    @_c.setter
    def _c(self, v):
        # internal representation change (no semantic change): keep local
        self._cache = (self.base.c, v)

    def _set(self, c):
        self.base[self.key] = SArr(self.shape, c)
        for s in ctx().mutated:
            s.add(self.base)

    @property
    def fancy_axes_set(self):
        h = getattr(self.base, "fancy_axes_set", None)
        if h is None:
            return None
        return lambda me, key, val: h(self.base, ("view", self.key, key), val)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    z = tobool(c)
    if isinstance(a, SArr) or isinstance(b, SArr):
        return a if ctx().branch(z) else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mk(z3.If(z, tobool(a), tobool(b)))
    na, nb = _num(a), _num(b)
    if na is not None and nb is not None:
        ia = isinstance(na, int) or na.is_int()
        ib = isinstance(nb, int) or nb.is_int()
        if ia and ib:
            return mk(z3.If(z, zint(a), zint(b)))
        return mk(z3.If(z, zreal(a), zreal(b)))
    return a if ctx().branch(z) else b


def _as_block(v, shape):
    if isinstance(v, SArr):
        for x, y in zip(v.shape, shape):
            if not deq(x, y):
                raise ValueError("could not broadcast input array from shape %s into shape %s" % (v.shape, shape))
        return v.block()
    r, c = shape[0], (shape[1] if len(shape) == 2 else 1)
    if conc(v) == 0:
        return Block.zero(r, c)
    if isinstance(v, SymReal) and z3.is_rational_value(z3.simplify(v._z)) and z3.simplify(v._z).as_fraction() == 0:
        return Block.zero(r, c)
    return full(shape, v).block()


def zeros(shape):
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    if len(shape) == 1:
        return SArr(shape, Block.zero(shape[0], 1))
    if len(shape) == 2:
        return SArr(shape, Block.zero(shape[0], shape[1]))
    return SArr(shape, Elem(lambda *i: mk(z3.RealVal(0))))


def full(shape, v):
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    return SArr(shape, Elem(lambda *i: v))


def eye(n):
    return SArr((n, n), Block.single(n, n, Poly.one()))


def mat(name, r, c, idx=()):
    return SArr((r, c), Block.single(r, c, Poly.of(nc.atom(name, idx))), name=name)


def vec(name, n, idx=()):
    return SArr((n,), Block.single(n, 1, Poly.of(nc.atom(name, idx))), name=name)


def empty(shape, name=None):
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    return SArr(shape, Uninit(), name=name)


def family(name, shape, m):
    """symbolic array of cells  name[i1..im]"""
    a = SArr(shape, None, name=name)
    a._c = Log(m, FamBase(lambda *idx: atom_value(name, idx, a.shape[m:])))
    return a


def el_array(name, shape, sort="real", dtype=None):
    """elementwise symbolic array given by an uninterpreted function"""
    n = len(shape)
    rs = {"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort()}[sort]
    if n:
        f = z3.Function(name, *([z3.IntSort()] * n + [rs]))
        return SArr(shape, Elem(lambda *i: mk(f(*[zint(x) for x in i]))), name=name, dtype=dtype)
    return mk(z3.Const(name, rs))


def to_scalar_if_1(v):
    return v


def binop(a, b, k):
    sa, sb = isinstance(a, SArr), isinstance(b, SArr)
    if not sa and not sb:
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[k]()
    # block domain
    def blk(x):
        return isinstance(x, SArr) and isinstance(x.c, Block)
    if sa and sb and k in "+-":
        if blk(a) and blk(b):
            if a.ndim == b.ndim:
                return SArr(a.shape, badd(a.c, b.c, Fraction(1 if k == "+" else -1)))
            if a.ndim == 2 and b.ndim == 1:
                bb = SArr(a.shape, bmatmul(ones(a.shape[0]).c, b.c.T()))
                return binop(a, bb, k)
            if a.ndim == 1 and b.ndim == 2:
                aa = SArr(b.shape, bmatmul(ones(b.shape[0]).c, a.c.T()))
                return binop(aa, b, k)
    if k in "*/" and sa != sb:
        x, s = (a, b) if sa else (b, a)
        if blk(x) and not (k == "/" and sb) and is_scalar(s):
            s = nc.coef(s) if k == "*" else nc.coef(1 / s if not isinstance(s, int) else Fraction(1, s))
            return SArr(x.shape, Block(x.c.rows, x.c.cols, {q: p.scale(s) for q, p in x.c.b.items()}))
    if k in "+-" and sa != sb:
        s = b if sa else a
        if conc(s) == 0:
            return (a.copy() if sa else (b.copy() if k == "+" else -b))
    # elementwise with broadcasting over leading axes / unit dims
    A = SArr(a.shape, a.c.copy() if isinstance(a.c, Log) else a.c, name=a.name) if sa else a
    B = SArr(b.shape, b.c.copy() if isinstance(b.c, Log) else b.c, name=b.name) if sb else b
    shape = bshape(A.shape if sa else (), B.shape if sb else ())

    def get(X, idx):
        if not isinstance(X, SArr):
            if not is_scalar(X):
                raise Unsupported("operand %r" % (X,))
            return X
        sub = idx[len(idx) - X.ndim:]
        sub = tuple(0 if isinstance(d, int) and d == 1 else i for d, i in zip(X.shape, sub))
        return X.elem(*sub)

    def at(*idx):
        x, y = get(A, idx), get(B, idx)
        if k == "+":
            return x + y
        if k == "-":
            return x - y
        if k == "*":
            return x * y
        return x / y
    return SArr(shape, Elem(at))


def is_scalar(s):
    return isinstance(s, (int, float, Fraction, SymNum, SymBool)) or (
        type(s).__module__ == "numpy" and getattr(s, "ndim", 1) == 0)


def bshape(x, y):
    n = max(len(x), len(y))
    x = (1,) * (n - len(x)) + tuple(x)
    y = (1,) * (n - len(y)) + tuple(y)
    out = []
    for a, b in zip(x, y):
        if isinstance(a, int) and a == 1:
            out.append(b)
        elif isinstance(b, int) and b == 1:
            out.append(a)
        elif deq(a, b):
            out.append(a)
        else:
            raise ValueError("operands could not be broadcast together")
    return tuple(out)


def ones(n):
    return SArr((n,), Block.single(n, 1, Poly.of(nc.atom("ones", (zint(n),)))))


def matmul(a, b):
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        raise Unsupported("matmul operand")
    # family of vectors @ vector -> elementwise
    if a.ndim == 2 and b.ndim == 1 and isinstance(a.c, Log) and a.c.m == 1:
        if not deq(a.shape[1], b.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        A, B = SArr(a.shape, a.c.copy()), SArr(b.shape, b.c)
        return SArr((a.shape[0],), Elem(lambda i: matmul(A.read_idx((i,)), B)))
    if a.ndim > 2 or b.ndim > 2:
        return _batched(a, b)
    A, B = a.block(), b.block()
    if a.ndim == 1:
        A = A.T()
    r = bmatmul(A, B)
    if a.ndim == 1 and b.ndim == 1:
        if len(r.b) != 1:
            raise Unsupported("scalar product")
        return poly_real(r.b[0, 0])
    if a.ndim == 1:
        return SArr((b.shape[1],), r.T())
    if b.ndim == 1:
        return SArr((a.shape[0],), r)
    return SArr((a.shape[0], b.shape[1]), r)


def _batched(a, b):
    """stacks of matrices (numpy: all but the last two axes are broadcast)"""
    if a.ndim < 2 or b.ndim < 2:
        raise Unsupported("matmul of a stack and a vector")
    if not deq(a.shape[-1], b.shape[-2]):
        raise ValueError("matmul: dimension mismatch")
    lead = bshape(a.shape[:-2], b.shape[:-2])
    A, B = (SArr(x.shape, x.c.copy() if isinstance(x.c, Log) else x.c) for x in (a, b))

    def get(x, idx):
        k = x.ndim - 2
        if not k:
            return x
        idx = idx[len(idx) - k:]
        idx = tuple(0 if isinstance(d, int) and d == 1 else i for i, d in zip(idx, x.shape))
        return x._sub_ints(idx)
    return SArr(tuple(lead) + (a.shape[-2], b.shape[-1]), Log(len(lead), FamBase(lambda *i: matmul(get(A, i), get(B, i)))))


def inv(a):
    if a.ndim != 2:
        raise Unsupported("inv")
    if not deq(a.shape[0], a.shape[1]):
        raise ValueError("Last 2 dimensions of the array must be square")
    c = a.block()
    if len(c.b) != 1:
        nm = ctx().fresh("invblock")
        raise Unsupported("inverse of a partitioned matrix")
    p = c.b[0, 0]
    h = ctx().data.get("on_inv")
    if h:
        h(p)
    return SArr(a.shape, Block.single(a.shape[0], a.shape[1], nc.inv(p)))


def asum(a, axis=None):
    """sum over an axis of an elementwise array: uninterpreted, linear facts are the contract's"""
    h = ctx().data.get("sum_hook")
    if h is not None:
        return h(a, axis)
    raise Unsupported("sum over a symbolic axis")


def hstack(parts):
    parts = list(parts)
    if all(isinstance(p, SArr) for p in parts) and len({p.ndim for p in parts}) == 1:
        nd = parts[0].ndim
        if all(isinstance(p.c, Block) for p in parts) and nd in (1, 2):
            return concat(parts, 0 if nd == 1 else 1)
        return econcat(parts, 0 if nd == 1 else 1)
    raise Unsupported("hstack of %r" % ([type(p).__name__ for p in parts],))


def concat(parts, axis):
    bs = [p.c.copy() for p in parts]
    oth = 1 - axis
    for x in bs:
        for y in bs:
            if x is not y:
                if not deq(dsum(x.rows if oth == 0 else x.cols), dsum(y.rows if oth == 0 else y.cols)):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match")
                align(x, y, oth, oth)
    rows, cols, b = [], [], {}
    off = 0
    if axis == 0:
        for x in bs:
            for (i, j), p in x.b.items():
                b[off + i, j] = p
            off += len(x.rows)
            rows += x.rows
        cols = bs[0].cols
    else:
        for x in bs:
            for (i, j), p in x.b.items():
                b[i, off + j] = p
            off += len(x.cols)
            cols += x.cols
        rows = bs[0].rows
    nd = parts[0].ndim
    shape = (dsum(rows),) if nd == 1 else (dsum(rows), dsum(cols))
    return SArr(shape, Block(rows, cols, b))


def econcat(parts, axis):
    ps = [SArr(p.shape, p.c.copy() if isinstance(p.c, Log) else p.c) for p in parts]
    tot = dsum([p.shape[axis] for p in ps])
    shape = list(ps[0].shape)
    shape[axis] = tot

    def at(*idx):
        cum = 0
        i = idx[axis]
        for n, p in enumerate(ps):
            nxt = cum + p.shape[axis]
            if n == len(ps) - 1 or ctx().branch(zint(i) < zint(nxt)):
                sub = list(idx)
                sub[axis] = i - cum if not (isinstance(cum, int) and cum == 0) else i
                return p.elem(*sub)
            cum = nxt
    return SArr(shape, Elem(at))


def vstack(parts):
    parts = list(parts)
    up = []
    for p in parts:
        if isinstance(p, SArr) and p.ndim == 1:
            if isinstance(p.c, Block):
                p = SArr((1, p.shape[0]), p.c.T())
            else:
                q = SArr(p.shape, p.c)
                p = SArr((1, p.shape[0]), Elem(lambda i, j, q=q: q.elem(j)))
        up.append(p)
    if all(isinstance(p.c, Block) for p in up):
        return concat(up, 0)
    return econcat(up, 0)


# ------------------------------------------------------------------ boolean masks
class Sel:
    """the positions at which a boolean vector is true, in increasing order: position number k, and the number of a position"""

    def __init__(self, mask, parent=None, stop=None):
        self.mask, self.parent, self.stop = SArr(mask.shape, mask.c, dtype="bool"), parent, stop
        self.n = mask.shape[0]
        self.cnt = SymInt(z3.Int(ctx().fresh("count")))
        self.prefixes = []
        if parent is None:
            self.SEL = z3.Function(ctx().fresh("SEL"), z3.IntSort(), z3.IntSort())
            self.RANK = z3.Function(ctx().fresh("RANK"), z3.IntSort(), z3.IntSort())
            ctx().assume(z3.And(self.cnt._z >= 0, self.cnt._z <= zint(self.n)))
        else:
            self.SEL, self.RANK = parent.SEL, parent.RANK
            ctx().assume(z3.And(self.cnt._z >= 0, self.cnt._z <= zint(stop), self.cnt._z <= parent.cnt._z))

    def has(self, j):
        return tobool(self.mask.elem(j))

    def at(self, k):
        k = zint(k)
        j = self.SEL(k)
        if self.parent is not None:
            self.parent.at(mk(k))
            ctx().assume(z3.Implies(z3.And(k >= 0, k < self.cnt._z), j < zint(self.stop)))
            ctx().assume(z3.Implies(z3.And(k >= self.cnt._z, k < self.parent.cnt._z), j >= zint(self.stop)))
        else:
            ctx().assume(z3.Implies(z3.And(k >= 0, k < self.cnt._z), z3.And(j >= 0, j < zint(self.n), self.RANK(j) == k)))
        return mk(j)

    def member(self, k):
        """the selected positions are true ones"""
        j = self.at(k)
        ctx().assume(z3.Implies(z3.And(zint(k) >= 0, zint(k) < self.cnt._z), self.has(j)))
        return j

    def rank(self, j):
        z = zint(j)
        r = self.RANK(z)
        h = self.has(j)
        if self.parent is not None:
            self.parent.rank(j)
        else:
            ctx().assume(z3.Implies(z3.And(z >= 0, z < zint(self.n), h), z3.And(r >= 0, r < self.cnt._z, self.SEL(r) == z)))
        for q in self.prefixes if self.parent is None else [self]:
            ctx().assume(z3.Implies(h, (z < zint(q.stop)) == (r < q.cnt._z)))
        return mk(r)


def selection(mask):
    """enumeration of a mask; the same mask has one enumeration, and the beginning of a mask the beginning of its enumeration"""
    d = ctx().data.setdefault("selections", [])
    if isinstance(mask, View) and len(mask.key) == 1 and isinstance(mask.key[0], slice):
        a, b = bounds(mask.key[0], mask.base.shape[0])
        if deq(a, 0):
            par = selection(mask.base)
            for q in par.prefixes:
                if deq(q.stop, b):
                    return q
            q = Sel(mask, par, b)
            par.prefixes.append(q)
            return q
    for s, c in d:
        if c is mask.c:
            return s
    s = Sel(mask)
    d.append((s, mask.c))
    return s


def select(a, axis, mask):
    if not deq(a.shape[axis], mask.shape[0]):
        raise IndexError("boolean index did not match indexed array")
    s = selection(mask)
    me = SArr(a.shape, a.c.copy() if isinstance(a.c, Log) else a.c)
    shape = a.shape[:axis] + (s.cnt,) + a.shape[axis + 1:]
    return SArr(shape, Elem(lambda *i: me.elem(*(i[:axis] + (s.at(i[axis]),) + i[axis + 1:]))), dtype=a.dtype)


def select_set(a, axis, mask, val):
    if not deq(a.shape[axis], mask.shape[0]):
        raise IndexError("boolean index did not match indexed array")
    s = selection(mask)
    old = SArr(a.shape, a.c.copy() if isinstance(a.c, Log) else a.c)
    if isinstance(val, SArr):
        if val.ndim == a.ndim and not deq(val.shape[axis], s.cnt):
            raise ValueError("shape mismatch")
        if val.ndim != a.ndim:
            raise Unsupported("broadcast in masked assignment")
        v = SArr(val.shape, val.c)

    def at(*i):
        if ctx().branch(s.has(i[axis])):
            return v.elem(*(i[:axis] + (s.rank(i[axis]),) + i[axis + 1:])) if isinstance(val, SArr) else val
        return old.elem(*i)
    a._set(Elem(at))


# ------------------------------------------------------------------ equality
def unfold(v):
    """definition of a spec family at this cell (ctx().data["unfold"]: name -> fn(*idx)), or None"""
    uf = ctx().data.get("unfold")
    if not uf:
        return None
    if isinstance(v, SArr):
        if not isinstance(v.c, Block) or len(v.c.b) != 1:
            return None
        p, = v.c.b.values()
        if len(p.t) != 1:
            return None
        (m, c), = p.t.items()
        if c != 1 or len(m) != 1 or m[0][0] != "A" or m[0][3] or m[0][4] or m[0][5] or m[0][1] not in uf:
            return None
        return uf[m[0][1]](*[mk(nc.iterm(i)) for i in m[0][2]])
    z = getattr(v, "_z", None)
    if z is not None and z3.is_app(z) and z.decl().name() in uf:
        return uf[z.decl().name()](*[mk(x) for x in z.children()])
    return None


def arr_equal(a, b):
    """provable equality of two arrays / scalars, quietly; True/False"""
    if _arr_equal(a, b):
        return True
    if not ctx().data.get("unfold"):
        return False

    def one():
        for x, y in ((a, b), (b, a)):
            w = unfold(y)
            for alt in (w if isinstance(w, list) else [w] if w is not None else []):
                if _arr_equal(x, alt):
                    return True
        return False
    return all(ctx().forall_paths(one))


def _arr_equal(a, b):
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        if a is b:
            return True
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(arr_equal(x, y) for x, y in zip(a, b))
        r = (a == b)
        if isinstance(r, bool):
            return r
        return ctx().entails(r._z, ms=10000)
    if not (isinstance(a, SArr) and isinstance(b, SArr)):
        return False
    if a.ndim != b.ndim or not all(deq(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    if isinstance(a.c, Block) and isinstance(b.c, Block):
        d = badd(a.c, b.c, Fraction(-1))
        return all(nc.is_zero(p) for p in d.b.values())
    # elementwise at a fresh index
    def one():
        idx = []
        for n in a.shape:
            i = SymInt(z3.Int(ctx().fresh("ix")))
            ctx().assume(z3.And(i._z >= 0, i._z < zint(n)))
            idx.append(i)
        return arr_equal(a.elem(*idx), b.elem(*idx))
    return all(ctx().forall_paths(one))


def diff_str(a, b):
    try:
        if isinstance(a, SArr) and isinstance(b, SArr) and isinstance(a.c, Block) and isinstance(b.c, Block):
            d = badd(a.c, b.c, Fraction(-1))
            return "; ".join("block %s: code - spec = %r" % (k, nc.reduce(nc.canon(nc.reduce(p)))) for k, p in d.b.items()
                             if not nc.is_zero(p))[:3000]
        return "code: %r   spec: %r" % (a, b)
    except Exception as e:       # diagnostics only
        return "(no difference available: %s)" % e
