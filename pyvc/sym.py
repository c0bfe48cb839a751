"""scalar proxies (ints and floats are mathematical integers and reals)"""
from fractions import Fraction
import z3
from . import core
from .core import Unsupported, raw, ctx


def _num(x):
    """z3 arith / python number"""
    if isinstance(x, SymNum):
        return x._z
    if isinstance(x, SymBool):
        return z3.If(x._z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float %r" % x)
        return z3.RealVal(Fraction(repr(x)))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    if type(x).__module__ == "numpy":
        return _num(x.item())
    return None


def mk(z):
    """wrap a z3 term / python value"""
    if isinstance(z, (bool, int)):
        return z
    if isinstance(z, z3.BoolRef):
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SymBool(z)
    if isinstance(z, z3.ArithRef):
        if z3.is_int_value(z):
            return z.as_long()
        return SymInt(z) if z.is_int() else SymReal(z)
    if isinstance(z, z3.SeqRef):
        return SymStr(z)
    return z


class SymBool:
    def __init__(self, z):
        self._z = z

    def __bool__(self):
        return ctx().branch(self._z)

    def __and__(self, o):
        o = tobool(o)
        return mk(z3.And(self._z, o)) if o is not None else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymInt,)) or (isinstance(o, int) and not isinstance(o, bool)):
            return SymInt(_num(self)).__or__(o)
        o = tobool(o)
        return mk(z3.Or(self._z, o)) if o is not None else NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return mk(z3.Not(self._z))

    def __xor__(self, o):
        return mk(z3.Xor(self._z, tobool(o)))

    def __eq__(self, o):
        b = tobool(o)
        return mk(self._z == b) if b is not None else False

    def __ne__(self, o):
        b = tobool(o)
        return mk(self._z != b) if b is not None else True

    def __hash__(self):
        return _hash(self)

    def __add__(self, o):
        return SymInt(_num(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(_num(self)) * o
    __rmul__ = __mul__

    def __gt__(self, o):
        return SymInt(_num(self)) > o

    def __lt__(self, o):
        return SymInt(_num(self)) < o

    def __repr__(self):
        return "<%s>" % self._z

    def any(self):
        return self

    all = any


def tobool(o):
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if isinstance(o, SymBool):
        return o._z
    if isinstance(o, z3.BoolRef):
        return o
    if isinstance(o, SymNum):
        return o._z != 0
    if type(o).__module__ == "numpy" and type(o).__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(o))
    return None


def band(*bs):
    return mk(z3.And(*[tobool(b) for b in bs])) if bs else True


def bor(*bs):
    return mk(z3.Or(*[tobool(b) for b in bs])) if bs else False


def bnot(b):
    return mk(z3.Not(tobool(b)))


def implies(a, b):
    return mk(z3.Implies(tobool(a), tobool(b)))


def _hash(v):
    """a dict, a set or `hash` would take equal values for different ones where the terms differ"""
    z = z3.simplify(v._z)
    if z3.is_int_value(z):
        return hash(z.as_long())
    if z3.is_true(z) or z3.is_false(z):
        return hash(z3.is_true(z))
    if z3.is_string_value(z):
        return hash(z.as_string())
    from .core import Unsupported
    raise Unsupported("hash of a symbolic value")


class SymNum:
    def __init__(self, z):
        self._z = z

    def __hash__(self):
        return _hash(self)

    def __repr__(self):
        return "<%s>" % self._z

    def __bool__(self):
        return ctx().branch(self._z != 0)

    def _cmp(self, o, f):
        n = _num(o)
        if n is None:
            return NotImplemented
        return mk(f(self._z, n))

    def __eq__(self, o):
        n = _num(o)
        return mk(self._z == n) if n is not None else False

    def __ne__(self, o):
        n = _num(o)
        return mk(self._z != n) if n is not None else True

    def __lt__(self, o):
        if isinstance(o, float) and o == float("inf"):
            return True
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f):
        n = _num(o)
        if n is None:
            return NotImplemented
        return mk(f(self._z, n))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return mk(-self._z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self._z >= 0, self._z, -self._z))

    def __truediv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return mk(_real(self._z) / _real(n))

    def __rtruediv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return mk(_real(n) / _real(self._z))

    def __pow__(self, e):
        if isinstance(e, int) and 0 <= e <= 6:
            r = z3.RealVal(1) if isinstance(self, SymReal) else z3.IntVal(1)
            for _ in range(e):
                r = r * self._z
            return mk(r)
        raise Unsupported("power")

    def round(self, *a):
        return self

    def __round__(self, *a):
        raise Unsupported("round of symbolic number")

    def item(self):
        return self

    def copy(self):
        return self


def _real(n):
    if isinstance(n, (int,)):
        return z3.RealVal(n)
    if n.is_int():
        return z3.ToReal(n)
    return n


class SymInt(SymNum):
    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mk(self._z / o)
        if isinstance(o, SymInt):
            from .arr import idivmod
            return idivmod(self, o)[0]
        raise Unsupported("floor division by non-positive/symbolic")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mk(self._z % o)
        if isinstance(o, SymInt):
            from .arr import idivmod
            return idivmod(self, o)[1]
        raise Unsupported("modulo")

    def __rfloordiv__(self, o):
        from .arr import idivmod
        return idivmod(o, self)[0]

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        from .arr import idivmod
        return idivmod(o, self)[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __index__(self):
        s = z3.simplify(self._z)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("symbolic integer used where CPython needs a concrete one")

    def __or__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if isinstance(n, int) and n == 0:
            return self
        a = self._z
        n = z3.IntVal(n) if isinstance(n, int) else n
        f = z3.Function("bitor", z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = z3.If(n == 0, a, z3.If(a == 0, n, z3.If(a == n, a, f(a, n))))
        c = ctx()
        c.assume(z3.Implies(z3.And(a >= 0, n >= 0), z3.And(f(a, n) >= a, f(a, n) >= n)))
        return mk(r)

    def __ror__(self, o):
        n = _num(o)
        if isinstance(n, int) and n == 0:
            return self
        return SymInt(z3.IntVal(n) if isinstance(n, int) else n).__or__(self)

    def bit_length(self):
        raise Unsupported("bit_length")


class SymReal(SymNum):
    pass


class SymStr:
    """a symbolic string (z3 sequence)"""

    def __init__(self, z):
        self._z = z

    def _o(self, o):
        if isinstance(o, SymStr):
            return o._z
        if isinstance(o, str):
            return z3.StringVal(o)
        return None

    def __add__(self, o):
        z = self._o(o)
        return SymStr(z3.Concat(self._z, z)) if z is not None else NotImplemented

    def __radd__(self, o):
        z = self._o(o)
        return SymStr(z3.Concat(z, self._z)) if z is not None else NotImplemented

    def __eq__(self, o):
        z = self._o(o)
        return mk(self._z == z) if z is not None else False

    def __ne__(self, o):
        z = self._o(o)
        return mk(self._z != z) if z is not None else True

    def __hash__(self):
        return _hash(self)

    def __bool__(self):
        return ctx().branch(z3.Length(self._z) > 0)

    def length(self):
        return SymInt(z3.Length(self._z))

    def _pos(self, i, default):
        n = z3.Length(self._z)
        if i is None:
            return default
        v = _num(i)
        v = z3.IntVal(v) if isinstance(v, int) else v
        return z3.If(v < 0, z3.If(n + v < 0, z3.IntVal(0), n + v), z3.If(v > n, n, v))

    def __getitem__(self, k):
        n = z3.Length(self._z)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("string step slice")
            if isinstance(k.start, int) and k.start < 0 and k.stop is None:
                return SymTail(self, -k.start)
            if isinstance(k.stop, int) and k.stop < 0 and not k.start:
                m = -k.stop
                if ctx().branch(n >= m):
                    # name the two parts: s = head + tail with |tail| = m
                    known = next((c for c in ctx().data.get("tails", []) if len(c) == m and ctx().entails(z3.SuffixOf(z3.StringVal(c), self._z))), None)
                    w = z3.String(ctx().fresh("head"))
                    if known is not None:
                        ctx().assume(self._z == z3.Concat(w, z3.StringVal(known)))
                    else:
                        t = z3.String(ctx().fresh("tail"))
                        ctx().assume(z3.And(self._z == z3.Concat(w, t), z3.Length(t) == m))
                    return SymStr(w)
                return SymStr(z3.StringVal(""))
            a = self._pos(k.start, z3.IntVal(0))
            b = self._pos(k.stop, n)
            return SymStr(z3.SubString(self._z, a, z3.If(b > a, b - a, z3.IntVal(0))))
        v = _num(k)
        v = z3.IntVal(v) if isinstance(v, int) else v
        i = z3.If(v < 0, n + v, v)
        if not ctx().branch(z3.And(i >= 0, i < n)):
            raise IndexError("string index out of range")
        return SymStr(z3.SubString(self._z, i, z3.IntVal(1)))

    def endswith(self, s):
        if isinstance(s, tuple):
            return bor(*[self.endswith(x) for x in s])
        ts = ctx().data.setdefault("tails", [])
        if isinstance(s, str) and s not in ts:
            ts.append(s)
        return mk(z3.SuffixOf(self._o(s), self._z))

    def startswith(self, s):
        if isinstance(s, tuple):
            return bor(*[self.startswith(x) for x in s])
        return mk(z3.PrefixOf(self._o(s), self._z))

    def removesuffix(self, s):
        if len(s) and self.endswith(s):
            return self[:-len(s)]
        return self

    def __contains__(self, s):
        return ctx().branch(z3.Contains(self._z, self._o(s)))

    def __str__(self):
        return "<symstr>"

    def __repr__(self):
        return "<symstr %s>" % self._z

    def __format__(self, spec):
        return "<symstr>"

    def __mod__(self, o):
        raise Unsupported("formatting of a symbolic string")

    def strip(self, *a):
        raise Unsupported("strip")


class SymTail(SymStr):
    """the last k characters of a string"""

    def __init__(self, base, k):
        self.base, self.k = base, k
        n = z3.Length(base._z)
        SymStr.__init__(self, z3.If(n < k, base._z, z3.SubString(base._z, n - k, z3.IntVal(k))))

    def __eq__(self, o):
        if isinstance(o, str) and len(o) == self.k:
            ts = ctx().data.setdefault("tails", [])
            if o not in ts:
                ts.append(o)
            return mk(z3.SuffixOf(z3.StringVal(o), self.base._z))
        return SymStr.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return bnot(r)

    __hash__ = SymStr.__hash__


# ---------------------------------------------------------------- constructors
def Int(name=None, **kw):
    return SymInt(z3.Int(name or ctx().fresh("i")))


def Real(name=None):
    return SymReal(z3.Real(name or ctx().fresh("r")))


def Bool(name=None):
    return SymBool(z3.Bool(name or ctx().fresh("b")))


def Str(name=None):
    return SymStr(z3.String(name or ctx().fresh("s")))


def zint(x):
    n = _num(x)
    return z3.IntVal(n) if isinstance(n, int) else n


def zreal(x):
    n = _num(x)
    if n is None:
        raise Unsupported("not a number: %r" % (x,))
    return _real(n)


def is_sym(x):
    return isinstance(x, (SymBool, SymNum, SymStr))


def conc(x):
    """concrete python value of a scalar, or None"""
    if isinstance(x, (int, float, str, bool, Fraction)):
        return x
    if is_sym(x):
        s = z3.simplify(x._z)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return None
