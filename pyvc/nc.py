"""Matrix back end: equality of matrix expressions with symbolic dimensions.

A matrix block is a non-commutative polynomial over atoms (named matrices, their
transposes, row/column ranges and inverses), with rational or symbolic scalar
coefficients.  An equality is discharged by reducing the difference to the zero
polynomial, modulo inv(p) p = p inv(p) = 1 and the equations that the contract
declares for its atoms (oriented into rewrite rules).  Every rewriting step is a
ring identity that holds for all dimensions, so a zero normal form is a proof;
a non-zero one is a failure to prove.
"""
from fractions import Fraction
import z3
from .core import ctx, Unsupported, STATS
from .sym import SymNum, _num, _real

TERMS = {}          # index key -> z3 term (or int)
INVS = {}           # inverse key -> poly (argument)


def ikey(t):
    """hashable key of an integer term"""
    if isinstance(t, SymNum):
        t = t._z
    if isinstance(t, bool):
        t = int(t)
    if isinstance(t, int):
        return t
    s = z3.simplify(t, som=True)
    if z3.is_int_value(s):
        return s.as_long()
    k = "@" + s.sexpr()
    TERMS[k] = s
    return k


def iterm(k):
    return z3.IntVal(k) if isinstance(k, int) else TERMS[k]


# factor: ('A', name, idx, T, rows, cols) | ('I', key, (), T, rows, cols)
def atom(name, idx=(), T=False, rows=None, cols=None):
    return ("A", name, tuple(ikey(i) for i in idx), T, rows, cols)


def f_T(f):
    if f[0] == "A":
        info = SYMMETRIC.get(f[1])
        if info:
            # a symmetric matrix: transposition swaps the ranges only
            return ("A", f[1], f[2], f[3], f[5], f[4])
        return ("A", f[1], f[2], not f[3], f[5], f[4])
    return ("I", f[1], (), not f[3], f[5], f[4])


SYMMETRIC = {}


def m_T(m):
    return tuple(f_T(f) for f in reversed(m))


def c_zero(c):
    if isinstance(c, Fraction):
        return c == 0
    return False


def c_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return z3.simplify(_z(a) + _z(b))


def c_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    if isinstance(a, Fraction):
        a, b = b, a
    if isinstance(b, Fraction):
        if b == 1:
            return a
        if b == 0:
            return Fraction(0)
    return z3.simplify(_z(a) * _z(b))


def _z(c):
    return z3.RealVal(c) if isinstance(c, Fraction) else c


def coef(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    if isinstance(x, float):
        return Fraction(repr(x))
    n = _num(x)
    if n is None:
        raise Unsupported("scalar coefficient %r" % (x,))
    if isinstance(n, int):
        return Fraction(n)
    s = z3.simplify(_real(n))
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return s


class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def one():
        return Poly({(): Fraction(1)})

    @staticmethod
    def of(f):
        return Poly({(f,): Fraction(1)})

    def add(self, o, s=Fraction(1)):
        t = dict(self.t)
        for m, c in o.t.items():
            c = c_mul(c, s)
            if m in t:
                c = c_add(t[m], c)
            if c_zero(c):
                t.pop(m, None)
            else:
                t[m] = c
        return Poly(t)

    def scale(self, s):
        return Poly({m: c_mul(c, s) for m, c in self.t.items() if not c_zero(c_mul(c, s))})

    def mul(self, o):
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = m1 + m2
                c = c_mul(c1, c2)
                if m in r:
                    c = c_add(r[m], c)
                if c_zero(c):
                    r.pop(m, None)
                else:
                    r[m] = c
        return Poly(r)

    def T(self):
        r = {}
        for m, c in self.t.items():
            mt = m_T(m)
            r[mt] = c_add(r[mt], c) if mt in r else c
        return Poly(r)

    @property
    def is_zero(self):
        return not self.t

    def key(self):
        return tuple(sorted(((m, str(c)) for m, c in self.t.items()), key=repr))

    def __repr__(self):
        if not self.t:
            return "0"
        return " + ".join(sorted("%s%s" % ("" if c == Fraction(1) else "(%s)*" % c, mono_str(m))
                                 for m, c in self.t.items()))

    def factors(self):
        for m in self.t:
            for f in m:
                yield f


def mono_str(m):
    if not m:
        return "1"
    out = []
    for f in m:
        if f[0] == "A":
            s = f[1]
            if f[2]:
                s += "[%s]" % ",".join(str(i).lstrip("@") for i in f[2])
            if f[4] or f[5]:
                rng = lambda r: "" if r is None else "%s..%s" % (str(r[0]).lstrip("@"), str(r[1]).lstrip("@"))
                s += "{%s;%s}" % (rng(f[4]), rng(f[5]))
            out.append(s + ("'" if f[3] else ""))
        else:
            out.append("inv(%s)%s%s" % (INVS[f[1]], "{%s;%s}" % (f[4], f[5]) if f[4] or f[5] else "", "'" if f[3] else ""))
    return "*".join(out)


def inv(p):
    """inverse of a square block (assumed non-singular where the code inverts it)"""
    p = reduce(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if m == ():
            return Poly({(): 1 / c if isinstance(c, Fraction) else coef(1 / _z(c))})
    # try to recognise the inverse of an inverse
    if len(p.t) == 1 and isinstance(c, Fraction) and len(m) == 1 and m[0][0] == "I" and not m[0][4] and not m[0][5]:
        q = INVS[m[0][1]]
        return (q.T() if m[0][3] else q).scale(1 / c)
    # canonical orientation: transpose if that is the smaller key
    k, kt = p.key(), p.T().key()
    if repr(kt) < repr(k):
        INVS[kt] = p.T()
        return Poly({(("I", kt, (), True, None, None),): Fraction(1)})
    INVS[k] = p
    return Poly({(("I", k, (), False, None, None),): Fraction(1)})


def mono_order(m):
    """elimination order: rank of the atoms the contract asked to eliminate, then degree, then lex"""
    rank = getattr(_ctx_or_none(), "rank", None) or {}
    s = 0
    for f in m:
        if f[0] == "A":
            s += rank.get(f[1], 0)
    return (s, len(m), repr(m))


def _ctx_or_none():
    from . import core
    return core.CTX


def lead(p):
    m = max(p.t, key=mono_order)
    c = p.t[m]
    if not isinstance(c, Fraction):
        raise Unsupported("symbolic leading coefficient")
    rest = Poly({k: v for k, v in p.t.items() if k != m})
    return m, c, rest


def _inv_rules(p):
    """rules  inv(q)*lm -> (1 - inv(q)*rest)/lc   and the mirror image, for inverses in p"""
    rules = []
    seen = set()
    todo = [f for f in p.factors() if f[0] == "I"]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        q = INVS[f[1]]
        todo += [g for g in q.factors() if g[0] == "I"]
        if f[4] or f[5]:
            f = ("I", f[1], (), f[3], None, None)
            seen.add(f)
        if f[3]:
            q = q.T()
        try:
            m, c, rest = lead(q)
        except Unsupported:
            continue
        fi = Poly.of(f)
        rules.append(((f,) + m, Poly.one().add(fi.mul(rest), Fraction(-1)).scale(1 / c)))
        rules.append((m + (f,), Poly.one().add(rest.mul(fi), Fraction(-1)).scale(1 / c)))
    return rules


def find(m, pat):
    n, k = len(m), len(pat)
    for i in range(n - k + 1):
        if m[i:i + k] == pat:
            return i
    return -1


def _is(f, name, T):
    return f[0] == "A" and f[1] == name and f[3] == T and f[4] is None and f[5] is None


def drop_ones(p):
    """ones' e_i = e_i' ones = 1 (indices are in range: checked where they are formed)"""
    if not any(f[0] == "A" and f[1] == "ones" for m in p.t for f in m):
        return p
    out = Poly()
    for m, co in p.t.items():
        i = 0
        m = list(m)
        while i + 1 < len(m):
            a, b = m[i], m[i + 1]
            if (_is(a, "ones", True) and _is(b, "e", False)) or (_is(a, "e", True) and _is(b, "ones", False)):
                del m[i:i + 2]
                i = 0
            else:
                i += 1
        out = out.add(Poly({tuple(m): co}))
    return out


def reduce(p, extra=()):
    p = drop_ones(p)
    c = _ctx_or_none()
    base = list(getattr(c, "rules", ()) or ()) + list(extra)
    for _ in range(400):
        rules = base + _inv_rules(p)
        changed = False
        out = Poly()
        for m, co in p.t.items():
            for pat, rhs in rules:
                i = find(m, pat)
                if i >= 0:
                    pre = Poly({m[:i]: co})
                    post = Poly({m[i + len(pat):]: Fraction(1)})
                    out = out.add(pre.mul(rhs).mul(post))
                    changed = True
                    break
            else:
                out = out.add(Poly({m: co}))
        p = out
        if not changed:
            return p
    raise Unsupported("rewriting did not terminate")


def add_rule(lhs, rhs):
    """declare lhs == rhs (polynomials); oriented by the monomial order of the context"""
    d = lhs.add(rhs, Fraction(-1))
    if d.is_zero:
        return
    for q in (d, d.T()):
        m, c, rest = lead(q)
        r = (m, rest.scale(Fraction(-1) / c))
        if r not in ctx().rules:
            ctx().rules.append(r)


def subst_idx(p, mp):
    def sub(k):
        return mp.get(k, k)

    def rng(r):
        return None if r is None else (sub(r[0]), sub(r[1]))

    def ff(f):
        if f[0] == "A":
            return ("A", f[1], tuple(sub(i) for i in f[2]), f[3], rng(f[4]), rng(f[5]))
        q = subst_idx(INVS[f[1]], mp)
        k = q.key()
        INVS[k] = q
        return ("I", k, (), f[3], rng(f[4]), rng(f[5]))
    out = Poly()
    for m, co in p.t.items():
        out = out.add(Poly({tuple(ff(f) for f in m): co}))
    return out


def idx_keys(p, acc=None):
    acc = set() if acc is None else acc
    for f in p.factors():
        acc.update(i for i in f[2])
        for r in (f[4], f[5]):
            if r:
                acc.update(r)
        if f[0] == "I":
            idx_keys(INVS[f[1]], acc)
    return acc


def canon(p):
    """merge index terms that are equal under the path condition"""
    ks = [k for k in idx_keys(p)]
    if len(ks) < 2:
        return p
    ks.sort(key=lambda k: (not isinstance(k, int), len(str(k)), str(k)))
    reps, mp = [], {}
    c = ctx()
    for k in ks:
        for r in reps:
            if isinstance(k, int) and isinstance(r, int):
                continue
            if c.entails(iterm(k) == iterm(r)):
                mp[k] = r
                break
        else:
            reps.append(k)
    return subst_idx(p, mp) if mp else p


def is_zero(p):
    """p == 0, provably"""
    if p.is_zero:
        return True
    p = reduce(p)
    if p.is_zero:
        return True
    p = reduce(canon(p))
    if p.is_zero:
        return True
    # symbolic coefficients: ask the scalar solver
    c = ctx()
    for m, co in list(p.t.items()):
        if isinstance(co, Fraction):
            return False
        if not c.entails(co == 0):
            return False
    return True
