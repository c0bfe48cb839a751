"""C19: parallel preprocessing equals sequential preprocessing, for every schedule"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx
from pyvc.loader import Program, Obj
from pyvc.sym import Int, band, zint, zreal, mk
from .engine_spec import Sys, forecast_candidates
from .c02 import same, at, post
from .c03 import family_tables

ASSUMPTIONS = [
    "numba runs the iterations of a prange loop in any order and interleaving, with variables assigned in the body private to the iteration; everything outside prange is sequential",
    "numba's array operations inside an iteration (matrix products, slices) touch only their operands",
    "real arithmetic in place of floating point (numba may reassociate differently in the two variants)",
]
BUDGET = 150


def tables(name):
    """the variant `name` computes the specified tables, and its parallel iterations do not interfere"""
    def run(p):
        Y = Sys(p)
        p.data["bounds"] = "table access in range"
        m = Program().load("engine")
        u.loops = forecast_candidates(Y)
        f = getattr(m, name)
        S, T, V, W, h = Y.S, Y.T, Y.V, Y.W, Y.h
        r = f(S, T, V, W, h, Y.fq1, Y.fp1, Y.fq0, Y.omg, Y.lam, Y.x_bar, Y.lm, Y.km)
        post(p, Y, r[0], r[1], r[2], r[3])
        l, k = Int("lf"), Int("kf")
        p.assume(band(l >= 0, l <= Y.lm, k >= 0, k <= Y.km))
        for j, guard in ((0, True), (1, l >= 1), (2, True), (3, l + k >= 1), (4, True)):
            if guard is not True and not p.branch(guard):
                continue
            row, con = Y.forecast(Y.position(j, l, k), l, k)
            same(p, at(r[4], j, l, k), row, "%s: forecast rows" % name)
            same(p, r[5].elem(j, l, k), con, "%s: forecast constants" % name)
    u = Unit(name, run, functions=["engine." + name])
    return u


def units(modular=True):
    out = []

    def variants(p):
        m = Program().load("engine")
        p.data["same"] = m.preprocess_jit is m.preprocess_jit_parallel
        p.prove(callable(m.preprocess_jit) and callable(m.preprocess_jit_parallel), "both variants exist")
    out.append(Unit("variants", variants, functions=["engine.preprocess_jit", "engine.preprocess_jit_parallel"]))
    out.append(tables("preprocess_jit_parallel"))
    m = Program().load("engine")
    if m.preprocess_jit is not m.preprocess_jit_parallel:
        out.append(tables("preprocess_jit"))

    def tmats(p):
        Y = Sys(p)
        p.data["bounds"] = "table access in range"
        m = Program().load("engine")
        u2.loops = forecast_candidates(Y)
        PM, QM, PT, QT = family_tables(Y)
        tmat, tterm = m.preprocess_tmats_jit(PM, PT, QM, QT, Y.fq1, Y.fp1, Y.fq0, Y.omg, Y.lm, Y.km)
        s, l, k = Int("s"), Int("l"), Int("k")
        p.assume(band(l >= 0, l <= Y.lm, k >= 0, k <= Y.km, s >= 0, s < Y.lm + Y.km + 2))
        row, con = Y.forecast(s, l, k)
        same(p, at(tmat, s, l, k), row, "trajectory rows")
        same(p, tterm.elem(s, l, k), con, "trajectory constants")
    u2 = Unit("preprocess_tmats_jit", tmats, functions=["engine.preprocess_tmats_jit"])
    out.append(u2)

    def dispatch(p):
        """the option selects the variant; both get the same arguments and their result is kept"""
        prog = Program()
        m = prog.load("engine")
        Y = Sys(p)
        o = Obj()
        o.lks, o.sys = (Y.lm, Y.km), (Y.omg, Y.lam, Y.x_bar)
        new = tuple(object() for _ in range(6))
        log = []

        def pre(name):
            def f(*a):
                log.append((name, a))
                return new
            return f
        m.preprocess_jit = pre("sequential")
        m.preprocess_jit_parallel = pre("parallel")
        par = bool(p.choose(".par"))
        m.preprocess(o, Y.S, Y.T, Y.V, Y.W, Y.h, Y.fq1, Y.fp1, Y.fq0, par, False)
        want = (Y.S, Y.T, Y.V, Y.W, Y.h, Y.fq1, Y.fp1, Y.fq0, Y.omg, Y.lam, Y.x_bar, Y.lm, Y.km)
        p.prove(len(log) == 1 and len(log[0][1]) == len(want)
                and all(a is b or arr.arr_equal(a, b) for a, b in zip(log[0][1], want)),
                "both variants are called with the same arguments")
        p.prove(tuple(o.precalc_mat) == new, "the model holds the result of the variant")
    out.append(Unit("preprocess", dispatch, functions=["engine.preprocess"]))
    return out
