"""C03: forecast tables and trajectories are the expected path under the regime, and never stale"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx
from pyvc.loader import Program, Obj
from pyvc.sym import Int, band, zint, zreal, mk
from .engine_spec import Sys, forecast_candidates, loc, prev
from .c02 import same, at

ASSUMPTIONS = [
    "the regime tables satisfy C02 (proved there, re-proved here as loop invariants of the same run)",
    "numpy.linalg.inv returns the inverse; real arithmetic in place of floating point",
]


def family_tables(Y):
    L, K = Y.lm + 1, Y.km + 1
    f = lambda n, tail: arr.family(n, (L, K) + tail, 2)
    return (f("PM", (Y.dp, Y.dq)), f("QM", (Y.dq, Y.dq)), f("PT", (Y.dp,)), f("QT", (Y.dq,)))


def units(modular=True):
    out = []

    def tables(p):
        Y = Sys(p)
        p.data["bounds"] = "table access in range"
        m = Program().load("engine")
        u.loops = forecast_candidates(Y)
        r = m.preprocess_jittable(Y.S, Y.T, Y.V, Y.W, Y.h, Y.fq1, Y.fp1, Y.fq0, Y.omg, Y.lam, Y.x_bar, Y.lm, Y.km)
        bmat, bterm = r[4], r[5]
        L, K = Y.lm + 1, Y.km + 1
        p.prove(bterm.ndim == 3 and all(arr.deq(x, y) for x, y in zip(bterm.shape, (5, L, K))), "five positions for all regimes")
        p.prove(bmat.ndim == 4 and all(arr.deq(x, y) for x, y in zip(bmat.shape, (5, L, K, Y.dq))), "five rows for all regimes")
        l, k = Int("l"), Int("k")
        p.assume(band(l >= 0, l < L, k >= 0, k < K))
        # position 1 exists for l>=1, position 3 for l+k>=1 (the search consults 1 for l>=2 and 3 for k>=2 only)
        for j, guard, name in ((0, True, "now"), (1, l >= 1, "period before the spell"), (2, True, "first period of the spell"),
                               (3, l + k >= 1, "last period of the spell"), (4, True, "first period after the spell")):
            if guard is not True and not p.branch(guard):
                continue
            s = Y.position(j, l, k)
            row, con = Y.forecast(s, l, k)
            same(p, at(bmat, j, l, k), row, "forecast row: %s" % name)
            same(p, bterm.elem(j, l, k), con, "forecast constant: %s" % name)
    u = Unit("preprocess_jittable/forecasts", tables, functions=["engine.preprocess_jittable"])
    out.append(u)

    def tmats(p):
        Y = Sys(p)
        p.data["bounds"] = "table access in range"
        m = Program().load("engine")
        u2.loops = forecast_candidates(Y)
        PM, QM, PT, QT = family_tables(Y)
        tmat, tterm = m.preprocess_tmats_jit(PM, PT, QM, QT, Y.fq1, Y.fp1, Y.fq0, Y.omg, Y.lm, Y.km)
        L, K = Y.lm + 1, Y.km + 1
        s, l, k = Int("s"), Int("l"), Int("k")
        p.assume(band(l >= 0, l < L, k >= 0, k < K, s >= 0, s < L + K))
        row, con = Y.forecast(s, l, k)
        p.prove(tmat.ndim == 4 and arr.deq(tmat.shape[0], L + K), "trajectories reach beyond the end of every spell")
        same(p, at(tmat, s, l, k), row, "trajectory row in every period of every regime")
        same(p, tterm.elem(s, l, k), con, "trajectory constant in every period of every regime")
    u2 = Unit("preprocess_tmats_jit", tmats, functions=["engine.preprocess_tmats_jit"])
    out.append(u2)

    def lemma(p):
        """the regime used s periods ahead is the iterated 'one period later'"""
        Program().load("engine")
        s, l, k = Int("s"), Int("l"), Int("k")
        p.assume(band(s >= 0, l >= 0, k >= 0))
        a, b = loc(0, l, k)
        p.prove(z3.And(a == l._z, b == k._z), "path of regimes starts at (l,k)")
        a, b = loc(s, l, k)
        c, d = loc(s + 1, l, k)
        e, f = prev(a, b)
        p.prove(z3.And(c == e, d == f), "path of regimes moves one period closer to the end each period")
        p.prove(z3.Implies(s._z >= l._z + k._z, z3.And(a == 0, b == 0)), "path of regimes ends in the unconstrained regime")
    out.append(Unit("path of regimes", lemma, functions=["specification lemma"]))

    # ---------------------------------------------------------------- trajectories of the model object
    def model(p, prog, calls, has_tmat=None):
        """a model object after compilation, with or without trajectory tables"""
        Y = Sys(p)
        o = Obj()
        o.lks = (Y.lm, Y.km)
        o.sys = (Y.omg, Y.lam, Y.x_bar)
        o.ff = (Y.fq1, Y.fp1, Y.fq0)
        PM, QM, PT, QT = family_tables(Y)
        L, K = Y.lm + 1, Y.km + 1
        bmat = arr.family("BM", (5, L, K, Y.dq), 3)
        bterm = arr.el_array("BT", (5, L, K))
        o.precalc_mat = (PM, QM, PT, QT, bmat, bterm)
        tm, tt = arr.family("TM", (L + K, L, K, Y.dq), 3), arr.el_array("TT", (L + K, L, K))
        lf, kf, ff = Int("l_found"), Int("k_found"), Int("flag_found")
        p.assume(band(lf >= 0, lf < L, kf >= 0, kf < K, ff >= 0, ff <= 2))
        state = arr.vec("state", Y.dq)

        def find_lk(b, t, x, q):
            p.prove(b is bmat and t is bterm and x is Y.x_bar and q is state,
                    "the regime is searched for this state with the current tables")
            calls.append("search")
            return lf, kf, ff

        def tmats(pm, pt, qm, qt, fq1, fp1, fq0, omg, l_max, k_max):
            ok = pm is PM and pt is PT and qm is QM and qt is QT and fq1 is Y.fq1 and fp1 is Y.fp1 and fq0 is Y.fq0 \
                and omg is Y.omg and arr.arr_equal(l_max, Y.lm) and arr.arr_equal(k_max, Y.km)
            p.prove(ok, "precondition of the trajectory tables: current tables, dimensions and constraint")
            calls.append("tmats")
            return tm, tt
        for mod in ("engine", "tools"):
            m = prog.load(mod)
            if hasattr(m, "find_lk"):
                prog.override(mod, "find_lk", find_lk)
            if hasattr(m, "preprocess_tmats_jit"):
                prog.override(mod, "preprocess_tmats_jit", tmats)
        if has_tmat:
            o.precalc_tmat = (tm, tt)
        return Y, o, state, (lf, kf), (tm, tt)

    def traj(p):
        prog = Program()
        m = prog.load("tools")
        calls = []
        cached = p.choose(".cached")
        given = p.choose(".given")
        Y, o, state, found, (tm, tt) = model(p, prog, calls, cached)
        p.data["bounds"] = "table access in range"
        if given:
            l, k = Int("l"), Int("k")
            p.assume(band(l >= 0, l <= Y.lm, k >= 0, k <= Y.km))
            r = m.traj(o, state, l=l, k=k, verbose=False)
        else:
            l, k = found
            r = m.traj(o, state, verbose=False)
        p.prove(("tmats" in calls) == (not cached), "tables are computed exactly if there are none for the current system")
        s = Int("s")
        p.assume(band(s >= 0, s < Y.lm + Y.km + 2))
        want = mk(zreal(arr.matmul(arr.atom_value("TM", (s, l, k), (Y.dq,)), state)) + zreal(tt.elem(s, l, k)))
        p.prove(r.ndim == 1 and arr.deq(r.shape[0], Y.lm + Y.km + 2), "one value per period")
        same(p, r.elem(s), want, "trajectory of the state under the requested (or found) regime")
    out.append(Unit("traj", traj, functions=["tools.traj"]))

    def k_map(p):
        prog = Program()
        m = prog.load("tools")
        calls = []
        cached = p.choose(".cached")
        given = p.choose(".given")
        Y, o, state, found, (tm, tt) = model(p, prog, calls, cached)
        p.data["bounds"] = "table access in range"
        if given:
            l, k = Int("l"), Int("k")
            p.assume(band(l >= 0, l <= Y.lm, k >= 0, k <= Y.km))
            LS, KS = m.k_map(o, state, l=l, k=k, verbose=False)
        else:
            l, k = found
            LS, KS = m.k_map(o, state, verbose=False)
        val = lambda s, a, b: mk(zreal(arr.matmul(arr.atom_value("TM", (s, a, b), (Y.dq,)), state)) + zreal(tt.elem(s, a, b)) - zreal(Y.x_bar))
        i = Int("i")
        if p.choose(".first"):
            p.assume(band(i >= 0, i < Y.lm))
            p.prove(arr.deq(LS.shape[0], Y.lm), "one distance per waiting time")
            same(p, LS.elem(i), val(i + k, i, k), "distance to the bound after the spell, by waiting time")
        else:
            p.assume(band(i >= 0, i < Y.km))
            p.prove(arr.deq(KS.shape[0], Y.km), "one distance per duration")
            same(p, KS.elem(i), val(l + i, l, i), "distance to the bound after the spell, by duration")
    out.append(Unit("k_map", k_map, functions=["tools.k_map"]))

    def stale(p):
        """recompiling drops trajectory tables of the previous system"""
        prog = Program()
        m = prog.load("engine")
        Y = Sys(p)
        o = Obj()
        o.lks = (Y.lm, Y.km)
        o.sys = (Y.omg, Y.lam, Y.x_bar)
        new = tuple(object() for _ in range(6))
        log = []

        def pre(name):
            def f(*a):
                log.append((name, a))
                return new
            return f
        prog.override("engine", "preprocess_jit", pre("seq"))
        prog.override("engine", "preprocess_jit_parallel", pre("par"))
        if p.choose(".old"):
            o.precalc_tmat = ("old", "old")
            o.precalc_mat = ("old",) * 6
        par = bool(p.choose(".par"))
        m.preprocess(o, Y.S, Y.T, Y.V, Y.W, Y.h, Y.fq1, Y.fp1, Y.fq0, par, False)
        p.prove(len(log) == 1 and log[0][0] == ("par" if par else "seq"), "the requested variant runs once")
        want = (Y.S, Y.T, Y.V, Y.W, Y.h, Y.fq1, Y.fp1, Y.fq0, Y.omg, Y.lam, Y.x_bar, Y.lm, Y.km)
        p.prove(len(log[0][1]) == len(want) and all(a is b or arr.arr_equal(a, b) for a, b in zip(log[0][1], want)),
                "the tables are computed from the current system and maximal durations")
        p.prove(o.precalc_mat is new or tuple(o.precalc_mat) == new, "the model holds the new tables")
        t = getattr(o, "precalc_tmat", None)
        p.prove(t is None, "no trajectory tables of a previous system survive")
    out.append(Unit("preprocess", stale, functions=["engine.preprocess"]))
    return out
