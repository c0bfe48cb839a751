"""C04: one transition applies the rule of the right regime to the right blocks"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx
from pyvc.loader import Program, Obj
from pyvc.sym import Int, Real, band, zint, zreal, mk
from pyvc.arr import matmul as mm
from .c02 import same, at

ASSUMPTIONS = [
    "the regime search returns a tabulated regime and a flag (proved in C01); the tables are those of C02",
    "numba compiles the verified Python source faithfully; real arithmetic in place of floating point",
]


class M:
    """a compiled model with symbolic dimensions: the full vector is controls stacked with states (without shocks)"""

    def __init__(self, p, obs=True):
        self.ds, self.de, self.dp, self.no = Int("dimstates"), Int("dimeps"), Int("dimp"), Int("nobs")
        p.assume(band(self.ds >= 1, self.de >= 1, self.dp >= 1, self.no >= 1))
        self.dq = self.ds + self.de
        self.L, self.K = Int("n_l"), Int("n_k")
        p.assume(band(self.L >= 1, self.K >= 1))
        ds, de, dp, dq, L, K = self.ds, self.de, self.dp, self.dq, self.L, self.K
        self.pmat = arr.family("PM", (L, K, dp, dq), 2)
        self.pterm = arr.family("PT", (L, K, dp), 2)
        self.qmat = arr.family("QM", (L, K, dq, dq), 2)
        self.qterm = arr.family("QT", (L, K, dq), 2)
        self.bmat = arr.family("BM", (5, L, K, dq), 3)
        self.bterm = arr.el_array("BT", (5, L, K))
        self.x_bar = Real("x_bar")
        self.hx = (arr.mat("hx0", self.no, dp), arr.mat("hx1", self.no, ds), arr.vec("hx2", self.no))
        self.omg, self.lam = arr.mat("omg", dp, dq), arr.mat("lam", dq, dq)
        self.lf, self.kf, self.ff = Int("l_found"), Int("k_found"), Int("flag_found")
        p.assume(band(self.lf >= 0, self.lf < L, self.kf >= 0, self.kf < K, self.ff >= 0, self.ff <= 2))
        self.frozen = [self.pmat, self.pterm, self.qmat, self.qterm, self.bmat, self.bterm, self.omg, self.lam] + list(self.hx)

    def obj(self):
        o = Obj()
        o.sys = (self.omg, self.lam, self.x_bar)
        o.precalc_mat = (self.pmat, self.qmat, self.pterm, self.qterm, self.bmat, self.bterm)
        o.hx = self.hx
        o.neps = o.dimeps = self.de
        o.dimp, o.dimq, o.dimx = self.dp, self.dq, self.dp + self.ds
        o.nvar = o.dimx
        o.lks = (self.L - 1, self.K - 1)
        o.debug = False
        return o

    def rule(self, l, k, s):
        P, Q = at(self.pmat, l, k), at(self.qmat, l, k)
        return mm(P, s) + at(self.pterm, l, k), (mm(Q, s) + at(self.qterm, l, k))[: self.ds]

    def find_lk(self, p, states, shocks):
        def f(b, t, x, q):
            p.prove(b is self.bmat and t is self.bterm and x is self.x_bar, "the search uses the current tables and bound")
            same(p, q, arr.hstack([states, shocks]), "the search uses last period's states stacked with this period's shocks")
            return self.lf, self.kf, self.ff
        return f


def units(modular=True):
    out = []

    def jit(p):
        prog = Program()
        m = prog.load("engine")
        Y = M(p)
        p.data["bounds"] = "table access in range"
        st, sh = arr.vec("state", Y.ds), arr.vec("shocks", Y.de)
        if hasattr(m, "find_lk"):
            prog.override("engine", "find_lk", Y.find_lk(p, st, sh))
        sl, sk = Int("set_l"), Int("set_k")
        p.assume(band(sl >= -1, sl < Y.L, sk >= -1, sk < Y.K, mk((sl._z == -1) == (sk._z == -1))))
        xs = bool(p.choose("x_space"))
        seen = p.watch()
        pobs, q, l, k, flag = m.t_func_jit(Y.pmat, Y.pterm, Y.qmat[:, :, :-Y.de], Y.qterm[..., :-Y.de], Y.bmat, Y.bterm,
                                           Y.x_bar, *Y.hx, st, sh, sl, sk, xs)
        p.prove_frame(seen, Y.frozen + [st, sh], "neither inputs nor tables are modified")
        endo = p.branch(sk._z == -1)
        wl, wk, wf = (Y.lf, Y.kf, Y.ff) if endo else (sl, sk, 0)
        p.prove(z3.And(zint(l) == zint(wl), zint(k) == zint(wk)), "regime is the one found, or the one imposed")
        p.prove(zint(flag) == zint(wf), "flag is that of the search, and 0 if the regime is imposed")
        P, Q = Y.rule(wl, wk, arr.hstack([st, sh]))
        same(p, q, Q, "states are the rule of the regime applied to states and shocks")
        if xs:
            same(p, pobs, mm(Y.hx[0], P) + mm(Y.hx[1], Q) + Y.hx[2], "observables are the observation equation of controls and states")
        else:
            same(p, pobs, P, "controls are the rule of the regime applied to states and shocks")
    out.append(Unit("t_func_jit", jit, functions=["engine.t_func_jit"]))

    def tf(p, more=False):
        prog = Program()
        m = prog.load("tools")
        Y = M(p)
        o = Y.obj()
        before = dict(o._pv_fields())
        p.data["bounds"] = "table access in range"
        full = bool(p.choose("full"))
        pc, st = arr.vec("controls", Y.dp), arr.vec("state", Y.ds)
        state = arr.hstack([pc, st]) if full else st
        given = bool(p.choose("shocks"))
        sh = arr.vec("shocks", Y.de) if given else arr.zeros((Y.de,))
        reg = Int("regime_l"), Int("regime_k")
        p.assume(band(reg[0] >= 0, reg[0] < Y.L, reg[1] >= 0, reg[1] < Y.K))
        kw = {}
        if more:
            # other ways to ask for a regime
            if p.choose("integer"):     # a duration only: no waiting time
                p.assume(reg[1] >= 1)
                kw["set_k"] = reg[1]
                wl, wk, wf = 0, reg[1], 0
            else:
                kw["set_k"] = True
                wl, wk, wf = Y.lf, Y.kf, Y.ff
        elif p.choose("linear"):
            kw["linear"] = True
            wl, wk, wf = 0, 0, 0
            if p.choose("both"):
                kw["set_k"] = reg
        elif p.choose("imposed"):
            kw["set_k"] = reg
            wl, wk, wf = reg[0], reg[1], 0
        else:
            if p.choose("none"):
                kw["set_k"] = None if p.choose("None") else False
            wl, wk, wf = Y.lf, Y.kf, Y.ff
        get_obs = bool(p.choose("obs"))
        if get_obs:
            kw["get_obs"] = True
        ret = 0
        if more or p.choose("return_k"):
            kw["return_k"] = True
            ret = 2
        elif p.choose("return_flag"):
            ret = 1
            if p.choose("explicit"):
                kw["return_flag"] = True
        else:
            kw["return_flag"] = False
        eng = prog.load("engine")
        if modular:
            def stub(pm, pt, qm, qt, bm, bt, xb, h0, h1, h2, s, e, set_l, set_k, x_space):
                ok = pm is Y.pmat and pt is Y.pterm and bm is Y.bmat and bt is Y.bterm and xb is Y.x_bar \
                    and (h0, h1, h2) == Y.hx
                p.prove(ok, "precondition of the transition: current tables, bound and observation matrices")
                a, b = Int("any_l"), Int("any_k")
                p.assume(band(a >= 0, a < Y.L, b >= 0, b < Y.K))
                same(p, at(qm, a, b), at(Y.qmat, a, b)[: Y.ds], "precondition of the transition: rows of the states only")
                same(p, at(qt, a, b), at(Y.qterm, a, b)[: Y.ds], "precondition of the transition: constants of the states only")
                same(p, s, st, "precondition of the transition: last period's states")
                same(p, e, sh, "precondition of the transition: this period's shocks, zero if none are given")
                endo = p.branch(zint(set_k) == -1)
                if not endo:
                    p.prove(z3.And(zint(set_l) >= 0, zint(set_l) < zint(Y.L), zint(set_k) >= 0, zint(set_k) < zint(Y.K)),
                            "precondition of the transition: imposed regime is tabulated")
                l, k, f = (Y.lf, Y.kf, Y.ff) if endo else (set_l, set_k, 0)
                P, Q = Y.rule(l, k, arr.hstack([st, sh]))
                return (mm(h0, P) + mm(h1, Q) + h2 if x_space else P), Q, l, k, f
            prog.override("engine", "t_func_jit", stub)
        elif hasattr(eng, "find_lk"):
            prog.override("engine", "find_lk", Y.find_lk(p, st, sh))
        seen = p.watch()
        r = m.t_func(o, state, sh if given else None, **kw)
        new = r if ret == 0 else r[0]
        p.prove(ret == 0 or len(r) == ret + 1, "returned items are those asked for")
        if ret:
            p.prove(zint(r[-1]) == zint(wf), "flag is that of the search, and 0 if the regime is imposed or linear")
        if ret == 2:
            p.prove(z3.And(zint(r[1][0]) == zint(wl), zint(r[1][1]) == zint(wk)),
                    "regime is (0,0) if linear, the imposed one, or the one found")
        P, Q = Y.rule(wl, wk, arr.hstack([st, sh]))
        if get_obs:
            same(p, new[0], Q, "states next to the observables")
            same(p, new[1], mm(Y.hx[0], P) + mm(Y.hx[1], Q) + Y.hx[2], "observables are the observation equation of controls and states")
        else:
            same(p, new, arr.hstack([P, Q]), "new state is controls stacked with states of the regime's rule")
        after = o._pv_fields()
        p.prove(set(after) == set(before) and all(after[k] is before[k] for k in before), "the model is not modified")
        p.prove_frame(seen, Y.frozen + [o, state, sh], "neither inputs nor tables are modified")
    out.append(Unit("t_func", tf, functions=["tools.t_func"]))
    out.append(Unit("t_func (durations and flags for a regime)", lambda p: tf(p, True), functions=["tools.t_func"]))
    return out
