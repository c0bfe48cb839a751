"""C02: the regime decision rules solve the equilibrium equations of their regime"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx
from pyvc.loader import Program
from pyvc.sym import Int, band, zint, mk
from .engine_spec import Sys, table_candidates, prev
from pyvc.arr import matmul as mm

ASSUMPTIONS = [
    "precondition of the preprocessing: the upper right blocks of both contemporaneous matrices vanish and the lower right blocks are regular (established by the RQ decomposition in gen_sys: scipy.linalg.rq returns a triangular factor)",
    "numpy.linalg.inv returns the inverse (matrices the code inverts are regular; numpy raises otherwise)",
    "real arithmetic in place of floating point",
]


def same(p, a, b, label):
    p.prove(arr.arr_equal(a, b), label, detail=arr.diff_str(a, b) if not arr.arr_equal(a, b) else "")


def at(a, *i):
    return a.read_idx(tuple(mk(zint(x)) for x in i))


def post(p, Y, pmat, qmat, pterm, qterm):
    L, K = Y.lm + 1, Y.km + 1
    for a, sh, nm in ((pmat, (L, K, Y.dp, Y.dq), "controls"), (qmat, (L, K, Y.dq, Y.dq), "states"),
                      (pterm, (L, K, Y.dp), "constants of controls"), (qterm, (L, K, Y.dq), "constants of states")):
        p.prove(a.ndim == len(sh) and all(arr.deq(x, y) for x, y in zip(a.shape, sh)),
                "table of %s covers all regimes up to l_max and k_max" % nm)
    l, k = Int("l"), Int("k")
    p.assume(band(l >= 0, l < L, k >= 0, k < K))
    if p.branch(z3.And(l._z == 0, k._z == 0)):
        same(p, at(pmat, 0, 0), Y.omg, "regime (0,0) is the linear solution (controls)")
        same(p, at(qmat, 0, 0), Y.lam, "regime (0,0) is the linear solution (states)")
        same(p, at(pterm, 0, 0), arr.zeros((Y.dp,)), "regime (0,0) has no constant (controls)")
        same(p, at(qterm, 0, 0), arr.zeros((Y.dq,)), "regime (0,0) has no constant (states)")
        return
    free = p.branch(l._z > 0)
    nm = "unconstrained" if free else "constrained"
    A, B = ("S", "T") if free else ("V", "W")
    a11, a12, a21, a22 = Y.blocks[A]
    b11, b12, b21, b22 = Y.blocks[B]
    lp, kp = prev(l, k)
    # all four tables hold the spec rule of their cell ...
    PM, PT, QM, QT = Y.define(l, k)
    for got, want, w in ((at(qmat, l, k), QM, "rule of states"), (at(qterm, l, k), QT, "constant of states"),
                         (at(pmat, l, k), PM, "rule of controls"), (at(pterm, l, k), PT, "constant of controls")):
        same(p, got, want, "%s regime: %s" % (nm, w))
    om, ps = Y.PM(lp, kp), Y.PT(lp, kp)
    same(p, at(pmat, lp, kp), om, "%s regime: next period's rule is that of the regime one period closer to the end" % nm)
    same(p, at(pterm, lp, kp), ps, "%s regime: next period's constant" % nm)
    # ... and that rule satisfies the equilibrium equations
    lhs1 = mm(a11, QM) + mm(a12, mm(om, QM))
    same(p, lhs1, b11 + mm(b12, PM), "%s equations hold: upper block, slope" % nm)
    lhs2 = mm(a21, QM) + mm(a22, mm(om, QM))
    same(p, lhs2, b21 + mm(b22, PM), "%s equations hold: lower block, slope" % nm)
    h1, h2 = (arr.zeros((Y.dq,)), arr.zeros((Y.dp,))) if free else (Y.h1, Y.h2)
    nx = mm(om, QT) + ps
    same(p, mm(a11, QT) + mm(a12, nx), h1 + mm(b12, PT), "%s equations hold: upper block, constant" % nm)
    same(p, mm(a21, QT) + mm(a22, nx), h2 + mm(b22, PT), "%s equations hold: lower block, constant" % nm)


def units(modular=True):
    def run(p):
        Y = Sys(p)
        p.data["bounds"] = "table access in range"
        prog = Program()
        m = prog.load("engine")
        u.loops = table_candidates(Y)
        r = m.preprocess_jittable(Y.S, Y.T, Y.V, Y.W, Y.h, Y.fq1, Y.fp1, Y.fq0, Y.omg, Y.lam, Y.x_bar, Y.lm, Y.km)
        post(p, Y, r[0], r[1], r[2], r[3])
    u = Unit("preprocess_jittable", run, functions=["engine.preprocess_jittable", "engine.get_lam", "engine.get_omg"])
    return [u]
