"""random models; the transition under every imposed regime (l,k) is compared with the exact solution of the declared
model under that regime, obtained by backward recursion on the declared equations; the stored tables are checked
against the equilibrium equations of the compiled system"""
import numpy as np

BOUND = "random models of 5-8 variables with tables up to 4x18 (quick) or 7x30 (thorough)"
SIZES = [(None, None), (2, 4), (3, 8), (1, 3), (5, 12), (None, 1), (0, 0), (2, 0), (4, 3)]


def run(h):
    from harness.lib import World
    for i in h.cases("models", 60 if h.thorough else 9, 4):
        r = h.rng("models", i)
        lk = SIZES[i % len(SIZES)]
        if h.thorough and i % 7 == 6:
            lk = (6, 30)
        with h.guard("model", case=i, sizes=lk):
            w = World(h, r, "c02_%d" % i, l_max=lk[0], k_max=lk[1])
            pm, qm, pt, qt = w.m.precalc_mat[:4]
            omg, lam, xb = w.m.sys
            h.close(pm[0, 0], omg, "regime (0,0) is the unconstrained rule of the controls", model=w.desc())
            h.close(qm[0, 0], lam, "regime (0,0) is the unconstrained rule of the states", model=w.desc())
            h.close(pt[0, 0], 0 * pt[0, 0], "no constant in regime (0,0)", model=w.desc())
            h.close(qt[0, 0], 0 * qt[0, 0], "no constant in regime (0,0)", model=w.desc())
            h.close(w.m.x_bar, w.spec.x_bar, "bound of the system", model=w.desc())
            for j in range(2):
                for l in range(w.L):
                    for k in range(w.K):
                        s, x = w.walk(r, int(r.integers(4)), nonlinear=False)
                        e = w.eps(r, 1.)
                        try:
                            want = w.oracle.step(x, e, l, k)
                        except ValueError:
                            h.skips += 1
                            continue
                        got = w.m.t_func(s, e, set_k=(l, k), return_flag=False)
                        w.same(h, got, want, "rule of the regime solves the equations of the regime",
                               model=w.desc(), l=l, k=k, state=s, eps=e)
