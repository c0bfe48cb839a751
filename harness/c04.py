"""random models, states, shocks and options: the transition against the tables of the model (block structure), against
the exact solution of the declared model under the selected regime, observables against the declared observation
equation; inputs and model compared before and after"""
import numpy as np

BOUND = "random models with several observables and shocks, reachable states, all combinations of options"


def run(h):
    from harness.lib import World, snap
    for i in h.cases("models", 60 if h.thorough else 8, 4):
        r = h.rng("models", i)
        ft = dict(static=True) if i % 2 else dict(two_shocks=True)
        lk = [(None, None), (2, 4), (3, 8), (2, 1)][i % 4]
        with h.guard("transition", case=i):
            w = World(h, r, "c04_%d" % i, ft, l_max=lk[0], k_max=lk[1])
            m, o = w.m, w.oracle
            for j in range(25):
                s, x = w.walk(r, int(r.integers(4)), scale=float(r.choice([.5, 3.])))
                e = None if r.integers(4) == 0 else w.eps(r, w.spec.x_bar * float(r.choice([.3, 3.])))
                ee = np.zeros(o.m) if e is None else e
                kw = {}
                c = int(r.integers(4))
                if c == 0:
                    kw["linear"] = True
                    reg = (0, 0, 0)
                    if r.integers(2):
                        kw["set_k"] = (int(r.integers(w.L)), int(r.integers(w.K)))
                elif c == 1:
                    reg = (int(r.integers(w.L)), int(r.integers(w.K)), 0)
                    kw["set_k"] = [reg[:2], tuple(np.array(reg[:2])), tuple(float(q) for q in reg[:2])][int(r.integers(3))]
                    if r.integers(3) == 0 and w.K > 1:     # a duration only: no waiting time
                        reg = (0, int(r.integers(1, w.K)), 0)
                        kw["set_k"] = reg[1] if r.integers(2) else np.int64(reg[1])
                else:
                    reg = o.search(x, ee, w.L, w.K)
                    if r.integers(2):
                        kw["set_k"] = [None, False, True][int(r.integers(3))]
                if reg is None:
                    continue
                n = m.dimq - m.dimeps
                ctl = w.zero()[0].shape[0] - n
                inp = s if r.integers(2) else s[ctl:]
                c_in, c_e, before = inp.copy(), None if e is None else e.copy(), snap(m)
                info = dict(model=w.desc(), state=inp, eps=e, options={k: str(v) for k, v in kw.items()}, regime=reg)
                a = m.t_func(inp, e, **kw) if e is not None or r.integers(2) else m.t_func(inp, **kw)
                b = m.t_func(inp, e, return_k=True, **kw)
                c_ = m.t_func(inp, e, return_flag=False, **kw)
                d = m.t_func(inp, e, return_k=True, get_obs=True, **kw)
                h.check(before == snap(m), "the model is not modified", **info)
                h.check(np.array_equal(inp, c_in) and (e is None or np.array_equal(e, c_e)), "inputs are not modified", **info)
                h.check(len(a) == 2 and len(b) == 3 and isinstance(c_, np.ndarray), "returned items are those asked for", **info)
                h.check(int(a[1]) == reg[2] and int(b[2]) == reg[2] and int(d[2]) == reg[2], "error flag", got=(a[1], b[2], d[2]), **info)
                h.check(tuple(int(v) for v in b[1]) == reg[:2], "regime", got=b[1], **info)
                want = o.step(x, ee, reg[0], reg[1])
                w.same(h, c_, want, "new state is the solution under the regime", **info)
                h.check(np.array_equal(c_, a[0]) and np.array_equal(c_, b[0]), "same state for all return options", **info)
                st, ob = d[0]
                h.check(np.array_equal(st, c_[ctl:]), "states next to the observables", got=st, want=c_[ctl:], **info)
                sc = 1 + np.max(np.abs(want))
                wo = o.obs(want)[0]
                h.check(np.shape(ob) == wo.shape and np.all(np.abs(ob - wo) <= 1e-6 * sc),
                        "observables of the transition", got=ob, want=wo, **info)
                h.close(ob, np.asarray(m.obs(c_[None]))[0], "observables of the transition and of the state agree", tol=1e-9 * sc, **info)
