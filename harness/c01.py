"""random tables (all sizes, including k_max=0 and exact ties) and random models; the regime found by the real
search is compared with the definition, written out over the tables and, independently, over expected paths of
the declared model"""
import numpy as np

BOUND = "tables up to 6x8 (12x20 thorough) with integer-valued entries, including exact ties; random models"


def spec_search(C, x, L, K):
    """definition of the regime over the table of expected constraint values C[s,l,k]"""
    if all(C[2, j, 0] > x for j in range(L)):
        return {(0, 0, 0)}
    for l in range(L):
        for k in range(1, K):
            if ((l == 0 or C[0, l, k] >= x) and (l < 2 or C[1, l, k] >= x) and C[4, l, k] >= x
                    and C[2, l, k] <= x and (k < 2 or C[3, l, k] <= x)):
                return {(l, k, 0)}
    below = False
    for k in range(1, K):
        if below and C[4, 0, k] > x:
            return {(0, k, 1)}
        below = below or C[4, 0, k] < x
    return {(0, K - 1, 2)}


def run(h):
    from pydsge import engine
    find_lk = h.internal(engine, "find_lk", ("bmat", "bterm", "x_bar", "q"))
    for i in h.cases("tables", (60000 if h.thorough else 4000) if find_lk else 0, 200):
        r = h.rng("tables", i)
        big = 12 if h.thorough else 6
        L, K = int(r.integers(1, big)), int(r.integers(1, 20 if h.thorough else 8))
        n = int(r.integers(1, 4))
        x = float(r.integers(-2, 1))
        q = r.integers(-2, 3, size=n).astype(float)
        bmat = r.integers(-2, 3, size=(5, L, K, n)).astype(float)
        # make interesting cases likely: mostly satisfied conditions
        bterm = r.integers(-3, 4, size=(5, L, K)).astype(float)
        if r.integers(2):
            tgt = np.array([1, 1, -1, -1, 1])[:, None, None] * r.integers(0, 3, size=(5, L, K))
            bterm = x + tgt - bmat @ q
        if r.integers(4) == 0:
            bterm[2, :, 0] = x + r.integers(0, 3, size=L) - bmat[2, :, 0] @ q
        C = bmat @ q + bterm
        if r.integers(3) == 0:      # nothing may be read outside of the used entries
            for l in range(L):
                for k in range(K):
                    if l == 0:
                        bmat[1, l, k] = np.nan
                        bterm[1, l, k] = np.nan
            bmat[3, 0, 0] = np.nan
        with h.guard("find_lk", L=L, K=K, q=q, x=x, bmat=bmat, bterm=bterm):
            l, k, flag = find_lk(bmat, bterm, x, q)
            C = np.nan_to_num(C)
            want = spec_search(C, x, L, K)
            h.check((int(l), int(k), int(flag)) in want, "regime found by the search is the least consistent one",
                    L=L, K=K, q=q, x=x, bmat=bmat, bterm=bterm, got=(l, k, flag), want=sorted(want))
    from harness.lib import World
    for i in h.cases("models", 40 if h.thorough else 5, 2):
        r = h.rng("models", i)
        lk = [(None, None), (2, 4), (3, 8), (1, 3), (5, 12)][i % 5]
        with h.guard("model", case=i):
            w = World(h, r, "c01_%d" % i, l_max=lk[0], k_max=lk[1])
            h.check((w.L, w.K) == w.lk, "regimes up to the requested l_max and k_max are tabulated",
                    got=(w.L, w.K), want=w.lk, l_max=lk[0], k_max=lk[1])
            for j in range(12):
                s, x = w.zero()
                hist = []
                for t in range(6):
                    e = w.eps(r, w.spec.x_bar) if t < 3 or r.integers(3) == 0 else np.zeros(w.oracle.m)
                    want = w.oracle.search(x, e, w.L, w.K)
                    if want is None:
                        break
                    hist.append(e)
                    s, lk_, flag = w.m.t_func(s, e, return_k=True)
                    if not h.check((int(lk_[0]), int(lk_[1]), int(flag)) == want,
                                   "regime of a transition is the least consistent one",
                                   model=w.desc(), history=hist, got=(lk_, flag), want=want):
                        break
                    x = w.oracle.step(x, e, want[0], want[1])
