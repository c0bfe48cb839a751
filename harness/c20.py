"""random chains (shapes, tuning lengths, with and without transformation of the parameters, in memory and on disk) against
plain index arithmetic; short runs of the real sampler and of a stand-in that returns a prepared chain"""
import csv
import math
import os
import numpy as np

BOUND = "chains of up to 12 periods, 7 walkers and 4 parameters, all tuning lengths and sample sizes drawn at random; two short runs of the real sampler"


def prepared(r, T, W, nd, backend=None, scale=1.):
    import emcee
    b = backend if backend is not None else emcee.backends.Backend()
    b.reset(W, nd)
    b.grow(T, None)
    x, lp = r.normal(size=(T, W, nd)) * scale, r.normal(size=(T, W)) * 10
    if r.integers(3) == 0:
        lp[r.integers(T), r.integers(W)] = -np.inf
    for t in range(T):
        s = emcee.State(x[t], log_prob=lp[t], random_state=np.random.RandomState(0).get_state())
        b.save_step(s, np.ones(W, dtype=bool))
    return b, x, lp


def run(h):
    from harness.estim import world
    for i in h.cases("chains", 40 if h.thorough else 10, 4):
        r = h.rng("chains", i)
        with h.guard("chain", case=i):
            w = world(h, r, "c20_%d" % i, big=False, T=6)
            m = w.m
            with h.quiet():
                m.prep_estim(linear=True, use_prior_transform=bool(i % 2), verbose=False, dry_run=False)
            for j in range(6):
                one(h, w, r, i, j)
            mode(h, w, r, i)
    for i in h.cases("sampler", 4 if h.thorough else 1, 1):
        r = h.rng("sampler", i)
        with h.guard("sampler", case=i):
            w = world(h, r, "c20s_%d" % i, big=False, T=6)
            with h.quiet():
                w.m.prep_estim(linear=True, use_prior_transform=bool(i % 2), verbose=False)
                # the data are few: any covariance of the measurement will do
                w.m.filter.R = np.diag(np.var(w.data.values, axis=0))
                nd = w.m.ndim
                # the proposals are differences of two walkers of one half
                nw = max(2 * nd, 6)
                p0 = w.m.get_par(full=False)[None] * (1 + .01 * r.normal(size=(nw, nd))) if not w.m.bptrans else .1 * r.normal(size=(nw, nd))
                n, tune = int(r.integers(3, 6)), int(r.integers(1, 3))
                w.m.mcmc(p0, nsteps=n, tune=tune, backend=None, seed=1, verbose=False)
            check_mode(h, w, tune, dict(case="real sampler", model=w.desc()))


def same(h, got, want, what, **info):
    got = np.asarray(got)
    if h.check(got.shape == want.shape, what + " (shape)", got=got.shape, want=want.shape, **info):
        h.close(got, want, what, **info)


def one(h, w, r, i, j):
    m = w.m
    nd = m.ndim
    T, W = int(r.integers(1, 13)), int(r.integers(1, 8))
    tune = int(r.integers(1, T + 1))
    disk = j % 3 == 2
    for k in ("sampler", "tune"):
        if hasattr(m, k):
            delattr(m, k)
    m.fdict.pop("backend_file", None)
    m.fdict.pop("tune", None)
    if disk:
        import emcee
        f = os.path.join(h.scratch, "c20_%d_%d.h5" % (i, j))
        where = int(r.integers(3))
        if where == 0:      # the default place; a file elsewhere does not matter
            f = os.path.join(m.path, m.name + "_sampler.h5")
            if os.path.exists(f):
                os.unlink(f)
        _, x, lp = prepared(r, T, W, nd, emcee.backends.HDFBackend(f))
        if where:
            m.fdict["backend_file"] = f
        if where == 2:      # a file that is asked for explicitly
            g = os.path.join(h.scratch, "c20_%d_%d_other.h5" % (i, j))
            _, y, ly = prepared(r, T + 1, W, nd, emcee.backends.HDFBackend(g))
            with h.quiet():
                same(h, m.get_chain(backend_file=g), m.bptrans(y) if m.bptrans else y, "the chain is that of the given file")
                same(h, m.get_log_prob(backend_file=g), ly, "log probabilities are those of the given file")
    else:
        m.sampler, x, lp = prepared(r, T, W, nd)
    if r.integers(2):
        m.fdict["tune"] = tune
    else:
        m.tune = tune
        m.fdict["tune"] = int(r.integers(1, T + 1))
    x0 = x.copy()
    z = m.bptrans(x) if m.bptrans else x
    info = dict(chain=(T, W, nd), tune=tune, transformed=bool(m.bptrans), on_disk=disk)
    with h.quiet():
        same(h, m.get_chain(), z, "the chain is that of the sampler in model parameters", **info)
        same(h, m.get_log_prob(), lp, "log probabilities are those of the sampler", **info)
    keep = z[T - tune:].reshape(-1, nd)
    rows = {tuple(v) for v in keep}
    from pydsge.stats import post_mean
    with h.quiet():
        same(h, post_mean(m), np.array([math.fsum(keep[:, q]) / len(keep) for q in range(nd)]), "posterior mean is the average of the retained draws", **info)
        t2 = int(r.integers(1, T + 1))
        k2 = z[T - t2:].reshape(-1, nd)
        same(h, post_mean(m, tune=t2), np.array([math.fsum(k2[:, q]) / len(k2) for q in range(nd)]), "posterior mean is the average of the requested draws", requested=t2, **info)
        same(h, post_mean(m, chain=z), z.reshape(-1, nd).mean(axis=0), "posterior mean of a given chain", **info)
        same(h, m.get_par("posterior_mean", full=False), keep.mean(axis=0), "parameter set 'posterior_mean' is the average of the retained draws", **info)
        n = int(r.integers(1, 9))
        full = m.get_par("posterior", nsamples=n)
    pos = list(m.prior_arg)
    if h.check(np.shape(full) == (n, len(m.parameters)), "as many draws as asked for", got=np.shape(full), n=n, **info):
        fix = np.array(m.par_fix, dtype=float)
        for v in full:
            h.check(tuple(v[pos]) in rows, "posterior draws are retained draws", draw=v[pos], **info)
            oth = [q for q in range(len(fix)) if q not in pos]
            h.check(np.array_equal(v[oth], fix[oth]), "other parameters of a posterior draw are calibrated", draw=v, **info)
    if len(keep) > 3:
        from pydsge.mpile import posterior_sampler
        with h.quiet():
            one = [tuple(posterior_sampler(m, 1, seed=q)[0]) for q in range(80)]
        first = {tuple(v) for v in keep[:len(keep) // 2]}
        h.check(any(v in first for v in one), "every retained draw can be drawn", retained=len(keep), **info)
    sample(h, m, z, r, info)
    export(h, m, z, tune, r, info)
    if T * W > nd + 1 and np.isfinite(lp).all():
        summary(h, m, z, lp, tune, r, info)
    h.check(np.array_equal(x, x0), "the chain is not modified", **info)


def sample(h, m, z, r, info):
    T, W, nd = z.shape
    own = bool(r.integers(2))
    ch = z if own else None
    for _ in range(5):
        size = int(r.integers(1, T * W + 1))
        with h.quiet():
            got = np.asarray(m.get_sample(size, chain=ch))
        if not h.check(got.shape == (size, nd), "a sample has the requested size", got=got.shape, size=size, **info):
            continue
        rec = {tuple(v) for v in z[T - -(-size // W):].reshape(-1, nd)}
        h.check(len({tuple(v) for v in got}) == size, "sampled draws are distinct", size=size, **info)
        h.check(all(tuple(v) in rec for v in got), "sampled draws are from the most recent part of the chain", size=size, **info)
    # W = 1 or complete periods: the whole recent part
    with h.quiet():
        got = np.asarray(m.get_sample(T * W, chain=ch))
    h.check({tuple(v) for v in got} == {tuple(v) for v in z.reshape(-1, nd)}, "a sample as large as the chain is the chain", **info)
    for more in (1, W + 1, 10 * T * W):
        try:
            with h.quiet():
                got = m.get_sample(T * W + more, chain=ch)
        except Exception:
            continue
        h.check(False, "a request for more draws than the chain has is refused", size=T * W + more, got=np.shape(got), **info)


def export(h, m, z, tune, r, info):
    T, W, nd = z.shape
    f = os.path.join(h.scratch, "post.csv")
    t2 = int(r.integers(1, T + 1)) if r.integers(2) else None
    with h.quiet():
        m.posterior2csv(f, **({} if t2 is None else dict(tune=t2)))
    with open(f) as fh:
        rows = list(csv.reader(fh))[1:]
    os.remove(f)
    want = z[T - (t2 or tune):].reshape(-1, nd)
    if h.check([q[0] for q in rows] == [str(p) for p in m.prior_names], "exported draws carry the names of the estimated parameters", got=[q[0] for q in rows], **info):
        same(h, np.array([[float(v) for v in q[1:]] for q in rows]).T, want, "exported draws are the retained draws", requested=t2, **info)


def summary(h, m, z, lp, tune, r, info):
    import emcwrap as ew
    T, W, nd = z.shape
    t2 = int(r.integers(1, T + 1)) if r.integers(2) else None
    n = t2 or tune
    kw = {} if t2 is None else dict(tune=t2)
    if n * W > nd + 1:
        with h.quiet():
            same(h, m.mdd(**kw), np.asarray(ew.mdd_laplace(z[T - n:].reshape(-1, nd), lp[T - n:].reshape(-1), calc_hess=False)),
                 "the marginal data density is that of the retained draws", requested=t2, **info)
    if W > 1:
        seen = []
        real = ew.mcmc_summary

        def record(chain, lprobs, *a, **k):
            seen.append((np.array(chain), np.array(lprobs)))
            return "summary"
        ew.mcmc_summary = record
        try:
            with h.quiet():
                got = m.mcmc_summary(**kw)
        finally:
            ew.mcmc_summary = real
        if got == "summary" and len(seen) == 1:
            same(h, seen[0][0].reshape(-1, nd), z[T - n:].reshape(-1, nd), "the summary is that of the retained draws", requested=t2, **info)
            same(h, seen[0][1].reshape(-1), lp[T - n:].reshape(-1), "the summary uses the probabilities of the retained draws", requested=t2, **info)


def check_mode(h, w, tune, info):
    m = w.m
    x, lp = np.array(m.sampler.get_chain()), np.array(m.sampler.get_log_prob())
    T = len(x)
    k, l = x[max(T - tune, 0):], lp[max(T - tune, 0):]
    best = max(((l[t, q], t, q) for t in range(l.shape[0]) for q in range(l.shape[1])), key=lambda v: v[0])
    want = np.array(k[best[1], best[2]])
    if m.bptrans:
        want = np.asarray(m.bptrans(want))
    info = dict(info, chain=x.shape, tune=tune, transformed=bool(m.bptrans))
    same(h, m.fdict["mode_x"], want, "the stored mode is the retained draw with the highest posterior", **info)
    same(h, np.asarray(m.fdict["mode_f"]), np.asarray(best[0]), "the stored density of the mode is the highest of the retained draws", **info)
    with h.quiet():
        same(h, m.get_par("mode", full=False), want, "parameter set 'mode' is the stored mode", **info)


def mode(h, w, r, i):
    """the bookkeeping after a run; the sampler itself is replaced by one that returns a prepared chain"""
    import emcwrap
    import pydsge.mcmc as pm
    m = w.m
    nd = m.ndim
    for j in range(3):
        T, W = int(r.integers(5, 26)), int(r.integers(2, 7))
        b, x, lp = prepared(r, T, W, nd)
        calls = []

        def stand_in(lprob, nsteps=None, p0=None, **k):
            calls.append(k)
            return b
        old = emcwrap.run_mcmc, getattr(pm, "run_mcmc", None)
        emcwrap.run_mcmc = stand_in
        if old[1] is not None:
            pm.run_mcmc = stand_in
        tune = int(r.integers(1, T + 1)) if j != 1 else None
        temp = {} if j < 2 else dict(temp=float(r.choice([.5, 1., 0.])))
        m.fdict["mode_x"], m.fdict["mode_f"] = keep = np.arange(nd) * 1., -77.
        try:
            with h.quiet():
                m.mcmc(r.normal(size=(W, nd)), nsteps=T, tune=tune, backend=None, seed=0, verbose=False, **temp)
        finally:
            emcwrap.run_mcmc = old[0]
            if old[1] is not None:
                pm.run_mcmc = old[1]
        if not calls:
            continue
        info = dict(temp=temp, given_tune=tune)
        tn = T // 5 if tune is None else tune
        with h.quiet():
            h.check(m.get_tune == tn, "the retained part is that asked for, one fifth of the steps at default", got=m.get_tune, want=tn, **info)
        if temp.get("temp", 1.) == 1.:
            check_mode(h, w, tn, info)
        else:
            h.check(np.array_equal(m.fdict["mode_x"], keep[0]) and m.fdict["mode_f"] == keep[1], "a tempered run does not replace the mode", **info)
        z = m.bptrans(x) if m.bptrans else x
        with h.quiet():
            same(h, m.get_par("posterior_mean", full=False), z[T - tn:].reshape(-1, nd).mean(axis=0), "posterior mean after a run is that of its retained draws", **info)
        # afterwards: as if the model had never been sampled
        m.par = list(m.par_fix)
