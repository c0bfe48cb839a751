"""random models and lists of names: positions of variables, observables and shocks against the labels and against the series
that are stored there (solution of the oracle)"""
import numpy as np

BOUND = "random models, lists of up to 8 names with repetitions and unknown ones"


def run(h):
    from harness.lib import World, snap
    for i in h.cases("models", 60 if h.thorough else 14, 6):
        r = h.rng("models", i)
        with h.guard("positions", case=i):
            w = World(h, r, "c21_%d" % i, dict(two_shocks=bool(i % 3), cnst_shock=bool(i % 2)))
            for j in range(20):
                names(h, w, r, snap)
            content(h, w, r)
            shocks(h, w, r)


def names(h, w, r, snap):
    m = w.m
    vv, ob = [str(v) for v in m.vv], [str(o) for o in m.observables]
    info = dict(model=w.desc(), variables=vv, observables=ob)
    before = snap(m)
    for f, lab, what in ((m.vix, vv, "variables"), (m.oix, ob, "observables")):
        n = int(r.integers(0, 8))
        q = [lab[int(j)] for j in r.integers(len(lab), size=n)]
        arg = [q, tuple(q), np.array(q)][int(r.integers(3))] if n else []
        h.check(list(map(int, f(arg))) == [lab.index(x) for x in q], "positions of a list of %s in the order of the request" % what, request=q, **info)
        one = lab[int(r.integers(len(lab)))]
        h.check(list(map(int, f(one))) == [lab.index(one)], "position of one of the %s given as text" % what, request=one, **info)
        # a prefix of a name is another name
        unk = ["unknown", one + "x", one + " ", one.upper() + "_", one.swapcase()][int(r.integers(5))]
        if unk in lab:
            unk = "unknown"
        at = int(r.integers(n + 1))
        mix = q[:at] + [unk] + q[at:]
        h.raises(lambda: f(mix), "unknown %s are refused" % what, request=mix, **info)
        h.raises(lambda: f(unk), "one of the %s that is unknown is refused" % what, request=unk, **info)
        if what == "variables":
            h.raises(lambda: f(mix, dontfail=False), "unknown variables are refused if that is asked for", request=mix, **info)
            mix = mix + [unk] + q[:1]
            h.check(list(map(int, f(mix, dontfail=True))) == [lab.index(x) for x in mix if x != unk], "unknown variables are skipped if that is asked for",
                    request=mix, **info)
            h.check(list(f(unk, dontfail=True)) == [], "one unknown variable is skipped if that is asked for", request=unk, **info)
    h.check(before == snap(m), "the model is not modified", **info)


def content(h, w, r):
    """the series at the position of a name is the one of that variable"""
    m, o = w.m, w.oracle
    s, x = w.walk(r, 3)
    e = w.eps(r, w.spec.x_bar)
    l, k = int(r.integers(w.L)), int(r.integers(w.K))
    s, x = m.t_func(s, e, set_k=(l, k), return_flag=False), o.step(x, e, l, k)
    scale = 1 + np.max(np.abs(x))
    if scale > 1e5:
        return
    for v in w.names():
        j = m.vix(v)[0]
        h.check(abs(s[j] - x[o.ix[v]]) < 1e-6 * scale, "the series at the position of a variable is that variable", variable=v, got=s[j], want=x[o.ix[v]], model=w.desc())
    y, z = m.o_func(s[None])[0], o.obs(x)[0]
    for q, (nm, _) in enumerate(w.spec.obs):
        h.check(abs(y[m.oix(nm)[0]] - z[q]) < 1e-6 * (scale + abs(z[q])), "the series at the position of an observable is that observable", observable=nm,
                got=y, want=z, model=w.desc())


def shocks(h, w, r):
    m, o = w.m, w.oracle
    for nm in w.spec.shocks:
        size = float(np.round(r.normal() * 2, 3))
        for arg in ((nm, size), (nm, size, int(r.integers(4))), [nm, size]):
            v = np.asarray(m.shock2state(arg))
            info = dict(model=w.desc(), shock=repr(arg), shocks=list(m.shocks))
            if not h.check(v.shape == (m.dimq,), "state vector of a shock has one entry per state and shock", got=v.shape, **info):
                continue
            want = np.zeros(m.dimq)
            want[m.dimq - m.dimeps + [str(q) for q in m.shocks].index(nm)] = size
            h.check(np.array_equal(v, want), "a shock is placed at its position and zero elsewhere", got=v, want=want, **info)
            e = np.zeros(o.m)
            e[w.spec.shocks.index(nm)] = size
            s, _ = w.zero()
            got = m.t_func(s, v[-m.dimeps:], linear=True, return_flag=False)
            w.same(h, got, o.step(np.zeros(o.n), e, 0, 0), "the entry of a shock is the innovation of that shock", **info)
    h.raises(lambda: m.shock2state(("unknown", 1.)), "unknown shocks are refused", model=w.desc())
