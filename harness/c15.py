"""random names, suffixes and dictionaries of results: what is loaded is what was saved under these arguments"""
import os
import numpy as np

BOUND = "random sequences of saving and loading with names (default, relative, nested, absolute, with and without extension) and suffixes"


class Plain:
    """the two functions need only the name and the folder of a model"""


def value(r):
    k = int(r.integers(6))
    if k == 0:
        return r.normal(size=(int(r.integers(1, 4)), int(r.integers(1, 3))))
    if k == 1:
        return np.arange(int(r.integers(0, 5)))
    if k == 2:
        return float(r.normal())
    if k == 3:
        return "text %d" % r.integers(100)
    if k == 4:
        return np.array(["a", "bb"])
    return np.array([1, "x", None], dtype=object)


def equal(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape or x.tolist() != y.tolist():
            return False
    return True


def run(h):
    import pydsge
    from pydsge.clsmethods import save_rdict, load_rdict
    for i in h.cases("names", 400 if h.thorough else 120, 20):
        r = h.rng("names", i)
        with h.guard("saving and loading", case=i):
            home = h.folder("c15_%d" % i)
            other = h.folder("c15_%d_other" % i)
            os.makedirs(os.path.join(home, "sub"), exist_ok=True)
            o = Plain()
            o.name, o.path = str(r.choice(["mod", "my.model", "m.npz", "a b"])), str(r.choice([home, home + "/", os.path.relpath(home, other)]))
            cwd = os.getcwd()
            os.chdir(other)
            try:
                one(h, o, r, save_rdict, load_rdict, home, other)
            finally:
                os.chdir(cwd)


def one(h, o, r, save, load, home, other):
    stems = [None, "res", "res1", "sub/res", "res.v2", "x.npz", "npz", "a.npz.b", "./res9", other + "/abs", other + "/abs.x", "z.np", "ares", "res_", "x.NPZ", "res.Npz", "./.res", ".res", "../%s/res3" % os.path.basename(home), "sub/./res4"]
    sufs = ["", "", "_1", "_2", ".v", "_a.b", "npz", ".npz", "x.npz", ".np", "/../up", " s"]
    stored, log = {}, []

    def target(p, s):
        q = o.name + "_res" if p is None else p
        q = q[:-4] if q.endswith(".npz") else q
        q = q if os.path.isabs(q) else os.path.join(o.path, q)
        q += s
        q = os.path.abspath(q)
        return os.path.normpath(q[:-4] if q.endswith(".npz") else q)
    for step in range(8):
        p, s = stems[int(r.integers(len(stems)))], sufs[int(r.integers(len(sufs)))]
        if p is not None and r.integers(3) == 0 and not p.endswith(".npz"):
            p = p + ".npz"
        if s == "/../up":
            try:
                os.makedirs(os.path.dirname(target(p, s) + "x"), exist_ok=True)
                q = o.name + "_res" if p is None else p
                q = q[:-4] if q.endswith(".npz") else q
                os.makedirs(q if os.path.isabs(q) else os.path.join(o.path, q), exist_ok=True)
            except OSError:
                continue
        d = {k: value(r) for k in ("x", "pars", "init", "resid")[:int(r.integers(1, 5))]}
        kw = {}
        if s or r.integers(2):
            kw["suffix"] = s
        a = (p,) if p is not None or r.integers(2) else ()
        log.append((p, s))
        info = dict(name=o.name, path=o.path, log=list(log))
        keep = dict(d)
        with h.quiet():
            save(o, d, *a, **kw)
        h.check(set(d) == set(keep) and all(d[k] is keep[k] for k in d), "results are not modified by saving", **info)
        stored[target(p, s)] = (a, kw, d)
        try:
            got = load(o, *a, **kw)
        except Exception as e:
            h.check(False, "results are found again under the name they were stored with", error=repr(e), **info)
            return
        h.check(equal(got, d), "results are equal to those that were stored", got=list(got), want=list(d), **info)
        for a2, kw2, d2 in stored.values():
            try:
                ok = equal(load(o, *a2, **kw2), d2)
            except Exception as e:
                ok = False
            if not h.check(ok, "results under other names and suffixes are not affected", which=(a2, kw2), **info):
                return
    # nothing is written elsewhere
    files = {os.path.normpath(os.path.join(b, f)) for top in (home, other) for b, _, fs in os.walk(top) for f in fs}
    h.check(files == {k + ".npz" for k in stored}, "one file per name and suffix", got=sorted(files), want=sorted(k + ".npz" for k in stored),
            name=o.name, path=o.path, log=list(log))
    n = dict(path="never_saved")
    h.raises(lambda: load(o, **n), "loading what was never saved is refused", name=o.name)
