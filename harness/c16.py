"""random histories of writing, reading and changing models: every model that is read behaves as the current files say"""
import os
import shutil
import numpy as np

BOUND = "random histories of up to 12 operations on up to 3 folders and 3 model files with functions files"


class File:
    def __init__(self, folder, name):
        self.folder, self.name = folder, name
        self.spec = self.funcs = None

    @property
    def path(self):
        return os.path.join(self.folder, self.name + ".yaml")

    @property
    def ffile(self):
        return os.path.join(self.folder, self.name + "_funcs.py")

    def write(self):
        self.spec.write(self.folder)
        if self.funcs is None:
            if os.path.exists(self.ffile):
                os.unlink(self.ffile)
        else:
            with open(self.ffile, "w") as f:
                f.write("def myf(x):\n    return %s / x\n" % self.funcs)

    def oracle(self):
        from harness.models import Oracle
        return Oracle(self.resolved())

    def resolved(self):
        import copy
        s = copy.deepcopy(self.spec)
        if self.funcs is not None and "kappa" in s.parafunc:
            s.parafunc["kappa"] = "%s/sl" % self.funcs
        return s


def variant(r, name, funcs):
    from harness.models import random_spec, Oracle
    while True:
        s = random_spec(r, name, dict(parafunc=True))
        if funcs:
            s.parafunc["kappa"] = "myf(sl)"
        t = File("", name)
        t.spec, t.funcs = s, "0.5" if funcs else None
        try:
            t.oracle()
            return s
        except ValueError:
            continue


def run(h):
    for i in h.cases("histories", 60 if h.thorough else 10, 5):
        r = h.rng("histories", i)
        with h.guard("reading models", case=i):
            history(h, r, i)
    for i in h.cases("copies", 6 if h.thorough else 2, 1):
        r = h.rng("copies", i)
        with h.guard("two models of one file", case=i):
            copies(h, r, i)
    for i in h.cases("stored", 8 if h.thorough else 3, 1):
        r = h.rng("stored", i)
        with h.guard("a model that was saved", case=i):
            stored(h, r, i)
    for i in h.cases("edits", 8 if h.thorough else 3, 1):
        r = h.rng("edits", i)
        with h.guard("small changes of a file", case=i):
            edits(h, r, i)


def copies(h, r, i):
    """one of two models of the same file is changed: the other one, and what is read later, are not"""
    import pydsge
    f = File(h.folder("c16c_%d" % i), "c16c_%d" % i)
    f.funcs = "0.5" if i % 2 else None
    f.spec = variant(r, f.name, f.funcs is not None)
    f.write()
    o = f.oracle()
    for k in range(NDISTURB):
        with h.quiet():
            a, b = pydsge.DSGE.read(f.path), pydsge.DSGE.read(f.path)
        a, b = (a, b) if r.integers(2) else (b, a)
        info = dict(change=k, model=f.spec.yaml(), funcs=f.funcs)
        with h.quiet():
            try:
                disturb(a, r, k)
            except (AttributeError, KeyError, TypeError):
                continue
            c = pydsge.DSGE.read(f.path)
        behaves(h, b, f, r, dict(info, which="other model"), o)
        behaves(h, c, f, r, dict(info, which="read afterwards"), o)


def stored(h, r, i):
    """a model that is saved and loaded is that of the files at the time it was read; the files and other models do not matter"""
    import pydsge
    import pandas as pd
    f = File(h.folder("c16s_%d" % i), "c16s_%d" % i)
    f.funcs = "0.5" if i % 2 else None
    f.spec = variant(r, f.name, f.funcs is not None)
    f.write()
    o = f.oracle()
    info = dict(model=f.spec.yaml(), funcs=f.funcs)
    with h.quiet():
        m = pydsge.DSGE.read(f.path)
        d = pd.DataFrame(r.normal(size=(5, len(m.observables))), columns=[str(x) for x in m.observables], index=range(5))
        m.load_data(d)
        m.save(verbose=False)
    g = File(f.folder, f.name)
    g.spec, g.funcs = variant(r, f.name, f.funcs is not None), f.funcs
    if r.integers(2):
        g.write()
        with h.quiet():
            other = pydsge.DSGE.read(f.path)
            disturb(other, r, 1)
    npz = os.path.join(f.folder, m.name + "_meta.npz")
    for force in (False, True, True):
        with h.quiet():
            a = pydsge.DSGE.load(npz, force_parse=force)
        h.check(np.array_equal(a.data.values, d.values) and list(a.data.columns) == list(d.columns), "the stored data is that of the model", got=a.data, **info)
        h.check(str(a.fdict["yaml_raw"]) == info["model"], "the stored text is that of the model", **info)
        del a.data
        a.fdict.pop("data")
        behaves(h, a, f, r, dict(info, which="loaded", force=force), o)
        with h.quiet():
            disturb(a, r, int(r.integers(NDISTURB)))
    with h.quiet():
        f.write()
        a = pydsge.DSGE.read(f.path)
    behaves(h, a, f, r, dict(info, which="read afterwards"), o)


def edits(h, r, i):
    """the smallest changes of the text: one digit, the case of a name, a comment"""
    import pydsge, re
    f = File(h.folder("c16e_%d" % i), "c16e_%d" % i)
    f.spec = variant(r, f.name, False)
    f.write()
    with open(f.path) as g:
        txt = "".join("# %s\n" % ("-" * 70) for _ in range(int(r.choice([0, 60])))) + g.read()

    def read(t):
        with open(f.path, "w") as g:
            g.write(t)
        with h.quiet():
            return pydsge.DSGE.read(f.path)
    for t in (txt, txt + "# a comment\n", txt):
        m = read(t)
        behaves(h, m, f, r, dict(model=t, funcs=None))
        h.check(m.fdict.get("yaml_raw", t) == t, "a model keeps the text it was read from", model=t)
    names = list(f.spec.par)
    for k in [names[0], names[-1]] + [str(x) for x in r.choice(names, size=2)]:
        hit = [x for x in re.finditer(r"(?m)^\s+%s: *(-?\d*\.\d+)\s*$" % k, txt)]
        if len(hit) != 1:
            continue
        v = hit[0].group(1)
        new = v[:-1] + ("1" if v[-1] != "1" else "2")
        t = txt[:hit[0].start(1)] + new + txt[hit[0].end(1):]
        m = read(t)
        got = dict(zip([str(p) for p in m.parameters], m.p0()))
        h.check(got == dict({q: float(x) for q, x in f.spec.par.items()}, x_bar=float(f.spec.x_bar), **{k: float(new)}), "calibration is that of the current file", changed=(k, v, new), got=got, model=t)
    k = names[int(r.integers(len(names)))]
    K = k.swapcase()
    if K not in txt:
        t = re.sub(r"\b%s\b" % k, K, txt)
        m = read(t)
        got = [str(p) for p in m.parameters]
        h.check(got == [K if q == k else q for q in names] + ["x_bar"], "parameters are those of the current file", renamed=(k, K), got=got, model=t)
        h.check(m.get_par(K) == f.spec.par[k], "parameters are those of the current file", renamed=(k, K), model=t)
    behaves(h, read(txt), f, r, dict(model=txt, funcs=None))


def norm(v):
    def f(x):
        try:
            return float(x)
        except ValueError:
            return str(x)
    return [f(x) for x in v]


def behaves(h, m, f, r, info, o=None):
    """calibration and dynamics of the model are those of the current content of the files"""
    o = o or f.oracle()
    s = f.spec
    with h.quiet():
        m.set_par("calib", verbose=False)
        names = [str(p) for p in m.parameters]
        want = dict(s.par, x_bar=s.x_bar)
        h.check(dict(zip(names, m.get_par())) == {k: float(v) for k, v in want.items()}, "calibration is that of the current file", got=dict(zip(names, m.get_par())), want=want, **info)
        h.check([str(v) for v in m.shocks] == list(s.shocks), "shocks are those of the current file", got=[str(v) for v in m.shocks], **info)
        for k in s.parafunc:
            h.check(np.isclose(m.get_par(k), o.P[k]), "functions are those of the current functions file", got=m.get_par(k), want=o.P[k], **info)
        pos = {str(v): q for q, v in enumerate(m.vv)}
        st, x = np.zeros(len(m.vv)), np.zeros(o.n)
        for t in range(2):
            e = r.normal(size=o.m)
            try:
                x = o.step(x, e, t, 2)
            except ValueError:
                break
            st = m.t_func(st, e, set_k=(t, 2), return_flag=False)
            nm = [v for v in s.variables if v in pos]
            g, v = np.array([st[pos[q]] for q in nm]), np.array([x[o.ix[q]] for q in nm])
            h.check(np.all(np.abs(g - v) <= 1e-6 * (1 + np.abs(v).max())), "dynamics are those of the current file", got=g, want=v, labels=nm, **info)
        y = m.o_func(st[None, :])
        h.check(np.allclose(y, o.obs(x), atol=1e-6 * (1 + np.abs(x).max())) and [str(q) for q in m.observables] == [a for a, _ in s.obs],
                "observables are those of the current file", got=y, want=o.obs(x), **info)
    h.check(sorted(map(str, m.prior)) == sorted(s.prior), "prior is that of the current file", **info)
    h.check({k: norm(v) for k, v in m.prior.items()} == {k: norm(v) for k, v in s.prior.items()}, "values of the prior are those of the current file", got=m.prior, want=s.prior, **info)
    h.check([str(k) for k in m.prior_names] == [str(k) for k in m.prior] and [names[j] for j in m.prior_arg] == [str(k) for k in m.prior], "estimated parameters are those of the prior",
            got=m.prior_names, **info)
    h.check([str(k) for k in m.ve] == list(s.shocks) and [str(k) for k in m.vo] == [a for a, _ in s.obs], "names are those of the current file", **info)
    h.check(len(m.equations) >= len(s.variables) - 1 and [float(x) for x in m.p0()] == [float(want[k]) for k in names], "equations and calibration are those of the current file", **info)
    h.check(m.name == s.name, "name is that of the current file", got=m.name, **info)
    h.check(m.path == f.folder, "the model belongs to the folder it was read from", got=m.path, want=f.folder, **info)
    h.check("mode_x" not in m.fdict and "data" not in m.fdict and not hasattr(m, "data"), "a model that was read carries no results of others", **info)


def disturb(m, r, k):
    """what users do with a model"""
    if k == 0:
        m.fdict["mode_x"] = np.ones(3)
        m.fdict["data"] = b"x"
    elif k == 1:
        m.par_fix[:] = .5
    elif k == 2:
        m.name, m.path = "other", "/nowhere"
    elif k == 3:
        m.fdict.clear()
    elif k == 4:
        m.prior.clear()
    elif k == 5:
        m.set_par(str(m.parameters[0]), float(m.par_fix[0]) * 1.0001)
    elif k == 6:
        m.observables.reverse() if isinstance(m.observables, list) else None
    elif k == 7:
        for q in list(m["calibration"]):
            m["calibration"][q] = .123
    elif k == 8:
        m.data = "old data"
        m.fdict["yaml_raw"] = "changed"
    elif k == 9:
        for q in m.prior.values():
            q[:] = [9.] * len(q)
    elif k == 10:
        m.prior_names.reverse()
        m.prior_arg.reverse()
    elif k == 11:
        for q in ("equations", "var_ordering", "shk_ordering", "par_ordering", "observables", "obs_equations", "para_func", "other_para", "__data__"):
            m[q].clear()
    elif k == 12:
        m["__data__"]["calibration"]["parameters"].clear()
        m["__data__"]["estimation"]["prior"].clear()
    elif k == 13:
        m.ve[:] = "other"
        m.vo[:] = "other"


NDISTURB = 14


def history(h, r, i):
    import pydsge
    folders = [h.folder("c16_%d_%d" % (i, q)) for q in range(3)]
    files, log, held = [], [], []
    nm = "c16_%d" % i
    for q in range(2):
        f = File(folders[q], nm if r.integers(2) else nm + "x")
        f.funcs = str(r.choice(["0.5", "0.4"])) if r.integers(2) else None
        f.spec = variant(r, f.name, f.funcs is not None)
        f.write()
        files.append(f)
    for step in range(12):
        kind = str(r.choice(["read", "read", "read", "edit", "copy", "disturb", "funcs", "touch", "back", "gone"]))
        f = files[int(r.integers(len(files)))]
        if kind == "read":
            kw = dict(nocache=True) if r.integers(4) == 0 else {}
            log.append(("read", f.path, kw))
            with h.quiet():
                m = pydsge.DSGE.read(f.path, **kw)
            info = dict(log=list(log), model=f.spec.yaml(), funcs=f.funcs)
            for n, (m2, _, _) in enumerate(held):
                h.check(m2 is not m, "every read returns a model of its own", **info)
            behaves(h, m, f, r, info)
            import copy
            g = File(f.folder, f.name)
            g.spec, g.funcs = copy.deepcopy(f.spec), f.funcs
            held.append((m, g, False))
        elif kind == "edit":
            # a value, an equation or a term changes
            f.old = (f.spec, f.funcs)
            f.spec = variant(r, f.name, f.funcs is not None) if r.integers(3) == 0 else tweak(r, f)
            f.write()
            log.append(("edit", f.path))
        elif kind == "back":
            if getattr(f, "old", None):
                (f.spec, f.funcs), f.old = f.old, (f.spec, f.funcs)
                f.write()
                log.append(("restore", f.path))
        elif kind == "funcs":
            if f.funcs is None:
                continue
            f.old = (f.spec, f.funcs)
            keep = f.funcs
            f.funcs = {"0.5": "0.4", "0.4": "0.6", "0.6": "0.5"}[f.funcs]
            try:
                f.oracle()
            except ValueError:
                f.funcs = keep
            f.write()
            log.append(("functions", f.ffile, f.funcs))
        elif kind == "copy" and len(files) < 4:
            g = File(folders[2] if f.folder != folders[2] else folders[0], f.name)
            if any(x.folder == g.folder and x.name == g.name for x in files):
                continue
            g.spec, g.funcs = f.spec, f.funcs
            g.write()
            if f.funcs is not None and r.integers(2):
                g.funcs = {"0.5": "0.4", "0.4": "0.6", "0.6": "0.5"}[f.funcs]
                try:
                    g.oracle()
                except ValueError:
                    g.funcs = f.funcs
                g.write()
            files.append(g)
            log.append(("copy", f.path, g.path))
        elif kind == "disturb" and held:
            n = int(r.integers(len(held)))
            k = int(r.integers(NDISTURB))
            with h.quiet():
                try:
                    disturb(held[n][0], r, k)
                except Exception:
                    pass
            held[n] = (held[n][0], held[n][1], True)
            log.append(("change model", n, k))
        elif kind == "gone" and f.funcs is not None:
            os.unlink(f.ffile)
            log.append(("functions file removed, read", f.path))
            try:
                with h.quiet():
                    pydsge.DSGE.read(f.path)
                ok = False
            except Exception:
                ok = True
            h.check(ok, "a model that needs functions of a file that is gone is not read", log=list(log), model=f.spec.yaml())
            f.write()
        elif kind == "touch":
            os.utime(f.path)
    # models that were read and not changed still behave as when they were read
    for m, g, dirty in held:
        if not dirty:
            behaves(h, m, g, r, dict(log=list(log), model=g.spec.yaml(), funcs=g.funcs))


def tweak(r, f):
    import copy
    for _ in range(20):
        s = copy.deepcopy(f.spec)
        k = str(r.choice([x for x in s.par if x not in ("beta", "kappa")]))
        s.par[k] = float(np.round(s.par[k] * r.uniform(.9, 1.05), 4))
        t = File("", f.name)
        t.spec, t.funcs = s, f.funcs
        try:
            t.oracle()
            return s
        except ValueError:
            continue
    return f.spec
