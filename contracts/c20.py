"""C20: chain statistics use exactly the requested part of the chain"""
import z3
from pyvc import arr
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.loops import PList
from pyvc.sym import Int, Real, SymInt, SymReal, SymStr, SymNum, band, zint, zreal, mk
from pyvc.arr import SArr, Elem
from .model_spec import program, unchanged
from .c09 import World as Params

ASSUMPTIONS = [
    "the sampler returns the chain (periods x walkers x parameters) and the log probabilities (periods x walkers) of the draws; the chain has at least one period, one walker and one parameter",
    "the transformation of the parameters acts on each draw by itself",
    "random.choices(x, k=n) returns n elements of x; numpy.random.choice(x, n, False) returns n elements at different positions of x",
    "the tuning length is at least one; by default the number of steps is at least five",
    "no parameter is called posterior, post_mean or posterior_mean",
    "emcwrap's marginal data densities and summary are functions of the draws and probabilities they are given; mean(axis=0) is the average over the rows",
]
INLINED = True
IZ, BZ, SZ, RZ = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()


class Chain:
    """the draws of a sampler: CH(t, w, j) as sampled, CT(t, w, j) in model parameters, LP(t, w)"""

    def __init__(self, p, transformed, nd=None, tag=""):
        F = z3.Function
        self.p, self.transformed = p, transformed
        self.T, self.W, self.nd = Int("periods" + tag), Int("walkers" + tag), Int("ndim" + tag) if nd is None else nd
        p.assume(band(self.T >= 1, self.W >= 1, self.nd >= 1))
        self.CH, self.LP = F("CH" + tag, IZ, IZ, IZ, RZ), F("LP" + tag, IZ, IZ, RZ)
        self.CT = F("CT" + tag, IZ, IZ, IZ, RZ) if transformed else self.CH
        self.BP = F("BP" + tag, RZ, IZ, RZ)
        self.AVG = F("AVERAGE" + tag, IZ, IZ, RZ)
        p.data["mean"] = self.mean

    def raw(self):
        return SArr((self.T, self.W, self.nd), Elem(lambda t, w, j: mk(self.CH(zint(t), zint(w), zint(j)))))

    def model(self):
        return SArr((self.T, self.W, self.nd), Elem(lambda t, w, j: mk(self.CT(zint(t), zint(w), zint(j)))))

    def logp(self):
        return SArr((self.T, self.W), Elem(lambda t, w: mk(self.LP(zint(t), zint(w)))))

    def bptrans(self, x):
        """a transformed draw is the transform of that draw"""
        y = x.copy()

        def at(*i):
            v = y.elem(*i)
            m = self.is_draw(v, self.CH)
            if m is not None and ctx().entails(m[2] == zint(i[-1])):
                return mk(self.CT(*m))
            return mk(self.BP(zreal(v), zint(i[-1])))
        return SArr(y.shape, Elem(at))

    def is_draw(self, v, f=None):
        """the (t, w, j) of a value of the chain"""
        z = z3.simplify(v._z) if isinstance(v, SymNum) else None
        f = self.CT if f is None else f
        if z is not None and z3.is_app(z) and z.decl().eq(f):
            return tuple(z.children())
        return None

    def keep(self, n):
        """number of retained periods if n are asked for"""
        return mk(z3.If(zint(n) > zint(self.T), zint(self.T), zint(n)))

    # -- what the code may return
    def row(self, x, i, label):
        """period and walker of the draw x[i]"""
        j = SymInt(z3.Int(ctx().fresh("par")))
        ctx().assume(z3.And(j._z >= 0, j._z < zint(self.nd)))
        m = self.is_draw(x.elem(*(tuple(i) + (j,))))
        if not ctx().prove(m is not None, label + ": entries are values of the chain in model parameters"):
            return None
        ctx().prove(m[2] == j._z, label + ": every parameter is at its position")
        free = _consts(m[0]) | _consts(m[1])
        ctx().prove(str(j._z) not in free, label + ": one draw per row")
        return m[0], m[1]

    def retained(self, x, n, label):
        """x has one row per draw of the last n periods, in the order of the chain (or is that part of the chain itself)"""
        p = self.p
        n = self.keep(n)
        nd = x.ndim
        if not p.prove(nd in (2, 3), label + ": a table of draws"):
            return
        want = (n * self.W, self.nd) if nd == 2 else (n, self.W, self.nd)
        p.prove(all(arr.deq(a, b) for a, b in zip(x.shape, want)), label + ": as many draws as retained", detail=str(x.shape))

        def one():
            t, w = (SymInt(z3.Int(ctx().fresh(k))) for k in ("period", "walker"))
            ctx().assume(z3.And(t._z >= 0, t._z < zint(n), w._z >= 0, w._z < zint(self.W)))
            i = (arr.ipair(t, w, self.W),) if nd == 2 else (t, w)
            m = self.row(x, i, label)
            if m is not None:
                ctx().prove(z3.And(m[0] == t._z + zint(self.T) - zint(n), m[1] == w._z), label + ": the retained draws")
        p.forall_paths(one)

    def probs(self, x, n, label):
        p = self.p
        n = self.keep(n)
        if not p.prove(x.ndim in (1, 2), label + ": a list of probabilities"):
            return
        want = (n * self.W,) if x.ndim == 1 else (n, self.W)
        p.prove(all(arr.deq(a, b) for a, b in zip(x.shape, want)), label + ": as many as retained draws")

        def one():
            t, w = (SymInt(z3.Int(ctx().fresh(k))) for k in ("period", "walker"))
            ctx().assume(z3.And(t._z >= 0, t._z < zint(n), w._z >= 0, w._z < zint(self.W)))
            v = x.elem(arr.ipair(t, w, self.W)) if x.ndim == 1 else x.elem(t, w)
            ctx().prove(zreal(v) == self.LP(t._z + zint(self.T) - zint(n), w._z), label + ": those of the retained draws")
        p.forall_paths(one)

    def mean(self, x, axis=None):
        """the average of the last n periods, if that is what x holds; otherwise some average"""
        p = self.p
        if isinstance(x, SArr) and ((x.ndim == 2 and axis == 0) or (x.ndim == 3 and axis in ((0, 1), [0, 1]))):
            n = None
            for cand in self.p.data.get("lengths", []):
                c = self.keep(cand)
                if arr.deq(x.shape[0], c * self.W if x.ndim == 2 else c):
                    n = c
                    break
            if n is not None:
                def one():
                    t, w, j = (SymInt(z3.Int(ctx().fresh(k))) for k in ("period", "walker", "par"))
                    ctx().assume(z3.And(t._z >= 0, t._z < zint(n), w._z >= 0, w._z < zint(self.W), j._z >= 0, j._z < zint(self.nd)))
                    v = x.elem(*((arr.ipair(t, w, self.W),) if x.ndim == 2 else (t, w)), j)
                    return ctx().entails(zreal(v) == self.CT(t._z + zint(self.T) - zint(n), w._z, j._z))
                if all(p.forall_paths(one)):
                    return SArr((self.nd,), Elem(lambda j: mk(self.AVG(zint(n), zint(j)))))
        f = z3.Function(ctx().fresh("mean"), IZ, RZ)
        if not isinstance(x, SArr) or axis not in (0, (0, 1)):
            raise Unsupported("mean of %r" % (x,))
        return SArr((x.shape[-1],), Elem(lambda j: mk(f(zint(j)))))

    def is_average(self, x, n, label):
        p = self.p
        p.prove(x.ndim == 1 and arr.deq(x.shape[0], self.nd), label + ": one number per parameter")
        j = Int()
        p.assume(band(j >= 0, j < self.nd))
        p.prove(zreal(x.elem(j)) == self.AVG(zint(self.keep(n)), j._z), label)


def _consts(z):
    out, todo = set(), [z]
    while todo:
        x = todo.pop()
        if z3.is_const(x):
            out.add(str(x))
        todo += x.children()
    return out


class Sampler:
    def __init__(self, C):
        self.C = C

    def get_chain(self, flat=None, discard=0, thin=1):
        x = self.C.raw()
        return _opts(x, flat, discard, thin)

    def get_log_prob(self, flat=None, discard=0, thin=1):
        return _opts(self.C.logp(), flat, discard, thin)

    @property
    def acceptance_fraction(self):
        return SArr((self.C.W,), Elem(lambda i: mk(z3.Function("ACC", IZ, RZ)(zint(i)))))


def _opts(x, flat, discard, thin):
    if not (isinstance(thin, int) and thin == 1):
        raise Unsupported("thinning")
    if not (isinstance(discard, int) and discard == 0):
        x = x[discard:]
    if flat:
        x = x.reshape(-1, x.shape[-1]) if x.ndim == 3 else x.reshape(-1)
    return x


def shims(p, C=None, **k):
    def choices(pop, weights=None, cum_weights=None, k=1):
        if weights is not None or cum_weights is not None:
            raise Unsupported("weighted draws")
        n = pop.length() if hasattr(pop, "length") else len(pop)
        f = z3.Function(p.fresh("CHOICE"), IZ, IZ)
        p.data["choices"] = p.data.get("choices", 0) + 1
        p.data["population"] = n

        def at(i):
            c = f(zint(i))
            ctx().assume(z3.And(c >= 0, c < zint(n)))
            return pop.at(mk(c)) if hasattr(pop, "at") else pop[mk(c)]
        if not p.branch(zint(n) >= 1):
            raise IndexError("Cannot choose from an empty sequence")
        return PList(sym=(k, at))

    def choice(a, size=None, replace=True, p_=None, **kw):
        if kw or p_ is not None or size is None or isinstance(size, (tuple, list)):
            raise Unsupported("numpy.random.choice")
        pop = a if isinstance(a, SArr) else None
        n = pop.shape[0] if pop is not None else a
        p.data["population"] = n
        f, g = z3.Function(p.fresh("CHOICE"), IZ, IZ), z3.Function(p.fresh("POSITION"), IZ, IZ)
        if not replace and not p.branch(zint(size) <= zint(n)):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        if not p.branch(zint(n) >= 1):
            raise ValueError("a must be non-empty")

        def at(i):
            c = f(zint(i))
            ctx().assume(z3.And(c >= 0, c < zint(n)))
            if not replace:
                # different positions
                ctx().assume(z3.Implies(z3.And(zint(i) >= 0, zint(i) < zint(size)), g(c) == zint(i)))
            return pop.elem(mk(c)) if pop is not None else mk(c)
        return SArr((size,), Elem(at), dtype="int")

    rnd = StubModule("random", seed=lambda *a: None, choices=choices)
    s = dict(random=rnd)
    s.update(k)
    g = program(**s)
    g.shims["numpy"].random = StubModule("numpy.random", seed=lambda *a: None, choice=choice)
    return g


class Model(Obj):
    pass


def model(g, p, C, sampler=True, stub=True):
    """a model object with the real property get_tune"""
    m = g.load("clsmethods")
    prop = m.__dict__["get_tune"]
    cls = type("Model20", (Model,), dict(get_tune=prop))
    o = cls(name=SymStr(z3.String("name")), path=SymStr(z3.String("path")))
    o.ndim = C.nd
    o.prior_names = PList(sym=(C.nd, lambda i: SymStr(z3.Function("PRIOR_NAME", IZ, SZ)(zint(i)))))
    o.prior = object()
    o.fdict = {}
    if stub:
        # contract of get_chain / get_log_prob (proved on their own)
        def get_chain(get_acceptance_fraction=False, get_log_prob=False, backend_file=None, flat=None, verbose=False):
            if backend_file is not None:
                raise Unsupported("other backend")
            if get_acceptance_fraction:
                return Sampler(C).acceptance_fraction
            x = C.logp() if get_log_prob else C.model()
            return _opts(x, flat, 0, 1)
        o.get_chain = get_chain
        o.get_log_prob = lambda **k: get_chain(get_log_prob=True, **k)
    else:
        o.get_chain = lambda **k: m.get_chain(o, **k)
        o.get_log_prob = lambda **k: m.get_log_prob(o, **k)
        o.sampler = Sampler(C)
        o.bptrans = C.bptrans if C.transformed else None
    return o


def tuned(p, o, how):
    """the tuning length of the model: of the last run, or as stored"""
    n = Int("tune")
    p.assume(n >= 1)
    if how:
        o.tune = n
        o.fdict["tune"] = Int("old_tune")
    else:
        o.fdict["tune"] = n
    p.data["lengths"] = [n]
    return n


def pos(p, nm):
    n = Int(nm)
    p.assume(n >= 1)
    p.data.setdefault("lengths", []).insert(0, n)
    return n


# ------------------------------------------------------------------ units
def sample(modular, given):
    def run(p):
        C = Chain(p, True)
        g = shims(p)
        o = model(g, p, C, stub=modular)
        fn = g.load("clsmethods").get_sample
        size = pos(p, "size")
        own = C.model() if given else None
        before = o._pv_fields()
        fit = p.choose("fits")
        p.assume(zint(size) <= zint(C.T) * zint(C.W) if fit else zint(size) > zint(C.T) * zint(C.W))
        try:
            r = fn(o, size, chain=own) if given else fn(o, size)
        except Unsupported:
            raise
        except Exception as e:
            p.prove(not fit, "a request that the chain can satisfy is not refused", detail="%s: %s" % (type(e).__name__, e))
            return
        p.prove(fit, "a request for more draws than the chain has is refused")
        if not isinstance(r, SArr):
            raise Unsupported("sample of type %r" % (type(r),))
        p.prove(r.ndim == 2 and arr.deq(r.shape[0], size) and arr.deq(r.shape[1], C.nd), "a sample has the requested size", detail=str(r.shape))
        i, k = Int(), Int()
        p.assume(band(i >= 0, i < size, k >= 0, k < size, i != k))
        a = C.row(r, (i,), "sample")
        b = C.row(r, (k,), "sample")
        if a is None or b is None:
            return
        p.prove(z3.And(a[0] >= 0, a[0] < zint(C.T), a[1] >= 0, a[1] < zint(C.W)), "sampled draws are draws of the chain")
        p.prove((zint(C.T) - a[0] - 1) * zint(C.W) < zint(size), "sampled draws are from the most recent part of the chain")
        p.prove(z3.Not(z3.And(a[0] == b[0], a[1] == b[1])), "sampled draws are distinct")
        unchanged(p, o, before)
    return Unit("clsmethods.get_sample(%s)" % ("given chain" if given else "own chain"), run,
                functions=["clsmethods.get_sample"] + ([] if modular else ["clsmethods.get_chain"]))


def mean(modular, how):
    """how: 'tune' set on the model, 'fdict' stored, 'arg' asked for, 'chain' given"""
    def run(p):
        C = Chain(p, True)
        g = shims(p)
        o = model(g, p, C, stub=modular)
        n = tuned(p, o, how != "fdict")
        kw = {}
        if how == "arg":
            n = kw["tune"] = pos(p, "asked")
        if how == "chain":
            kw["chain"] = C.model()
            n = C.T
            p.data["lengths"] = [n]
        before = o._pv_fields()
        r = g.load("stats").post_mean(o, **kw)
        if not isinstance(r, SArr):
            raise Unsupported("mean of type %r" % (type(r),))
        C.is_average(r, n, "the posterior mean is the average of the retained draws")
        unchanged(p, o, before)
    return Unit("stats.post_mean(%s)" % how, run, functions=["stats.post_mean", "clsmethods.get_tune"])


def draws(modular, how):
    def run(p):
        C = Chain(p, True)
        g = shims(p)
        o = model(g, p, C, stub=modular)
        n = tuned(p, o, how)
        k = pos(p, "nsamples")
        before = o._pv_fields()
        r = g.load("mpile").posterior_sampler(o, k)
        if isinstance(r, PList):
            p.prove(arr.deq(r.length(), k), "as many draws as asked for")
            i = Int()
            p.assume(band(i >= 0, i < k))
            x = r.at(i)
        elif isinstance(r, SArr):
            p.prove(arr.deq(r.shape[0], k), "as many draws as asked for")
            i = Int()
            p.assume(band(i >= 0, i < k))
            x = r.at(i)
        else:
            raise Unsupported("draws of type %r" % (type(r),))
        p.prove(arr.deq(x.shape[0], C.nd), "a draw has all estimated parameters")
        m = C.row(x, (), "posterior draws")
        if m is not None:
            p.prove(z3.And(m[0] >= zint(C.T) - zint(C.keep(n)), m[0] < zint(C.T), m[1] >= 0, m[1] < zint(C.W)), "posterior draws are retained draws")
        if p.data.get("population") is not None:
            p.prove(arr.deq(p.data["population"], C.keep(n) * C.W), "every retained draw can be drawn")
        unchanged(p, o, before)
    return Unit("mpile.posterior_sampler(%s)" % ("tune of the model" if how else "stored tune"), run, functions=["mpile.posterior_sampler", "clsmethods.get_tune"])


class Frame:
    """pandas.DataFrame(data, index): rows of data labelled by index"""
    made = None

    def __init__(self, data=None, index=None, columns=None, **k):
        if k:
            raise Unsupported("DataFrame(%s)" % ", ".join(k))
        self.data, self.index, self.columns = data, index, columns
        self._pv_df = True

    @property
    def T(self):
        return Frame(self.data.T, self.columns, self.index)

    def to_csv(self, path=None, *a, **k):
        if a or k:
            raise Unsupported("options of to_csv")
        ctx().data.setdefault("csv", []).append((path, self))


def export(modular, how, path):
    def run(p):
        C = Chain(p, True)
        join = z3.Function("JOIN", SZ, SZ, SZ)
        osx = StubModule("os", path=StubModule("os.path", join=lambda a, b: SymStr(join(a._z, b._z if isinstance(b, SymStr) else z3.StringVal(b)))))
        g = shims(p, pandas=StubModule("pandas", DataFrame=Frame), os=osx)
        o = model(g, p, C, stub=modular)
        n = tuned(p, o, True)
        kw = {}
        if how:
            n = kw["tune"] = pos(p, "asked")
        want = SymStr(join(o.path._z, z3.Concat(o.name._z, z3.StringVal("_posterior.csv"))))
        if path:
            want = kw["path"] = SymStr(z3.String("file"))
            p.assume(z3.Length(want._z) > 0)
        before = o._pv_fields()
        g.load("clsmethods").posterior2csv(o, **kw)
        out = p.data.get("csv", [])
        if not p.prove(len(out) == 1, "one file is written"):
            return
        f, d = out[0]
        p.prove(f._z == want._z, "the file is that asked for")
        if not isinstance(d.data, SArr) or not isinstance(d.index, PList):
            raise Unsupported("exported table")
        p.prove(d.columns is None, "columns are numbered")
        p.prove(arr.deq(d.index.length(), C.nd), "one row per estimated parameter")
        i = Int()
        p.assume(band(i >= 0, i < C.nd))
        p.prove(d.index.at(i)._z == o.prior_names.at(i)._z, "rows carry the names of the estimated parameters")
        C.retained(d.data.T, n, "exported draws")
        unchanged(p, o, before)
    return Unit("clsmethods.posterior2csv(%s, %s)" % ("tune given" if how else "own tune", "file given" if path else "own file"), run,
                functions=["clsmethods.posterior2csv", "clsmethods.get_tune"])


def density(modular, method, how):
    def run(p):
        C = Chain(p, True)
        seen = []
        res = Real("MDD")

        def lap(chain, lprobs, calc_hess=True, **k):
            seen.append(("hess" if calc_hess else "laplace", chain, lprobs))
            return res

        def mhm(chain, lprobs, pool=None, verbose=False, **k):
            seen.append(("mhm", chain, lprobs))
            return res
        summary = object()

        def summ(chain, lprobs, priors=None, acceptance_fraction=None, **k):
            seen.append(("summary", chain, lprobs))
            p.prove(priors is o.prior, "the summary uses the prior of the model")
            return summary
        g = shims(p, emcwrap=StubModule("emcwrap", mdd_laplace=lap, mdd_harmonic_mean=mhm, mcmc_summary=summ))
        o = model(g, p, C, stub=modular)
        n = tuned(p, o, True)
        kw = {}
        if how:
            n = kw["tune"] = pos(p, "asked")
        before = o._pv_fields()
        if method == "summary":
            r = g.load("clsmethods").mcmc_summary(o, **kw)
            p.prove(r is summary, "the summary is returned")
        else:
            r = g.load("stats").mdd(o, method=method, **kw)
            p.prove(isinstance(r, SymNum) and r._z.eq(res._z), "the density is returned")
        if not p.prove(len(seen) == 1 and seen[0][0] == method, "computed once, with the requested method"):
            return
        C.retained(seen[0][1], n, method)
        C.probs(seen[0][2], n, method)
        unchanged(p, o, before)
    return Unit("%s(%s)" % ("clsmethods.mcmc_summary" if method == "summary" else "stats.mdd", method + (", tune given" if how else "")), run,
                functions=["clsmethods.mcmc_summary" if method == "summary" else "stats.mdd"])


def source(kind, transformed):
    """get_chain and get_log_prob read the sampler, or the stored chain"""
    def run(p):
        C = Chain(p, transformed)
        EX = z3.Function("EXISTS", SZ, BZ)
        join = z3.Function("JOIN", SZ, SZ, SZ)
        z = lambda x: x._z if isinstance(x, SymStr) else z3.StringVal(x)
        osx = StubModule("os", path=StubModule("os.path", join=lambda a, b: SymStr(join(z(a), z(b))), exists=lambda f: mk(EX(z(f)))))
        opened = []

        def hdf(f, name="mcmc", read_only=False, **k):
            opened.append((f, read_only))
            return Sampler(C)
        g = shims(p, os=osx, emcee=StubModule("emcee", backends=StubModule("emcee.backends", HDFBackend=hdf)))
        m = g.load("clsmethods")
        o = model(g, p, C, stub=True)
        want = None
        kw = {}
        if kind == "sampler":
            o.sampler = Sampler(C)
        if kind == "argument":
            o.sampler = object()
            want = kw["backend_file"] = SymStr(z3.String("asked"))
            p.assume(z3.Length(want._z) > 0)
        if kind == "stored name":
            want = o.fdict["backend_file"] = SymStr(z3.String("file"))
            p.assume(z3.Length(want._z) > 0)
        if kind == "default name":
            want = SymStr(join(o.path._z, z3.Concat(o.name._z, z3.StringVal("_sampler.h5"))))
            p.assume(z3.Length(want._z) > 0)
        prepared = p.choose("prepared")

        def load_estim(**k):
            o.bptrans = C.bptrans if transformed else None
        o.load_estim = o.prep_estim = load_estim
        if prepared:
            load_estim()
        lp = p.choose("log_prob")
        flat = p.choose("flat")
        if flat:
            kw["flat"] = True
        try:
            r = m.get_log_prob(o, **kw) if lp else m.get_chain(o, **kw)
        except NameError as e:
            if isinstance(e, UnboundLocalError):
                raise
            p.prove(want is not None and z3.Not(EX(want._z)), "only a missing file is refused")
            return
        if want is not None:
            p.prove(EX(want._z), "a missing file is refused")
            p.prove(len(opened) == 1 and opened[0][1] is True, "the stored chain is opened for reading")
            p.prove(opened[0][0]._z == want._z, "the stored chain of this model is read")
        else:
            p.prove(not opened, "the chain of the sampler is used")
        if lp:
            C.probs(r, C.T, "log probabilities")
        else:
            C.retained(r, C.T, "the chain")
    return Unit("clsmethods.get_chain(%s%s)" % (kind, ", transformed" if transformed else ""), run, functions=["clsmethods.get_chain", "clsmethods.get_log_prob"])


def mcmc(transformed, default_tune, temp):
    def run(p):
        C = Chain(p, transformed)
        calls = []

        def run_mcmc(lprob, nsteps=None, p0=None, prior_transform=None, **k):
            calls.append((nsteps, p0, prior_transform, k))
            return Sampler(C)
        g = shims(p, emcwrap=StubModule("emcwrap", run_mcmc=run_mcmc), emcee=StubModule("emcee"), os=StubModule("os"),
                  grgrlib=StubModule("grgrlib", multiprocessing=StubModule("m", serializer=lambda f: f)),
                  **{"grgrlib.multiprocessing": StubModule("m", serializer=lambda f: f)})
        m = g.load("mcmc")
        o = model(g, p, C, stub=True)
        o.filter = Obj(name="KalmanFilter")
        o.lprob = lambda *a, **k: Real()
        o.pool = None
        o.debug = False
        o.description = SymStr(z3.String("description"))
        o.bptrans = C.bptrans if transformed else None
        o.fdict = dict(seed=0, mode_x="old", mode_f="old")
        steps = Int("nsteps")
        p.assume(steps >= 5)
        p0 = SArr((C.W, C.nd), Elem(lambda i, j: mk(z3.Function("P0", IZ, IZ, RZ)(zint(i), zint(j)))))
        n = None if default_tune else pos(p, "tune")
        t = {}
        if temp is not None:
            t["temp"] = temp if not isinstance(temp, str) else Real("temp")
            if isinstance(temp, str):
                p.assume(z3.And(t["temp"]._z >= 0, t["temp"]._z < 1))
        m.mcmc(o, p0, nsteps=steps, tune=n, backend=None, verbose=False, **t)
        if not p.prove(len(calls) == 1, "the sampler runs once"):
            return
        p.prove(isinstance(calls[0][0], SymInt) and calls[0][0]._z.eq(steps._z) and calls[0][1] is p0, "it runs as asked for")
        tn = type(o).get_tune.fget(o)
        if default_tune:
            p.prove(z3.And(5 * zint(tn) <= steps._z, steps._z < 5 * zint(tn) + 5), "one fifth of the steps is retained at default")
        else:
            p.prove(zint(tn) == n._z, "the tuning length is that asked for")
        p.prove(isinstance(o.sampler, Sampler) and o.sampler.C is C, "the chain of this run is that of the model")
        if isinstance(temp, str):
            p.prove(o.fdict["mode_x"] == "old" and o.fdict["mode_f"] == "old", "a tempered run does not replace the mode")
            return
        x, f = o.fdict["mode_x"], o.fdict["mode_f"]
        if not isinstance(x, SArr):
            raise Unsupported("mode of type %r" % (type(x),))
        p.prove(x.ndim == 1 and arr.deq(x.shape[0], C.nd), "the mode has all estimated parameters")
        mm = C.row(x, (), "mode")
        if mm is None:
            return
        keep = zint(C.keep(tn))
        p.prove(z3.And(mm[0] >= zint(C.T) - keep, mm[0] < zint(C.T), mm[1] >= 0, mm[1] < zint(C.W)), "the mode is a retained draw")
        p.prove(zreal(f) == C.LP(mm[0], mm[1]), "the stored density is that of the mode")
        t_, w_ = Int(), Int()
        p.assume(band(t_ >= C.T - mk(keep), t_ < C.T, w_ >= 0, w_ < C.W))
        # no entry is larger than that at a position of the largest
        for a, fl, i in p.data.get("argmax", []):
            if a.ndim == 2 and arr.deq(a.shape[0], mk(keep)):
                r = t_ - C.T + mk(keep)
                p.assume(zreal(a.elem(r, w_)) <= zreal(fl.elem(i)))
            elif a.ndim == 1 and arr.deq(a.shape[0], mk(keep) * C.W):
                r = t_ - C.T + mk(keep)
                p.assume(zreal(a.elem(arr.ipair(r, w_, C.W))) <= zreal(fl.elem(i)))
            elif a.ndim == 2 and arr.deq(a.shape[0], C.T):
                p.assume(zreal(a.elem(t_, w_)) <= zreal(fl.elem(i)))
        p.prove(C.LP(t_._z, w_._z) <= C.LP(mm[0], mm[1]), "no retained draw has a higher posterior than the mode")
    return Unit("mcmc.mcmc(%s, %s, %s)" % ("transformed" if transformed else "plain", "default tune" if default_tune else "tune", "temperature %s" % temp), run,
                functions=["mcmc.mcmc", "clsmethods.get_tune"])


def param_set(kind):
    """get_par('posterior_mean') and get_par('posterior') hand out these values"""
    def run(p):
        W = Params(p)
        for L in (W.par, W.dep):
            p.assume(z3.Not(L.KN(z3.StringVal(kind))))
        g = shims(p)
        m = g.load("mpile")
        AV, DR = z3.Function("MEANPAR", IZ, RZ), z3.Function("DRAWPAR", IZ, IZ, RZ)
        g.override("stats", "post_mean", lambda self, chain=None, tune=None: SArr((W.k,), Elem(lambda j: mk(AV(zint(j))))) if chain is None and tune is None else (_ for _ in ()).throw(Unsupported("other mean")))

        def sampler(self, nsamples, seed=0, verbose=True):
            return PList(sym=(nsamples, lambda i: SArr((W.k,), Elem(lambda j: mk(DR(zint(i), zint(j)))))))
        g.override("mpile", "posterior_sampler", sampler)
        r = m.get_par(W.o, kind, full=False) if kind in ("posterior_mean", "post_mean") else m.get_par(W.o, kind, full=False, nsamples=Int("ns"))
        j = Int()
        p.assume(band(j >= 0, j < W.k))
        if kind in ("posterior_mean", "post_mean"):
            if not isinstance(r, SArr):
                raise Unsupported("set of type %r" % (type(r),))
            p.prove(arr.deq(r.shape[0], W.k), "one value per estimated parameter")
            p.prove(zreal(r.elem(j)) == AV(j._z), "the set is the posterior mean")
        else:
            i = Int()
            p.assume(band(i >= 0, i < Int("ns")))
            x = r.at(i) if isinstance(r, (PList, SArr)) else None
            if x is None:
                raise Unsupported("draws of type %r" % (type(r),))
            p.prove(zreal(x.elem(j)) == DR(i._z, j._z), "the set is a sample of posterior draws")
    return Unit("mpile.get_par(%r)" % kind, run, functions=["mpile.get_par"])


def units(modular=True):
    us = [sample(modular, g) for g in (True, False)]
    us += [mean(modular, h) for h in ("tune", "fdict", "arg", "chain")]
    us += [draws(modular, h) for h in (True, False)]
    us += [export(modular, a, b) for a in (True, False) for b in (True, False)]
    us += [density(modular, m, h) for m in ("laplace", "hess", "mhm", "summary") for h in (True, False)]
    us += [source(k, t) for k in ("sampler", "argument", "stored name", "default name") for t in (True, False)]
    us += [mcmc(t, d, temp) for t in (True, False) for d in (True, False) for temp in (None, 1, "below one")]
    us += [param_set(k) for k in ("posterior_mean", "post_mean", "posterior")]
    return us
