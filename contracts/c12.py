"""C12: extracted innovations reproduce the path they were extracted from"""
import z3
from pyvc import arr, nc
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.loops import Cand, CellCand, PList
from pyvc.nc import Poly
from pyvc.sym import Int, Real, SymInt, SymReal, band, zint, zreal, mk
from pyvc.arr import SArr, Block, matmul as mm
from . import c11
from .model_spec import program, DataFrame

ASSUMPTIONS = [
    "innovations are identified: the loadings of states on innovations have full column rank, so that pinv(E) E = 1 (numpy.linalg.pinv)",
    "the filter was run with the current parameters, so that filter.F is the current law of motion (C11)",
    "smoothed states of the linear filter are a path of the linear transition (run-time contract: against the conditional expectation given all data)",
    "one linear transition applies the rule of the unconstrained regime (C04); set_par compiles exactly the given parameters (C09)",
    "grgrlib: serializer returns an equivalent function, map2arr stacks the results in order; the mapper applies the function to every element",
]
INLINED = True


def units(modular=True):
    out = []

    def implied(p):
        W = c11.World(p)
        g = W.program()

        def pinv(a, *x, **k):
            """left inverse of a matrix of full column rank, unless singular values are cut off"""
            cut = [v for v in x[:1] + tuple(k.get(q) for q in ("rcond", "rtol")) if v is not None]
            p.prove(all(isinstance(v, (int, float)) and 0 <= v <= 1e-12 for v in cut) and set(k) <= {"rcond", "rtol", "hermitian"} and not k.get("hermitian"),
                    "no innovation is cut off because its loadings are relatively small")
            b = a.block()
            if len(b.cols) != 1:
                raise Unsupported("pseudo-inverse")
            nm = ctx().fresh("pinv")
            rows = range(len(b.rows))
            P = {(0, i): Poly.of(nc.atom("%s_%d" % (nm, i))) for i in rows}
            for i in rows:
                p.rank["%s_%d" % (nm, i)] = 1
            s = Poly()
            for i in rows:
                s = s.add(P[0, i].mul(b.b[i, 0]))
            nc.add_rule(s, Poly.one())
            return SArr((a.shape[1], a.shape[0]), Block(list(b.cols), list(b.rows), P))
        g.shims["numpy"].linalg.pinv = pinv
        m = g.load("filtering")
        o = W.o
        o.filter = Obj(name="KalmanFilter", F=W.full())
        s = arr.hstack([arr.vec("sp", W.dp), arr.vec("sq", W.ds)])
        e = arr.vec("eps", W.ne)
        n = mm(W.full(), s) + mm(W.E, e)
        seen = p.watch()
        r = m.get_eps_lin(o, n, s)
        p.prove_frame(seen, [n, s, W.pm, W.qm], "states are not modified")
        p.prove(isinstance(r, SArr) and r.ndim == 1 and arr.deq(r.shape[0], W.ne), "one innovation per shock")
        p.prove(arr.arr_equal(r, e), "the innovation that generated a state is recovered")
    out.append(Unit("get_eps_lin", implied, functions=["filtering.get_eps_lin"]))

    def extraction(p):
        dx, ne, T, npar, N = Int("dimx"), Int("neps"), Int("T"), Int("n_par"), Int("n_samples")
        p.assume(band(dx >= 1, ne >= 1, T >= 2, npar >= 1, N >= 1))
        st = lambda i, t: arr.atom_value("M", (i, t), (dx,))
        inn = lambda i, t: arr.atom_value("INN", (i, t), (ne,))
        cur = {}
        mapped = {}
        unknown = lambda n: arr.vec(ctx().fresh("unknown"), n)

        def loops(env):
            """after n transitions: states up to n and innovations before n"""
            res = []
            i = cur.get("i")
            if i is None:
                return res
            for v in env.arrays(2):
                a = env[v]
                if arr.deq(a.shape[1], dx):
                    res.append(CellCand("%s is the path so far" % v, v, 1, lambda e, k: z3.And(zint(k[0]) <= zint(e.n)), lambda e, k: st(i, k[0])))
                elif arr.deq(a.shape[1], ne):
                    res.append(CellCand("%s holds the innovations so far" % v, v, 1, lambda e, k: zint(k[0]) < zint(e.n), lambda e, k: inn(i, k[0])))
            return res
        p.unit.loops = loops

        def where(v, name):
            ix = arr.atom_index(v, name) if isinstance(v, SArr) else None
            if ix is None:
                return None
            return ix

        def set_par(par, *a, **k):
            ix = where(par, "PAR")
            cur.clear()
            if ix is not None and arr.arr_equal(par, arr.atom_value("PAR", ix, (npar,))):
                cur["i"] = ix[0]

        def run_filter(smoother=True, get_ll=False, init_cov=None, **k):
            cur["run"] = cur.get("i")
            p.prove(smoother is True and not get_ll, "states are smoothed")
            i = cur.get("i")
            if i is None:
                return arr.family(ctx().fresh("other"), (T, dx), 1), "covs"
            return SArr((T, dx), arr.Log(1, arr.FamBase(lambda t: st(i, t)))), "covs"

        def get_eps(x, xp, **k):
            a, b = where(x, "M"), where(xp, "M")
            i = cur.get("i")
            if None in (a, b, i, cur.get("run")):
                return unknown(ne)
            if all(arr.deq(q, i) for q in (a[0], b[0], cur["run"])) and arr.deq(a[1], b[1] + 1) and arr.arr_equal(x, st(*a)) and arr.arr_equal(xp, st(*b)):
                return inn(i, b[1])
            return unknown(ne)

        def t_func(state, shocks=None, set_k=None, return_flag=None, return_k=False, get_obs=False, linear=False, verbose=False):
            p.prove(bool(linear) and set_k is None and not get_obs, "transitions are linear")
            r = unknown(dx)
            a, b = where(state, "M"), where(shocks, "INN")
            i = cur.get("i")
            if None not in (a, b, i) and all(arr.deq(q, i) for q in (a[0], b[0])) and arr.deq(a[1], b[1]) and arr.arr_equal(state, st(*a)) and arr.arr_equal(shocks, inn(*b)):
                r = st(i, a[1] + 1)
            if return_flag is False:
                return r
            return r, 0

        class Stack:
            def __init__(self, k, n):
                self.k, self.shape = k, (n,)

            def __getitem__(self, i):
                return (self, i)

            def __setitem__(self, i, v):
                if i != 0 or not isinstance(v, DataFrame) or not isinstance(v.values, tuple) or v.values != (self, 0):
                    raise Unsupported("change of the results")

        def mapper(f, xs):
            mapped["f"], mapped["xs"] = f, xs
            return ("mapped", f, xs)

        def map2arr(r, *a, **k):
            if not (isinstance(r, tuple) and r[0] == "mapped"):
                raise Unsupported("results")
            f, xs = r[1], r[2]
            n = xs.length()
            p.prove(arr.deq(n, nn), "one result per parameter vector")
            i = Int("sample")
            p.assume(band(i >= 0, i < n))
            # the model may be in any state: results of other samples
            cur.clear()
            if p.choose(".after another"):
                cur["i"] = cur["run"] = Int("other_sample")
            x = xs.at(i)
            par, init, resid, flag = f(x)
            want = arr.atom_value("PAR", (i if samples else -1,), (npar,))
            j = i if samples else -1
            p.prove(isinstance(par, SArr) and arr.arr_equal(par, want), "parameters are stored with their results")
            p.prove(isinstance(init, SArr) and arr.arr_equal(init, st(j, 0)), "the initial state is the first smoothed state of these parameters")
            ok = isinstance(resid, SArr) and resid.ndim == 2 and arr.deq(resid.shape[0], T - 1) and arr.deq(resid.shape[1], ne)
            p.prove(ok, "one innovation per transition")
            if ok:
                t = Int("t")
                p.assume(band(t >= 0, t < T - 1))
                p.prove(arr.arr_equal(resid.read_idx((t,)) if hasattr(resid, "read_idx") else resid[t], inn(j, t)), "innovations are those whose linear transition path are the smoothed states")
            return tuple(Stack(k, n) for k in range(4))
        rnd = StubModule("numpy.random", seed=lambda *a: None, randint=lambda hi, size=None, **k: PList([Int(ctx().fresh("seed"))] * size) if isinstance(size, int) else None)
        g = program(grgrlib=StubModule("grgrlib", map2arr=map2arr, timeprint=lambda *a, **k: "", multiprocessing=StubModule("grgrlib.multiprocessing", serializer=lambda *f: f[0] if len(f) == 1 else f)))
        g.shims["numpy"].random = rnd
        m = g.load("filtering")
        o = Obj(dimp=Int("dimp"), dimeps=ne, neps=ne, dimx=dx, set_par=set_par, run_filter=run_filter, t_func=t_func, get_eps_lin=get_eps, mapper=mapper, obs=None)
        o.shocks, o.vv, o.observables = PList(sym=(ne, lambda i: "e")), PList(sym=(dx, lambda i: "v")), PList(sym=(Int("nobs"), lambda i: "o"))
        o.data = Obj(index=SArr((T,), arr.Elem(lambda i: i)))
        o.filter = Obj(name="KalmanFilter")
        if p.choose(".debug"):
            o.debug = bool(p.choose(".debug on"))
        samples = bool(p.choose(".many"))
        o.par = arr.atom_value("PAR", (-1,), (npar,))
        args = ()
        nn = 1
        if samples:
            args = (arr.family("PAR", (N, npar), 1),)
            nn = N
        elif p.choose(".one given"):
            args = (o.par,)
        kw = dict(verbose=False)
        if p.choose(".nsamples"):
            kw["nsamples"] = 3
        d = m.extract(o, *args, **kw)
        ok = isinstance(d, dict) and all(isinstance(d.get(x), Stack) and d[x].k == k for k, x in enumerate(("pars", "init", "resid", "flags")))
        p.prove(ok, "results are returned under their names")
    out.append(Unit("extract (linear filter)", extraction, functions=["filtering.extract"]))
    return out
