"""C11: filters start from the stationary distribution of the current model"""
import z3
from pyvc import arr, nc
from pyvc.core import Unit, ctx, Unsupported
from pyvc.loader import Obj, StubModule
from pyvc.nc import Poly
from pyvc.sym import Int, Real, SymInt, SymReal, band, zint, zreal, mk
from pyvc.arr import SArr, Block
from .model_spec import program

ASSUMPTIONS = [
    "scipy.linalg.solve_discrete_lyapunov(A, Q) returns an X with X = A X A' + Q (unique for a stable model, and symmetric if Q is)",
    "the rule of the unconstrained regime is precalc_mat[..][l, 0] (C02: the same for all l), with the innovations in the last columns (C07)",
    "QQ(ppar) is the diagonal matrix of the standard deviations of the current parameters (C08); Q is square-of-QQ after the parameters were set (proved for set_par, create_filter) or what run_filter itself stored",
    "econsieve's filters use their attributes F, H, P, Q, R, init_cov as they are when batch_filter is called",
]
INLINED = True


class Regimes:
    """table of rules; only those of the unconstrained regime are known"""

    def __init__(self, m):
        self.m = m
        self.shape = (Int("l_max") + 1, Int("k_max") + 1) + m.shape

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[1] == 0:
            return self.m
        raise Unsupported("regime %r" % (k,))


class World:
    def __init__(self, p):
        self.p = p
        self.dp, self.ds, self.ne, self.no, self.T = Int("dimp"), Int("dimstate"), Int("neps"), Int("nobs"), Int("T")
        for x in (self.dp, self.ds, self.ne, self.no, self.T):
            p.assume(x >= 1)
        dp, ds, ne, no = self.dp, self.ds, self.ne, self.no
        self.P1, self.P2 = arr.mat("P1", dp, ds), arr.mat("P2", dp, ne)
        self.Q1, self.Q2 = arr.mat("Q1", ds, ds), arr.mat("Q2", ds, ne)
        self.pm = arr.hstack([self.P1, self.P2])
        self.qm = arr.vstack([arr.hstack([self.Q1, self.Q2]), arr.hstack([arr.mat("Q3", ne, ds), arr.mat("Q4", ne, ne)])])
        self.h0, self.h1, self.h2 = arr.mat("hx0", no, dp), arr.mat("hx1", no, ds), arr.vec("hx2", no)
        o = self.o = Obj(dimp=dp, dimq=ds + ne, dimeps=ne, neps=ne, dimx=dp + ds, nobs=no, fdict={})
        o.precalc_mat = (Regimes(self.pm), Regimes(self.qm))
        o.hx = (self.h0, self.h1, self.h2)
        o.data = arr.mat("data", self.T, no)
        o.ppar = object()
        nc.SYMMETRIC["SD"] = True
        self.sd = arr.mat("SD", ne, ne)
        o.QQ = self.QQ
        o.t_func = lambda *a, **k: self.opaque("t_func")
        o.o_func = lambda *a, **k: self.opaque("o_func")
        o.get_eps_lin = lambda *a, **k: self.opaque("get_eps")
        self.lyap = 0
        p.rank = {}
        self.F = arr.vstack([self.P1, self.Q1])
        self.E = arr.vstack([self.P2, self.Q2])

    def opaque(self, what):
        raise Unsupported("call of " + what)

    def QQ(self, ppar):
        if ppar is not self.o.ppar:
            raise Unsupported("standard deviations of other parameters")
        return self.sd.copy()

    @property
    def var(self):
        return arr.matmul(self.sd, self.sd)

    def lyapunov(self, A, Q, *a, **k):
        p = self.p
        n = A.shape[0]
        if A.ndim != 2 or Q.ndim != 2 or not all(arr.deq(x, n) for x in (A.shape[1],) + tuple(Q.shape)):
            raise ValueError("Matrix a and q must be square and of the same shape")
        A, Q = A.block().copy(), Q.block().copy()
        arr.align(A, A.T(), 0, 0)
        B = A.T()
        arr.align(A, B, 1, 0)
        arr.align(Q, A, 0, 0)
        arr.align(Q, A, 1, 0)
        if len(A.rows) != len(A.cols):
            raise Unsupported("stationarity equation of a partitioned matrix")
        self.lyap += 1
        b = {}
        m = range(len(A.rows))
        # the solution of a symmetric equation is symmetric
        sym = all(nc.is_zero(Q.b[i, j].add(Q.b[j, i].T(), nc.Fraction(-1))) for i in m for j in m)
        for i in m:
            for j in m:
                nm = "LYAP%s%d_%d_%d" % ("s" if sym else "", self.lyap, i, j)
                p.rank[nm] = 1
                if sym and i == j:
                    nc.SYMMETRIC[nm] = True
                b[i, j] = b[j, i].T() if sym and j < i else Poly.of(nc.atom(nm))
        X = Block(list(A.rows), list(A.rows), b)
        R = arr.badd(arr.bmatmul(arr.bmatmul(A, X), A.T()), Q)
        for ij in b:
            nc.add_rule(b[ij], R.b[ij])
        return SArr((n, n), X)

    def shims(self):
        np_pad = pad
        return dict(
            scipy=StubModule("scipy", linalg=StubModule("scipy.linalg", solve_discrete_lyapunov=self.lyapunov)),
            grgrlib=StubModule("grgrlib", timeprint=lambda *a, **k: "", multiprocessing=StubModule("m", serializer=lambda *f: f[0] if len(f) == 1 else f)),
        )

    def program(self, **k):
        s = self.shims()
        s.update(k)
        g = program(**s)
        g.shims["numpy"].pad = pad
        g.shims["numpy"].linalg.pinv = lambda a, *x, **k: arr.mat(ctx().fresh("pinv"), a.shape[1], a.shape[0])
        return g

    def stationary(self, X, F, V, label):
        """X = F X F' + V"""
        p = self.p
        n = F.shape[0]
        if not (isinstance(X, SArr) and X.ndim == 2 and arr.deq(X.shape[0], n) and arr.deq(X.shape[1], n)):
            p.prove(False, label + " (shape)")
            return
        p.prove(arr.arr_equal(X, arr.matmul(arr.matmul(F, X), F.T) + V), label)

    def full(self):
        return arr.hstack([arr.zeros((self.dp + self.ds, self.dp)), self.F])


def pad(a, width, *r, **k):
    if r and r[0] != "constant" or k and (set(k) - {"mode", "constant_values"} or k.get("mode", "constant") != "constant" or k.get("constant_values", 0) != 0):
        raise Unsupported("np.pad")
    if a.ndim != 2:
        raise Unsupported("np.pad")
    if isinstance(width, int) or not isinstance(width[0], (tuple, list)):
        raise Unsupported("np.pad width")
    (t, b), (l, r_) = width
    z = lambda v: isinstance(v, int) and v == 0
    if not z(l):
        a = arr.hstack([arr.zeros((a.shape[0], l)), a])
    if not z(r_):
        a = arr.hstack([a, arr.zeros((a.shape[0], r_))])
    if not z(t):
        a = arr.vstack([arr.zeros((t, a.shape[1])), a])
    if not z(b):
        a = arr.vstack([a, arr.zeros((b, a.shape[1]))])
    return a


def units(modular=True):
    out = []

    def runs(p, kind):
        W = World(p)
        m = W.program().load("filtering")
        o = W.o
        p.data["isnan"] = lambda x: False
        rec = {}
        f = Obj(name="KalmanFilter" if kind == "KF" else "TEnKF", init_cov=None)
        if kind != "KF":
            f.reduced_form = kind == "reduced"
        o.filter = f

        def batch_filter(Z, *a, **k):
            rec["n"] = rec.get("n", 0) + 1
            rec.update({x: getattr(f, x, None) for x in ("P", "Q", "F", "H", "t_func", "o_func")})
            ok = isinstance(Z, SArr) and Z.ndim == 2 and all(arr.deq(x, y) for x, y in zip(Z.shape, o.data.shape)) and arr.arr_equal(Z, o.data)
            p.prove(ok, "the filter is run on the data")
            if kind == "KF":
                return "means", "covs", Real("ll")
            return Real("ll") if k.get("calc_ll") else "states"
        f.batch_filter = batch_filter
        f.rts_smoother = lambda *a, **k: ("means", "covs", None, None) if kind == "KF" else ("means", "covs")
        n = W.ds if kind == "reduced" else W.dp + W.ds
        # the shock covariance as left by set_par / create_filter, or by an earlier run
        f.Q = W.var
        if kind == "KF" and p.choose(".earlier run"):
            f.Q = arr.matmul(arr.matmul(W.E, W.var), W.E.T)
            f.Q_full = f.Q
            if p.choose(".then set"):
                f.Q = W.var
        given = how = None
        kw = {}
        if p.choose(".given"):
            given = arr.mat("given", n, n)
            if p.choose(".as argument"):
                kw["init_cov"] = given
                if p.choose(".over an earlier one"):
                    f.init_cov = arr.mat("stalecov", n, n)
            else:
                f.init_cov = given
        if p.choose(".ll"):
            kw.update(smoother=False, get_ll=True)
        elif p.choose(".no smoother"):
            kw["smoother"] = False
        seen = p.watch()
        Qarg = f.Q
        try:
            m.run_filter(o, **kw)
        except NotImplementedError:
            p.prove(z3.Or(zint(W.no) == 1, zint(W.no) != zint(W.ne)), "only unsupported numbers of observables are refused")
            p.prove(not rec, "a refusal comes first")
            return
        p.prove_frame(seen, [x for x in (given, W.sd, o.data, W.pm, W.qm) if x is not None], "nothing that was given is modified")
        p.prove(rec.get("n") == 1, "the filter is run once")
        if rec.get("n") != 1:
            return
        P, Q = rec["P"], rec["Q"]
        if kind == "KF":
            V = arr.matmul(arr.matmul(W.E, W.var), W.E.T)
            ok = isinstance(Q, SArr) and Q.ndim == 2 and arr.deq(Q.shape[0], n) and arr.deq(Q.shape[1], n)
            p.prove(ok and arr.arr_equal(Q, V), "the shock covariance in use is that of the current standard deviations (in states)")
            F = W.full()
            ok = isinstance(rec["F"], SArr) and all(arr.deq(x, n) for x in rec["F"].shape)
            p.prove(ok and arr.arr_equal(rec["F"], F), "the law of motion is that of the current model")
            H = rec["H"]
            ok = isinstance(H, tuple) and len(H) == 2 and isinstance(H[0], SArr) and arr.deq(H[0].shape[1], n)
            p.prove(ok and arr.arr_equal(H[0], arr.hstack([W.h0, W.h1])) and arr.arr_equal(H[1], W.h2), "the observation equation is that of the current model")
        elif kind == "reduced":
            F, V = W.Q1, arr.matmul(arr.matmul(W.Q2, W.var), W.Q2.T)
        else:
            F, V = W.full(), arr.matmul(arr.matmul(W.E, W.var), W.E.T)
        if kind != "KF":
            ok = isinstance(Q, SArr) and Q.ndim == 2 and all(arr.deq(x, W.ne) for x in Q.shape)
            p.prove(ok and arr.arr_equal(Q, W.var), "the shock covariance in use is that of the current standard deviations")
        if given is not None:
            ok = isinstance(P, SArr) and P.ndim == 2 and all(arr.deq(x, n) for x in P.shape)
            p.prove(ok and arr.arr_equal(P, given), "a given initial covariance is used as it is")
        else:
            W.stationary(P, F, V, "the initial covariance is stationary under the current law of motion")
            p.prove(getattr(f, "init_cov", None) is None, "later runs start from the stationary distribution as well")
        # what is left for later runs: still the covariance of the current parameters
        q = f.Q
        if kind == "KF" and q is getattr(f, "Q_full", None):
            p.prove(arr.arr_equal(q, V), "the stored covariance is that of the current parameters")
        else:
            p.prove(isinstance(q, SArr) and all(arr.deq(x, W.ne) for x in q.shape) and arr.arr_equal(q, W.var), "the stored covariance is that of the current parameters")
    for kind in ("KF", "full", "reduced"):
        out.append(Unit("run_filter (%s)" % kind, lambda p, kind=kind: runs(p, kind), functions=["filtering.run_filter", "filtering.get_p_init_lyapunov"], time_limit=400))

    def create(p):
        W = World(p)
        made = []

        def maker(name):
            def mk_(*a, **k):
                f = Obj(name=name, args=k, Q=arr.mat("eye", k["dim_x"], k["dim_x"]), R=arr.mat("R0", W.no, W.no))
                made.append((name, k, f))
                return f
            return mk_
        m = W.program(econsieve=StubModule("econsieve", KalmanFilter=maker("KalmanFilter"), TEnKF=maker("TEnKF"), stats=StubModule("econsieve.stats"))).load("filtering")
        o = W.o
        kw = {}
        kf = p.choose(".KF")
        red = False
        if kf:
            kw["ftype"] = "KF" if p.choose(".short") else "KalmanFilter"
        else:
            kw["ftype"] = "TEnKF" if p.choose(".type") else None
            red = bool(p.choose(".reduced"))
            if red or p.choose(".reduced given"):
                kw["reduced_form"] = red
            kw["N"] = Int("N")
        R = None
        if p.choose(".R"):
            R = kw["R"] = arr.mat("R", W.no, W.no)
        if p.choose(".old filter"):
            o.filter = Obj(Q=arr.mat("stale", W.ne, W.ne), init_cov=arr.mat("stalecov", W.ne, W.ne))
        r = m.create_filter(o, **kw)
        p.prove(len(made) == 1 and made[0][0] == ("KalmanFilter" if kf else "TEnKF"), "one filter of the requested type is created")
        f = made[0][2]
        p.prove(r is f and o.filter is f, "it is the filter of the model")
        k = made[0][1]
        p.prove(arr.deq(k.get("dim_x"), W.ds if red else W.dp + W.ds) and arr.deq(k.get("dim_z"), W.no), "dimensions of the filter")
        if not kf:
            p.prove(f.reduced_form is red, "reduced form as requested")
            p.prove(zint(k.get("N")) == zint(kw["N"]), "number of members as requested")
        if R is not None:
            p.prove(arr.arr_equal(f.R, R), "measurement errors as given")
        p.prove(f.init_cov is None, "by default the initial covariance is the stationary one")
        p.prove(isinstance(f.Q, SArr) and all(arr.deq(x, W.ne) for x in f.Q.shape) and arr.arr_equal(f.Q, W.var), "the shock covariance is the square of the current standard deviations")
    out.append(Unit("create_filter", create, functions=["filtering.create_filter"]))

    def lyap(p):
        W = World(p)
        m = W.program().load("filtering")
        nc.SYMMETRIC["Qany"] = True
        Q = arr.mat("Qany", W.ne, W.ne)
        X = m.get_p_init_lyapunov(W.o, Q)
        W.stationary(X, W.full(), arr.matmul(arr.matmul(W.E, Q), W.E.T), "the covariance is stationary")
    out.append(Unit("get_p_init_lyapunov", lyap, functions=["filtering.get_p_init_lyapunov"]))

    # the shock covariance follows the parameters: set_par, by name, by vector, by set
    from . import c09

    def setting(p):
        W, m = c09.load(p)
        V = z3.Function("GIVEN", c09.IZ, c09.RZ)
        W.o.filter = Obj(Q=arr.mat("stale", Int("neps"), Int("neps")), Q_full=None)
        how = 0 if p.choose(".name") else 1 if p.choose(".vector") else 2 if p.choose(".calib") else 3
        if how == 0:
            nm = c09.Name(z3.String("name"))
            p.assume(W.par.known(nm))
            for x in c09.SETS:
                p.assume(nm._z != x)
            m.set_par(W.o, nm, Real("value"))
        elif how == 1:
            p.assume(W.k < W.n)
            m.set_par(W.o, SArr((W.k,), arr.Elem(lambda i: mk(V(zint(i))))))
        else:
            for x in c09.SETS:
                p.assume(z3.And(z3.Not(W.par.known(x)), z3.Not(W.dep.known(x))))
            m.set_par(W.o, "calib" if how == 2 else "mode")
        q = W.o.QQ(W.o.ppar)
        p.prove(arr.arr_equal(W.o.filter.Q, arr.matmul(q, q)), "the shock covariance of the filter follows the parameters")
    out.append(Unit("set_par (covariance of the filter)", setting, functions=["mpile.set_par"]))
    return out
