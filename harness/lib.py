"""Runtime contract harness: evaluates the same contracts on the real code in /repo.

Used (a) to turn failed obligations into failing inputs that are replayed on the real code, (b) as the labelled
bounded stand-in where code is outside the verifier's subset, (c) to test the assumptions of the proofs."""
import os, sys, time, json, traceback, contextlib, io
import numpy as np

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


class Skip(Exception):
    pass


class H:
    def __init__(self, prop, seed, tier, budget, scratch, only=None):
        self.prop, self.seed, self.tier, self.budget = prop, seed, tier, budget
        self.scratch = scratch
        self.t0 = time.time()
        self.only = only
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.skips = 0
        self.notes = {}
        self._case = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return self.budget - (time.time() - self.t0)

    def rng(self, *key):
        import zlib
        return np.random.default_rng([self.seed, zlib.crc32(repr((self.prop,) + key).encode())])

    def cases(self, label, n, nmin=1):
        """case numbers, while the budget lasts (at least nmin)"""
        for i in range(n):
            if self.only is not None and self.only != "%s/%d" % (label, i):
                continue
            if i >= nmin and self.left() < 0:
                self.note("budget of %ds used up at %s/%d" % (self.budget, label, i))
                return
            if len(self.failures) >= 5:
                return
            self._case = "%s/%d" % (label, i)
            yield i

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def check(self, ok, what, **inputs):
        """one evaluation of a postcondition on the real code"""
        self.evals += 1
        key = (what, self._case)
        self.distinct.add(key)
        if len(self.samples) < 3 and len(inputs) and not any(s["what"] == what for s in self.samples):
            self.samples.append(dict(case=self._case, what=what, inputs=jsonable(inputs)))
        if not bool(ok):
            self.failures.append(dict(case=self._case, what=what, inputs=jsonable(inputs)))
        return bool(ok)

    def close(self, a, b, what, tol=1e-7, **inputs):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return self.check(False, what + " (shapes %s %s)" % (a.shape, b.shape), **{**inputs, 'got': a, 'want': b})
        nan = np.isnan(a) != np.isnan(b)
        with np.errstate(all="ignore"):
            d = np.abs(a - b) > tol * (1 + np.abs(b))
            d = d & ~(np.isnan(a) & np.isnan(b)) & ~(a == b)
        ok = not (np.any(nan) or np.any(d))
        return self.check(ok, what, **(inputs if ok else {**inputs, 'got': a, 'want': b}))

    @contextlib.contextmanager
    def guard(self, what, **inputs):
        """an exception of the code under valid inputs is a failure of the contract `what`"""
        try:
            yield
        except Skip:
            self.skips += 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if tb[-1].filename.endswith("harness/models.py") or any(f.filename.endswith("harness/models.py") for f in tb) and \
                    isinstance(e, np.linalg.LinAlgError):
                self.skips += 1          # the oracle has no (accurate) answer
                return
            code = any("/pydsge/" in f.filename for f in tb)
            self.failures.append(dict(case=self._case, what=what + (" (no exception)" if code else " (results have the documented form)"),
                                      inputs=jsonable(inputs), error="%s: %s" % (type(e).__name__, e),
                                      traceback=traceback.format_exc()[-3000:]))
            self.evals += 1

    @contextlib.contextmanager
    def quiet(self):
        with contextlib.redirect_stdout(io.StringIO()):
            yield

    def raises(self, fn, what, exc=Exception, **inputs):
        try:
            fn()
        except exc:
            return self.check(True, what, **inputs)
        except Exception as e:
            return self.check(False, what + " (raised %s)" % type(e).__name__, **inputs)
        return self.check(False, what + " (no exception)", **inputs)

    def internal(self, module, name, params):
        """an internal function, if it still has these parameters (refactorings may change internals)"""
        import inspect
        f = getattr(module, name, None)
        f = getattr(f, "py_func", f)
        if f is None or list(inspect.signature(f).parameters) != list(params):
            self.note("internal function %s has another signature: checked through the public interface only" % name)
            return None
        return getattr(module, name)

    def folder(self, name):
        p = os.path.join(self.scratch, name)
        os.makedirs(p, exist_ok=True)
        return p


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x][:200]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist() if x.size <= 400 else dict(shape=x.shape, head=x.ravel()[:50].tolist()), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    return repr(x)[:500]


# ------------------------------------------------------------------------------------------------ models
class World:
    """a random model read by pydsge, and its oracle"""

    def __init__(self, h, rng, name, features=None, l_max=None, k_max=None, spec=None, read=True, **kw):
        from harness.models import random_spec, Oracle
        for attempt in range(20):
            s = spec or random_spec(rng, name, features)
            try:
                self.oracle = Oracle(s)
                break
            except ValueError:
                if spec is not None:
                    raise Skip("oracle")
        else:
            raise Skip("no determinate model")
        self.spec = s
        self.folder = h.folder("m_" + name)
        self.file = s.write(self.folder)
        self.l_max, self.k_max = l_max, k_max
        if read:
            import pydsge
            with h.quiet():
                self.m = pydsge.DSGE.read(self.file)
                a = {}
                if l_max is not None:
                    a["l_max"] = l_max
                if k_max is not None:
                    a["k_max"] = k_max
                self.m.set_par("calib", verbose=False, **a, **kw)
            self.L = self.m.precalc_mat[5].shape[1]
            self.K = self.m.precalc_mat[5].shape[2]
            self.pos = {v: i for i, v in enumerate(self.m.vv)}

    @property
    def lk(self):
        """table sizes that follow from the documentation of l_max and k_max"""
        l, k = self.l_max, self.k_max
        k = 17 if k is None else k
        l = 3 if l is None else (max(l, 2) if k > 0 else l) + 1
        return l + 1, k + 1

    def names(self):
        return [v for v in self.spec.variables if v in self.pos]

    def compare(self, state, x):
        """(got, want) for the declared variables"""
        nm = self.names()
        return np.array([state[self.pos[v]] for v in nm]), np.array([x[self.oracle.ix[v]] for v in nm])

    def same(self, h, got, x, what, /, tol=1e-6, **inputs):
        """a state of pydsge against one of the oracle, relative to the size of the vector"""
        g, v = self.compare(np.asarray(got), x)
        ok = np.all(np.abs(g - v) <= tol * (1 + np.max(np.abs(v)))) and g.shape == v.shape
        return h.check(ok, what, **(inputs if ok else {**inputs, 'got': g, 'want': v, 'labels': self.names()}))

    def qvec(self, state, eps):
        """states stacked with innovations, as expected by traj and k_map"""
        n = self.m.dimq - self.m.dimeps
        return np.hstack((np.asarray(state)[len(state) - n:], eps))

    def walk(self, rng, n, scale=1., nonlinear=True):
        """a reachable pair (state of pydsge, state of the oracle)"""
        s, x = self.zero()
        for t in range(n):
            e = self.eps(rng, self.spec.x_bar * scale)
            l, k = (int(rng.integers(self.L)), int(rng.integers(min(self.K, 5)))) if nonlinear else (0, 0)
            s = self.m.t_func(s, e, set_k=(l, k), return_flag=False)
            x = self.oracle.step(x, e, l, k)
        return s, x

    def walk_lin(self, o, rng, n=3):
        """a state reachable in the linear model under the current parameters, of pydsge and of the given oracle"""
        s, x = np.zeros(len(self.m.vv)), np.zeros(o.n)
        for t in range(n):
            e = self.eps(rng, self.spec.x_bar)
            s = self.m.t_func(s, e, linear=True, return_flag=False)
            x = o.step(x, e, 0, 0)
        return s, x

    def zero(self):
        return np.zeros(len(self.m.vv)), np.zeros(self.oracle.n)

    def eps(self, rng, scale=1.):
        return rng.normal(size=self.oracle.m) * scale * rng.choice([0.2, 1., 4.])

    def desc(self):
        return self.spec.yaml()


def snap(m, skip=()):
    """content of a model object (plain values and arrays), for comparison"""
    def val(v, d=0):
        if isinstance(v, np.ndarray):
            return ("array", v.shape, v.astype(str).tolist() if v.dtype == object else v.tobytes())
        if isinstance(v, (int, float, str, bool, np.generic)) or v is None:
            return repr(v)
        if isinstance(v, (tuple, list)) and d < 3:
            return tuple(val(x, d + 1) for x in v)
        if isinstance(v, dict) and d < 3:
            return tuple((str(k), val(x, d + 1)) for k, x in v.items())
        return "opaque"
    return {k: val(v) for k, v in vars(m).items() if k not in skip}


def reordering(h, w):
    """a full vector of parameters, with one coefficient set to zero, that turns a state into a control (so that the variables
    come in another order), the oracle for it, and the new order; None if there is none"""
    import copy
    import dill
    from harness.models import Oracle
    m = w.m
    names = [str(p) for p in m.parameters]
    with h.quiet():
        m.set_par("calib")
        for k in names:
            if not k.startswith("rho"):
                continue
            p = np.array(m.par_fix, dtype=float)
            p[names.index(k)] = 0.
            c = dill.loads(dill.dumps(m, recurse=True))
            try:
                o = Oracle(w.spec, {q: v for q, v in zip(names, p) if q != "x_bar"}, p[names.index("x_bar")])
                c.set_par(p)
            except (ValueError, ZeroDivisionError):
                continue
            if list(c.vv) != list(m.vv) and sorted(c.vv) == sorted(m.vv):
                return p, o, list(c.vv)
    return None
