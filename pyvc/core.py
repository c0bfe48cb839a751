"""Path exploration, path condition, obligations.

The functions under contract are executed by CPython itself, from /repo's
current source, on symbolic proxies.  Every symbolic branch forks: the function
is re-executed once per feasible decision string (depth first), so that the set
of explored paths covers every input satisfying the precondition.  Loops over
symbolic ranges are cut at invariants (loops.py).  `prove` emits an obligation.
"""
import os
import time
import z3


class PathEnd(BaseException):
    """this path is finished (a cut loop body was checked, or it is infeasible)"""


class Restart(BaseException):
    """an invariant candidate was dropped / the frame of a loop grew: start over"""


class Unsupported(Exception):
    """the code left the subset the verifier models"""


class Unbounded(Unsupported):
    pass


class Obligation:
    __slots__ = ("label", "status", "detail", "model", "backend", "secs")

    def __init__(self, label, status, detail="", model=None, backend="z3", secs=0.0):
        self.label, self.status, self.detail = label, status, detail
        self.model, self.backend, self.secs = model, backend, secs

    def as_dict(self):
        return dict(label=self.label, status=self.status, detail=self.detail,
                    model=self.model, backend=self.backend, secs=round(self.secs, 3))


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.restarts = 0
        self.second_backend = 0
        self.second_backend_agree = 0


STATS = Stats()
CTX = None          # the current path context


def ctx():
    if CTX is None:
        raise Unsupported("no active path")
    return CTX


FEAS_MS = 4000
PROVE_MS = 20000
SECOND = {"cvc5": False}     # thorough tier: re-discharge with cvc5


class Path:
    """one execution of the function under contract"""

    def __init__(self, unit, trace):
        self.unit = unit
        self.trace = list(trace)       # decisions to replay: (value, forced)
        self.pos = 0
        self.pending = []              # alternative traces discovered on the way
        self.pc = []
        self.solver = z3.Solver()
        self.fresh_n = 0
        self.sub = None                # nested exploration (see forall_paths)
        self.mutated = []              # stack of sets of mutated objects (loop bodies)
        self.rules = []                # rewrite rules of the matrix back end
        self.rank = {}                 # elimination ranks of atoms in those rules
        self.idxreps = []              # canonical index terms
        self.loop_stack = []
        self.events = []               # ghost event log
        self.data = {}                 # contract scratch space
        self.decided = {}
        self.par_log = None            # accesses inside a parallel loop iteration

    # -- naming -----------------------------------------------------------
    def fresh(self, hint="v"):
        self.fresh_n += 1
        return "%s!%d" % (hint, self.fresh_n)

    # -- path condition ---------------------------------------------------
    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise PathEnd()
            return
        b = raw(b)
        if isinstance(b, bool):
            if not b:
                raise PathEnd()
            return
        if z3.is_true(b):
            return
        self.pc.append(b)
        self.solver.add(b)
        if z3.is_false(z3.simplify(b)):
            raise PathEnd()

    def check(self, *extra, ms=FEAS_MS):
        STATS.queries += 1
        t = time.time()
        self.solver.set("timeout", ms)
        r = self.solver.check(*extra)
        STATS.solver_s += time.time() - t
        return r

    def entails(self, b, ms=FEAS_MS):
        """PC |= b, quietly"""
        b = raw(b)
        if isinstance(b, bool):
            return b
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return self.check(ms=ms) == z3.unsat
        key = (len(self.pc), b.get_id())
        if key in self.decided:
            return self.decided[key][1]
        r = self.check(z3.Not(b), ms=ms) == z3.unsat
        self.decided[key] = (b, r)
        return r

    # -- branching --------------------------------------------------------
    def branch(self, b):
        b = raw(b)
        if isinstance(b, bool):
            return b
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        tr = self.sub if self.sub is not None else self
        if tr.pos < len(tr.trace):
            val, forced = tr.trace[tr.pos]
            tr.pos += 1
            if not forced:
                self.assume(b if val else z3.Not(b))
            return val
        can_t = self.check(b) != z3.unsat
        can_f = self.check(z3.Not(b)) != z3.unsat
        if not can_t and not can_f:
            raise PathEnd()
        if can_t and can_f:
            tr.pending.append(tr.trace + [(False, False)])
            tr.trace.append((True, False))
            tr.pos += 1
            self.assume(b)
            return True
        val = can_t
        tr.trace.append((val, True))
        tr.pos += 1
        return val

    def choose(self, label=""):
        """nondeterministic choice (both branches explored)"""
        v = z3.Bool(self.fresh("choice" + label))
        return self.branch(v)

    def watch(self):
        """set of all objects modified from now on (frame conditions)"""
        from .loops import _IdSet
        s = _IdSet()
        self.mutated.append(s)
        return s

    def prove_frame(self, watched, frozen, label):
        bad = [o for o in watched if any(o is f for f in frozen)]
        self.prove(not bad, label, detail="" if not bad else "modified: %r" % (bad[:3],))

    # -- nested universally quantified exploration ---------------------------
    def forall_paths(self, fn):
        """run fn() on every sub-path; returns the list of results; PC restored"""
        results = []
        work = [[]]
        saved_sub, saved_pc, saved_dec = self.sub, list(self.pc), dict(self.decided)
        saved_fresh, saved_mut = self.fresh_n, self.mutated
        saved_reps = list(self.idxreps)
        n = 0
        while work:
            n += 1
            if n > 4000:
                raise Unsupported("too many sub-paths")
            sub = _Sub(work.pop())
            self.sub = sub
            self.mutated = []
            saved_par, self.par_log = self.par_log, None
            self.solver.push()
            try:
                try:
                    results.append(fn())
                except PathEnd:
                    pass
            finally:
                self.solver.pop()
                self.sub = saved_sub
                self.pc = list(saved_pc)
                self.decided = dict(saved_dec)
                self.fresh_n = saved_fresh
                self.par_log = saved_par
                self.mutated = saved_mut
                self.idxreps = list(saved_reps)
            work.extend(sub.pending)
        return results

    # -- obligations ------------------------------------------------------
    def condition(self, fn):
        """z3 condition under which fn() is true, without splitting the path"""
        n0 = len(self.pc)

        def one():
            r = fn()
            r = raw(r)
            return z3.And(list(self.pc[n0:]) + [r if z3.is_expr(r) else z3.BoolVal(bool(r))])
        return z3.simplify(z3.Or(self.forall_paths(one)))

    def prove(self, b, label, detail="", ms=PROVE_MS, record=True):
        if getattr(self.unit, "frame_only", False):
            return True
        t = time.time()
        b = raw(b)
        if isinstance(b, bool):
            if b:
                st, model = "proved", None
            else:
                r = self.check(ms=ms)
                if r == z3.unknown:
                    r = self._retry(z3.BoolVal(False), ms)
                st = "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"
                model = self._model() if r == z3.sat else None
        else:
            sb = z3.simplify(b)
            if z3.is_true(sb):
                st, model = "proved", None
            else:
                r = self.check(z3.Not(b), ms=ms)
                if r == z3.unknown:
                    r = self._retry(b, ms)
                model = None
                if r == z3.unsat:
                    st = "proved"
                    if SECOND["cvc5"]:
                        self._second(b)
                elif r == z3.sat:
                    st = "refuted"
                    model = self._model()
                else:
                    st = "unknown"
                    detail = (detail + " solver: " + str(self.solver.reason_unknown())).strip()
        if record:
            self.record(Obligation(label, st, detail if detail else ("" if st == "proved" else str(b)[:1500]),
                                   model, "z3", time.time() - t))
            if st != "proved" and not isinstance(b, bool):
                self.solver.add(b)     # go on as if it held, later obligations are still reported
                self.pc.append(b)
        return st == "proved"

    def record(self, ob):
        self.unit.obligations.append(ob)

    def _retry(self, b, ms):
        """second attempt: fresh solver, other seed; then cvc5"""
        for seed in (7, 23):
            s = z3.Solver()
            s.set("timeout", ms)
            s.set("random_seed", seed)
            s.add(*self.pc)
            s.add(z3.Not(b))
            STATS.queries += 1
            t = time.time()
            r = s.check()
            STATS.solver_s += time.time() - t
            if r != z3.unknown:
                self._last = s
                return r
        r = cvc5_check(self.pc + [z3.Not(b)], ms)
        return {"unsat": z3.unsat, "sat": z3.unknown}.get(r, z3.unknown)

    def _second(self, b):
        STATS.second_backend += 1
        if cvc5_check(self.pc + [z3.Not(b)], 10000) == "unsat":
            STATS.second_backend_agree += 1

    def _model(self):
        try:
            m = self.solver.model()
            return m.sexpr()[:20000]
        except z3.Z3Exception:
            return None


class _Sub:
    def __init__(self, trace):
        self.trace = list(trace)
        self.pos = 0
        self.pending = []


def cvc5_check(assertions, ms):
    import subprocess, tempfile, os, shutil
    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    s = z3.Solver()
    s.add(*assertions)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2")
    os.write(fd, txt.encode())
    os.close(fd)
    try:
        t = time.time()
        out = subprocess.run([exe, "--tlimit=%d" % ms, "--strings-exp", p],
                             capture_output=True, text=True, timeout=ms / 1000 + 10).stdout
        STATS.solver_s += time.time() - t
        return out.strip().split("\n")[0] if out.strip() else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(p)


def raw(x):
    """z3 term / python bool behind a proxy"""
    r = getattr(x, "_z", None)
    return r if r is not None else x


class Unit:
    """one function (or lemma) under contract: `run(path)` sets up symbolic inputs satisfying the
    precondition, calls the code, and proves the postcondition"""

    def __init__(self, name, run, loops=None, max_paths=20000, functions=(), time_limit=240,
                 termination=None, cut_while=True):
        self.name, self._run = name, run
        self.loops = loops
        self.functions = list(functions)
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.obligations = []
        self.completed = 0
        self.unsupported = None
        self.termination = termination
        self.cut_while = cut_while
        self.loops_cut = set()
        self.drop_log = []
        self.list_elems = {}
        self.canary = None
        # persistent over restarts
        self.dropped = set()
        self.mutsets = {}
        self.havoc_types = {}
        self.inv_used = {}
        self.frame_only = False

    def verify(self):
        """phase 1 finds out what every loop changes (no invariants), phase 2 proves"""
        t0 = time.time()
        self.frame_only = True
        self._explore(t0, t0 + self.time_limit / 3, quiet=True)
        self.frame_only = False
        self.dropped, self.drop_log = set(), []
        self._explore(t0, t0 + self.time_limit)
        self.secs = time.time() - t0
        return self

    def _explore(self, t0, deadline, quiet=False):
        global CTX
        for attempt in range(400):
            self.obligations = []
            self.completed = 0
            self.inv_used = {}
            self.unsupported = None
            work = [[]]
            n = 0
            try:
                while work:
                    n += 1
                    STATS.paths += 1
                    if n > self.max_paths:
                        raise Unsupported("path budget exceeded")
                    if time.time() > deadline:
                        raise Unsupported("time budget exceeded")
                    p = Path(self, work.pop())
                    CTX = p
                    try:
                        self._run(p)
                        self.completed += 1
                    except PathEnd:
                        pass
                    finally:
                        CTX = None
                    work.extend(p.pending)
                if quiet and not self.loops_cut:
                    return
            except Restart:
                STATS.restarts += 1
                continue
            except Unsupported as e:
                self.unsupported = "%s: %s" % (type(e).__name__, e)
                if not quiet:
                    import traceback
                    self.tb = traceback.format_exc()
            except RecursionError as e:
                self.unsupported = "RecursionError"
            except Exception as e:
                self._crash(e)
            break
        else:
            self.unsupported = "no fixpoint of invariant candidates"

    def _crash(self, e):
        """an exception escaped from the code: a failed obligation if the code (or the array semantics)
        raised it on a path satisfying the precondition, otherwise a limit of the verifier"""
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        where = next((f for f in reversed(tb) if f.filename.startswith(os.environ.get("VERIF_REPO", "/repo") + "/")), None)
        text = "%s: %s" % (type(e).__name__, e)
        explicit = last.filename.startswith(os.environ.get("VERIF_REPO", "/repo") + "/") and (last.line or "").lstrip().startswith("raise")
        if where is not None and (isinstance(e, (IndexError, UnboundLocalError, ZeroDivisionError)) or explicit
                                  or (isinstance(e, ValueError) and "arr.py" in last.filename)):
            self.obligations.append(Obligation(
                "no exception under the precondition", "refuted",
                "%s at %s:%s  %s" % (text, where.filename, where.lineno, where.line)))
        else:
            self.unsupported = "%s at %s:%s %s" % (text, last.filename, last.lineno, last.line)
            self.tb = traceback.format_exc()

    @property
    def failed(self):
        return [o for o in self.obligations if o.status != "proved"]

    @property
    def ok(self):
        return self.unsupported is None and not self.failed and self.obligations and self.completed > 0
