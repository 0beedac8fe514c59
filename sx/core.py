"""Path-exploring symbolic executor: decision trace, z3 frames, verdicts.

One `Explorer` explores one harness ("case").  The harness is executed many
times; each run follows a recorded prefix of decisions and extends it.  z3
frames are kept aligned with the decision trace so that constraints of a common
prefix are asserted once.
"""
from __future__ import annotations

import os
import random
import sys
import time

import z3


def message(exc):
    """The text of an exception, whose arguments may be symbolic."""
    try:
        return str(exc)
    except Unsupported:
        return repr(exc.args)


class PathAbort(BaseException):
    """Base of the engine's control-flow exceptions (never caught by code under test)."""


class Infeasible(PathAbort):
    """The path condition is unsatisfiable (or an assumption failed)."""


class Unsupported(PathAbort):
    """The code did something the engine has no model for."""


class LimitHit(PathAbort):
    """A per-path work bound was exceeded (possible non-termination)."""


class Deadline(PathAbort):
    """The case's time budget is exhausted."""


class Violated(PathAbort):
    """A property assertion can be false on this path."""

    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


EX = None  # the current explorer

PROFILE = {} if os.environ.get("SX_PROFILE") else None  # fork sites, for tuning harnesses


def fork_site():
    f, where = sys._getframe(2), []
    while f and len(where) < 4:
        n = f.f_code.co_filename
        if "/sx/" not in n:
            where.append(f"{n.rsplit('/', 1)[-1]}:{f.f_lineno}")
        f = f.f_back
    k = " < ".join(where)
    PROFILE[k] = PROFILE.get(k, 0) + 1


def ex():
    return EX


def set_ex(e):
    global EX
    EX = e


def forget_caches():
    """Results remembered by functools caches on one path are not another's."""
    for name, mod in list(sys.modules.items()):
        if name.startswith("castep_outputs"):
            for v in list(vars(mod).values()):
                if hasattr(v, "cache_clear") and callable(getattr(v, "cache_clear", None)):
                    v.cache_clear()


class Explorer:
    def __init__(self, seed=1, deadline=None, max_paths=100000, op_limit=3_000_000,
                 max_depth=4000):
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.trace = []
        self.pos = 0
        self.model = None
        self.stats = dict(paths=0, infeasible=0, decisions=0, queries=0, proofs=0,
                          solver_s=0.0, unsupported=0, limit=0, unknown=0, truncated=0,
                          concretised=0, proved=0, obligations=0)
        self.rng = random.Random(seed)
        self.deadline = deadline
        self.max_paths = max_paths
        self.op_limit = op_limit
        self.max_depth = max_depth
        self.ops = 0
        self.inputs = []
        self.nvar = 0
        self.symdicts = {}
        self.functions = set()
        self.has_constraints = False

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def replaying(self):
        return self.pos < len(self.trace)

    def add(self, c):
        """Assert a constraint that is implied by construction or assumed."""
        if self.replaying():
            return
        self.has_constraints = True
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def _model_says(self, c):
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _feasible(self, c):
        r = self._check(c)
        if r == z3.sat:
            self.model = self.solver.model()
            return True
        return r == z3.unknown

    # ------------------------------------------------------------- decisions
    def _record(self, chosen, rest, cons):
        """rest: remaining alternatives; cons: dict alt -> constraint or None."""
        self.trace.append([chosen, rest, cons])
        self.pos += 1
        if len(self.trace) > self.max_depth:
            raise LimitHit("decision depth")
        if rest is not None:
            if PROFILE is not None:
                fork_site()
            self.solver.push()
            self.stats["decisions"] += 1
            c = cons.get(chosen) if cons else None
            if c is not None:
                self.has_constraints = True
                self.solver.add(c)
                if self._model_says(c) is not True:
                    self.model = None
        return chosen

    def branch(self, e):
        """Decide a z3 boolean; both sides explored when feasible."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.replaying():
            v = self.trace[self.pos][0]
            self.pos += 1
            return v
        self.tick(20)
        ne = z3.Not(e)
        says = self._model_says(e)
        if says is True:
            t = True
            keep = self.model
            f = self._feasible(ne)
            if f:
                self.model = keep
        elif says is False:
            f = True
            keep = self.model
            t = self._feasible(e)
        else:
            t = self._feasible(e)
            keep = self.model
            f = self._feasible(ne)
            if t and f:
                self.model = keep
        if t and f:
            return self._record(True, [False], {True: e, False: ne})
        if t:
            return self._record(True, None, None)
        if f:
            return self._record(False, None, None)
        raise Infeasible()

    def fork(self, n):
        """n-way choice, all alternatives feasible."""
        if n == 1:
            return 0
        if self.replaying():
            v = self.trace[self.pos][0]
            self.pos += 1
            return v
        self.tick(5)
        return self._record(0, list(range(1, n)), None)

    def fork_cons(self, conses):
        """Choice among alternatives each carrying a z3 constraint (or None) known feasible."""
        if self.replaying():
            v = self.trace[self.pos][0]
            self.pos += 1
            return v
        return self._record(0, list(range(1, len(conses))), dict(enumerate(conses)))

    def tick(self, n=1):
        self.ops += n
        if self.ops > self.op_limit:
            raise LimitHit("operations")
        if self.deadline is not None and (self.ops & 0x3f) < n and time.time() > self.deadline:
            raise Deadline()

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if z3.is_true(c):
            return
        if self.replaying():
            return
        says = self._model_says(c)
        self.has_constraints = True
        self.solver.add(c)
        if says is not True:
            self.model = None
            if self._check() == z3.unsat:
                raise Infeasible()
            try:
                self.model = self.solver.model()
            except z3.Z3Exception:
                self.model = None

    def prove(self, c, msg):
        """The deciding step: is `c` true for every value on this path?"""
        self.stats["obligations"] += 1
        if c is True or (not isinstance(c, bool) and z3.is_true(c)):
            self.stats["proved"] += 1
            return
        if c is False or z3.is_false(c):
            raise Violated(msg)
        self.stats["proofs"] += 1
        nc = z3.Not(c)
        self.solver.push()
        try:
            self.solver.add(nc)
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
                # keep the violating constraint for input extraction
                self._violating = True
                raise Violated(msg)
            if r == z3.unknown:
                raise Unsupported("solver answered unknown on a proof query: " + msg)
        finally:
            self.solver.pop()
        self.stats["proved"] += 1

    # ------------------------------------------------------------ exploration
    def explore(self, fn, on_path):
        """Run fn() over all paths.  on_path(kind, info) is called per finished path."""
        set_ex(self)
        try:
            while True:
                self.pos = 0
                self.ops = 0
                self.nvar = 0
                self.inputs = []
                self.symdicts = {}
                self._violating = False
                forget_caches()
                kind, info = "ok", None
                try:
                    fn()
                except Infeasible:
                    kind = "infeasible"
                except Violated as v:
                    kind, info = "violated", v.msg
                except Unsupported as v:
                    kind, info = "unsupported", str(v)
                except LimitHit as v:
                    kind, info = "limit", str(v)
                except Deadline:
                    self.stats["truncated"] += 1
                    on_path("deadline", None)
                    return
                except RecursionError as v:
                    kind, info = "limit", "recursion"
                except Exception as v:  # noqa: BLE001 - raised by code under test
                    import traceback
                    kind = "exception"
                    tb = traceback.extract_tb(v.__traceback__)
                    where = " <- ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb[::-1]
                                        if "/sx/" not in f.filename)[:300]
                    info = f"{type(v).__name__}: {message(v)[:200]} at {where}"
                if kind == "infeasible":
                    self.stats["infeasible"] += 1
                else:
                    self.stats["paths"] += 1
                    if kind == "unsupported":
                        self.stats["unsupported"] += 1
                    if kind == "limit":
                        self.stats["limit"] += 1
                    stop = on_path(kind, info)
                    if stop:
                        self.stats["truncated"] += 1
                        return
                # backtrack
                while self.trace and not self.trace[-1][1]:
                    e = self.trace.pop()
                    if e[1] is not None:
                        self.solver.pop()
                if not self.trace:
                    return
                if self.stats["paths"] >= self.max_paths:
                    self.stats["truncated"] += 1
                    return
                e = self.trace[-1]
                self.solver.pop()
                e[0] = e[1].pop(0)
                self.solver.push()
                self.stats["decisions"] += 1
                self.model = None
                c = e[2].get(e[0]) if e[2] else None
                if c is not None:
                    self.solver.add(c)
        finally:
            set_ex(None)

    # ---------------------------------------------------------- input values
    def fresh(self, prefix):
        self.nvar += 1
        return f"{prefix}{self.nvar}"

    def concrete_inputs(self, use_model=None, randomise=True):
        """Concrete value for every recorded input, consistent with the path condition."""
        model = use_model
        zvars = [(i, r) for i, r in enumerate(self.inputs) if r.zvar() is not None]
        if model is None and zvars:
            self.solver.push()
            try:
                if self._check() != z3.sat:
                    return None
                model = self.solver.model()
                if randomise:
                    # move towards random values where the constraints allow it
                    for _ in range(2):
                        self.solver.push()
                        for _, r in zvars:
                            if self.rng.random() < 0.8:
                                self.solver.add(r.zvar() == r.rand(self.rng))
                        ok = self._check() == z3.sat
                        if ok:
                            model = self.solver.model()
                        self.solver.pop()
                        if ok:
                            break
            finally:
                self.solver.pop()
        out = []
        for r in self.inputs:
            z = r.zvar()
            if z is None:
                out.append(r.free_value(self.rng))
            else:
                v = model.eval(z, model_completion=True)
                out.append(r.decode(v.as_long()))
        return out
