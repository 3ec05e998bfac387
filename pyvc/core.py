"""pyvc core: path exploration, verification conditions, solver back ends.

The function under contract is the real one: CPython executes the code compiled
from /repo's current source (see instrument.py for the only changes made to it),
on symbolic values (values.py).  Every feasible path is executed; every
contract clause met on a path is a verification condition
    path condition  ==>  clause
sent to z3 (and to cvc5 when z3 answers unknown).
"""
import os
import re
import subprocess
import tempfile
import time

import z3


class PathAbort(BaseException):
    """The current path ends here (infeasible, or a cut point)."""


class Unsupported(BaseException):
    """The code left the subset the symbolic values model."""


class Limit(BaseException):
    """Path or time budget exhausted: undecided."""


class Obligation:
    __slots__ = ("name", "kind", "status", "backend", "time", "inputs", "path", "detail", "smt")

    def __init__(self, name, kind):
        self.name = name
        self.kind = kind  # post | pre | loop | frame | cover
        self.status = None
        self.backend = None
        self.time = 0.0
        self.inputs = None
        self.path = None
        self.detail = ""
        self.smt = None


ENG = None  # the active engine, None outside a symbolic run


def eng():
    if ENG is None:
        raise RuntimeError("no active engine")
    return ENG


def active():
    return ENG is not None


class Engine:
    def __init__(self, max_paths=4000, time_limit=240.0, timeout_ms=8000, unroll=None):
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.timeout_ms = timeout_ms
        self.unroll = unroll  # None: loop contracts; int: bounded unrolling
        self.obligations = []
        self.paths_done = 0
        self.paths_cut = 0
        self.paths_infeasible = 0
        self.solver_time = 0.0
        self.queries = 0
        self.t0 = time.time()
        self.bounded_notes = set()
        self.contract_used = {}
        self.loops_used = set()
        self.loops_wanted = set()
        self.touched = set()
        self.reached = {}
        self.sat_paths = 0
        self.unsupported = []
        self.models_used = set()

    # ---- exploration -----------------------------------------------------
    def explore(self, body):
        """Run `body()` on every path.  body gets a fresh path each time."""
        global ENG
        work = [[]]
        ENG = self
        try:
            while work:
                if self.paths_done + self.paths_cut + self.paths_infeasible >= self.max_paths:
                    raise Limit("more than %d paths" % self.max_paths)
                if time.time() - self.t0 > self.time_limit:
                    raise Limit("more than %.0f s" % self.time_limit)
                prefix = work.pop()
                self._begin(prefix)
                try:
                    body()
                    self.paths_done += 1
                    if self.sat_paths < 3 and self._satisfiable(self.paths_done + self.paths_cut):
                        self.sat_paths += 1
                except Unsupported as e:
                    self.unsupported.append(e)
                    if len(self.unsupported) > 40:
                        raise
                except PathAbort as e:
                    if e.args and e.args[0] == "cut":
                        self.paths_cut += 1
                        if self.sat_paths < 3 and self._satisfiable(self.paths_done + self.paths_cut):
                            self.sat_paths += 1
                    else:
                        self.paths_infeasible += 1
                finally:
                    for undo in reversed(self.undo):
                        undo()
                    self.undo = []
                for alt in self.pending:
                    work.append(alt)
        finally:
            ENG = None

    def _begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.pc = []
        self.counter = {}
        self.inputs = {}
        self.input_order = []
        self.stubs = {}
        self.loopspecs = {}
        self.witness = []
        self.undo = []
        self.facts_seen = set()
        self.fresh_ids = set()
        self.fresh_keep = []
        self.iter_stack = []
        self.left = []
        self.must_cache = {}
        self.b64_memo = {}
        self.summ = []
        self.symlists = False
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)

    def assume(self, cond):
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond):
            return
        self.pc.append(cond)
        self.solver.add(cond)
        self.must_cache.clear()
        if z3.is_false(cond):
            raise PathAbort("infeasible")

    def fact(self, cond):
        """An always-true consequence of a value's type (e.g. a byte is in 0..255)."""
        k = cond.get_id()
        if k in self.facts_seen:
            return
        self.facts_seen.add(k)
        self.facts_keep = getattr(self, "facts_keep", [])
        self.facts_keep.append(cond)
        self.pc.append(cond)
        self.solver.add(cond)

    def _check(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def _satisfiable(self, nth):
        """the path can be taken (guard against vacuous proofs); where the
        solver cannot tell, cvc5 is asked about the first paths, then again
        with each integer input at its lower bound"""
        r = self._check()
        if r == z3.unknown and not self.sat_paths and nth <= 3:
            subst = [(w.arg(0), w.arg(1)) for w in self.witness]
            for pc in (self.pc, [z3.simplify(z3.substitute(c, *subst)) for c in self.pc]):
                if self._cvc5(tlimit=8000, pc=pc) == "sat":
                    return True
        return r == z3.sat

    def feasible(self, cond):
        return self._check(cond) != z3.unsat

    def must(self, cond):
        """Does the path condition entail cond?  (unknown counts as no)"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        hit = self.must_cache.get(k)
        if hit is not None:
            return hit[0]
        r = self._check(z3.Not(cond)) == z3.unsat
        self.must_cache[k] = (r, cond)
        return r

    def branch(self, cond):
        """Fork on a symbolic condition; returns the side taken on this path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            side = self.prefix[i]
            self.trace.append(side)
            self.assume(cond if side else z3.Not(cond))
            return side
        t_ok = self.feasible(cond)
        f_ok = self.feasible(z3.Not(cond))
        if t_ok and f_ok:
            self.pending.append(self.trace + [False])
            side = True
        elif t_ok:
            side = True
        elif f_ok:
            side = False
        else:
            raise PathAbort("infeasible")
        self.trace.append(side)
        self.assume(cond if side else z3.Not(cond))
        return side

    def choose(self, n):
        """Nondeterministic choice among n alternatives (all explored)."""
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.trace.append(k)
            return k
        for alt in range(n - 1, 0, -1):
            self.pending.append(self.trace + [alt])
        self.trace.append(0)
        return 0

    def cut(self):
        raise PathAbort("cut")

    def abort(self):
        raise PathAbort("infeasible")

    # ---- obligations -----------------------------------------------------
    def oblige(self, name, cond, kind="post", detail=""):
        """Verification condition: pc ==> cond.  Returns True if discharged."""
        ob = Obligation(name, kind)
        ob.detail = detail
        ob.path = list(self.trace)
        self.obligations.append(ob)
        self.reached[name] = self.reached.get(name, 0) + 1
        if isinstance(cond, bool):
            if cond:
                ob.status, ob.backend = "proved", "eval"
                return True
            # concretely false on this path: refuted if the path is feasible
            r = self._check()
            if r == z3.unsat:
                ob.status, ob.backend = "proved", "z3"
                return True
            ob.status, ob.backend = ("refuted", "eval") if r == z3.sat else ("unknown", "z3")
            ob.inputs = self.extract(None) if r == z3.sat else None
            return False
        c = z3.simplify(cond)
        if z3.is_true(c):
            ob.status, ob.backend = "proved", "z3-simplify"
            return True
        t = time.time()
        neg = z3.Not(c)
        r = self._check(neg)
        ob.time = time.time() - t
        ob.backend = "z3"
        if r == z3.unsat:
            ob.status = "proved"
            self.assume(c)
            return True
        if r == z3.unknown:
            r2 = self._cvc5(neg)
            if r2 == "unsat":
                ob.status, ob.backend = "proved", "cvc5"
                self.assume(c)
                return True
            ob.status = "unknown"
            ob.detail += " [z3: %s]" % self.solver.reason_unknown()
            return False
        ob.status = "refuted"
        ob.inputs = self.extract(neg)
        try:
            ob.smt = str(z3.simplify(c))[:2000]
        except Exception:
            pass
        return False

    def _cvc5(self, neg=None, tlimit=20000, pc=None):
        try:
            s = z3.Solver()
            s.add(*(self.pc if pc is None else pc))
            if neg is not None:
                s.add(neg)
            # z3 prints names that begin with "!" as they are, cvc5 cannot read them
            txt = "(set-logic ALL)\n" + re.sub(r"(?<=[\s(])!(?=[A-Za-z])", "X!", s.to_smt2())
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            try:
                t = time.time()
                out = subprocess.run(
                    ["cvc5", "--tlimit=%d" % tlimit, "--strings-exp", f.name], capture_output=True, text=True, timeout=tlimit / 1000 + 10
                ).stdout
                self.solver_time += time.time() - t
            finally:
                os.unlink(f.name)
            return out.strip().split("\n")[0] if out.strip() else "unknown"
        except Exception:
            return "unknown"

    def extract(self, neg):
        """Concrete inputs from a counter-model, preferring small ones."""
        self.solver.push()
        try:
            if neg is not None:
                self.solver.add(neg)
            if self._check() != z3.sat:
                return None
            for bound in (16, 64, 300, 3000, 40000):
                self.solver.push()
                for _, p in self.input_order:
                    c = p.small(bound) if hasattr(p, "small") else None
                    if c is not None:
                        self.solver.add(c)
                if self._check() == z3.sat:
                    m = self.solver.model()
                    self.solver.pop()
                    break
                self.solver.pop()
            else:
                if self._check() != z3.sat:
                    return None
                m = self.solver.model()
            out = {}
            for name, p in self.input_order:
                try:
                    out[name] = p.concretize(m) if hasattr(p, "concretize") else p
                except Exception as e:  # value too large to build
                    out[name] = {"__too_big__": str(e)}
            return out
        finally:
            self.solver.pop()

    def register(self, name, proxy):
        self.inputs[name] = proxy
        self.input_order.append((name, proxy))

    # ---- frames of loop iterations --------------------------------------
    def note_write(self, obj, what):
        for fr in self.iter_stack:
            fr.append((obj, what))

    def note_fresh(self, obj):
        if self.iter_stack:
            self.fresh_ids.add(id(obj))
            self.fresh_keep.append(obj)
