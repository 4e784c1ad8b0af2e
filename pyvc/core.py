"""Path exploration, proof obligations, and the value model of pyvc."""
import os
import time

import z3

Obj = z3.DeclareSort("Obj")
B, I, R = z3.BoolSort(), z3.IntSort(), z3.RealSort()


class PathEnd(Exception):
    """The current path is finished (infeasible, or a loop iteration was checked)."""


class Unsupported(Exception):
    """The code left the subset that pyvc can translate: out of reach, not a failure."""


class Budget(Exception):
    """Too many paths or too much time."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


class RestartUnit(Exception):
    """The unit must be explored again (e.g. a lock protection hypothesis was refuted)."""


# ---------------------------------------------------------------- values


class Value:
    __slots__ = ()


class SV(Value):
    """A symbolic scalar. kind: 'bool' | 'int' | 'real' | 'obj'."""

    __slots__ = ("t", "kind", "tag")

    def __init__(self, t, kind=None, tag=None):
        self.t = t
        if kind is None:
            s = t.sort()
            kind = "bool" if s == B else "int" if s == I else "real" if s == R else "obj"
        self.kind = kind
        self.tag = tag

    def __repr__(self):
        return f"SV({self.t})"


class IteV(Value):
    """One of several values, by guard. The guards are exclusive and cover everything."""

    __slots__ = ("cases",)

    def __init__(self, cases):
        self.cases = cases


class Opaque(Value):
    """An unknown value; may be passed around and compared by identity only."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Opaque({self.name})"


class Poison(Value):
    """The value of a variable after a loop that assigns it; using it is unsupported."""

    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


_heap_counter = [0]


class HeapObj(Value):
    """Mutable interpreter objects. FIELDS are saved and restored by snapshots."""

    FIELDS = ()
    __slots__ = ("shared", "oid", "birth", "term")

    def init_heap(self, ctx):
        self.shared = False
        self.term = None
        self.oid = len(ctx.heap)
        ctx.heap.append(self)

    def snap(self):
        out = []
        for f in self.FIELDS:
            v = getattr(self, f)
            if type(v) is dict:
                v = dict(v)
            elif type(v) is list:
                v = list(v)
            out.append(v)
        return out

    def restore(self, s):
        for f, v in zip(self.FIELDS, s):
            if type(v) is dict:
                v = dict(v)
            elif type(v) is list:
                v = list(v)
            setattr(self, f, v)


def same(a, b):
    """Conservative: are two snapshot field values the same (no change)?"""
    if a is b:
        return True
    if type(a) is dict and type(b) is dict:
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if type(a) in (list, tuple) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, SV) and isinstance(b, SV):
        return a.t.eq(b.t)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (bool, int, str, float, bytes)) and type(a) is type(b):
        return a == b
    return False


# ---------------------------------------------------------------- obligations


class Obligation:
    __slots__ = ("unit", "name", "status", "detail", "time", "backend", "prefix")

    def __init__(self, unit, name, status, detail, t, backend, prefix):
        self.unit, self.name, self.status = unit, name, status
        self.detail, self.time, self.backend, self.prefix = detail, t, backend, prefix


class Explorer:
    """Explores every path of a unit by re-execution under decision prefixes."""

    def __init__(self, unit, *, max_paths=6000, max_time=240.0, timeout_ms=15000, smt_dir=None):
        self.unit = unit
        self.max_paths = max_paths
        self.max_time = max_time
        self.timeout_ms = timeout_ms
        self.obligations = []
        self.paths = 0
        self.completed_paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.reached = {}
        self.persist = {}
        self.smt_dir = smt_dir
        self.seed = int(os.environ.get("PYVC_SEED") or 0)  # proofs must not depend on it
        self.assumed = set()
        self.refused = set()

    def run(self, fn):
        start = time.time()
        restarts = 0
        while True:
            try:
                self._run(fn, start)
                if not self.persist.pop("discovering", False):
                    return
                raise RestartUnit()
            except RestartUnit:
                restarts += 1
                if restarts > 60:
                    raise Unsupported("too many restarts")
                self.obligations = []
                self.refused = set()
                self.paths = 0
                self.completed_paths = 0

    def _run(self, fn, start):
        worklist = [[]]
        while worklist:
            prefix = worklist.pop()
            self.paths += 1
            if self.paths > self.max_paths or time.time() - start > self.max_time:
                raise Budget(f"{self.unit}: {self.paths} paths, {time.time()-start:.0f}s")
            ctx = Ctx(self, prefix)
            try:
                fn(ctx)
                self.completed_paths += 1
            except PathEnd:
                pass
            worklist.extend(reversed(ctx.alternatives))

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1


class Ctx:
    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alternatives = []
        self.entailed = {}
        self.heap = []
        self.names = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.timeout_ms)
        # quantifiers are instantiated by patterns only: an answer comes at once; prove() asks further solvers where that is not enough
        self.solver.set("mbqi", False)
        if explorer.seed:
            self.solver.set("random_seed", explorer.seed)
        self.assumptions = []
        self.sub = None  # nested exploration: (prefix, pos, decisions, alternatives)
        self.sub_depth = 0
        self.obl_seq = 0
        self.conc = None
        self.ghost = {}
        self.events = []
        self.consts = {}
        self.term_values = {}
        self.linear = {}  # function symbols known to be b + d * x where the element x occurs
        self.tracker = None
        self.extra = {}

    # -------------------------------------------------- names
    def fresh(self, name, sort=Obj):
        self.names += 1
        return z3.Const(f"{name}!{self.names}", sort)

    def fresh_fn(self, name, *sorts):
        self.names += 1
        return z3.Function(f"{name}!{self.names}", *sorts)

    # -------------------------------------------------- assumptions
    def assume(self, f, decision=False):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.solver.add(f)
        self.assumptions.append((f, decision))
        if self.linear and z3.is_quantifier(f):
            g = self._reindexed(f)
            if g is not None:
                self.assume(g)

    def _reindexed(self, f):
        """For all x. P(h(x)), where h(x) = b + d * x and d is 1 or -1, is for all m. P(m): a statement that the solver can instantiate by pattern."""
        if not (f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort()):
            return None
        found, todo, seen = {}, [f.body()], set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                return None
            if z3.is_app(e):
                if e.num_args() == 1 and e.decl().name() in self.linear and z3.is_var(e.arg(0)):
                    found[e.decl().name()] = e.decl()
                todo.extend(e.children())
        pivot = next((n for n in found if self.linear[n][1] in (1, -1)), None)
        if pivot is None:
            return None
        b, d, _, _ = self.linear[pivot]
        m = self.fresh("m", z3.IntSort())
        x = (m - b) * d
        body = z3.substitute_vars(f.body(), x)
        sub = []
        for n, h in found.items():
            bn, dn, var, mem = self.linear[n]
            if mem is not True:
                body = z3.Implies(z3.substitute(mem, (var, x)), body)
            sub.append((h(x), m if n == pivot else bn + dn * x))
        body = z3.simplify(z3.substitute(body, *sub))
        return z3.ForAll([m], body)

    def _check(self, *fs, timeout=None):
        t0 = time.time()
        if timeout is not None:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*fs)
        if timeout is not None:
            self.solver.set("timeout", self.x.timeout_ms)
        self.x.solver_time += time.time() - t0
        self.x.queries += 1
        return r

    @property
    def replaying(self):
        return self.pos < len(self.prefix)

    # -------------------------------------------------- decisions
    def _decide(self, options):
        """options: list of (formula or None). Picks a feasible one, records the others."""
        if self.sub is not None:
            pre, dec, alts = self.sub["prefix"], self.sub["decisions"], self.sub["alternatives"]
            pos = len(dec)
            if pos < len(pre):
                c = pre[pos]
                dec.append(c)
                if options[c] is not None:
                    self._assume_option(options[c], tuple(dec[:-1]) in self.sub["forced"])
                return c
        else:
            dec, alts = self.decisions, self.alternatives
            pos = self.pos
            if pos < len(self.prefix):
                c = self.prefix[pos]
                self.pos += 1
                dec.append(c)
                if options[c] is not None:
                    self.assume(options[c], True)
                return c
        feasible = []
        for i, f in enumerate(options):
            if f is None:
                feasible.append(i)
            else:
                r = self._check(f, timeout=700)
                if r != z3.unsat:
                    feasible.append(i)
        if not feasible:
            raise PathEnd()
        for i in feasible[1:]:
            alts.append(list(dec) + [i])
        c = feasible[0]
        forced = self.sub is not None and len(feasible) == 1
        if forced:
            self.sub["forced"].add(tuple(dec))
        dec.append(c)
        if self.sub is None:
            self.pos += 1
            self.prefix = self.prefix + [c] if self.pos > len(self.prefix) else self.prefix
        if options[c] is not None:
            self._assume_option(options[c], forced)
        return c

    def _assume_option(self, f, forced):
        """In a summarised body, a condition that holds for every element is no part of the guard of the path."""
        if forced:
            self.entailed[f.get_id()] = f
        self.assume(f, not forced)

    def branch(self, cond):
        """Decide a condition: Python bool or z3 Bool."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self._decide([cond, z3.Not(cond)]) == 0

    def choose(self, n, label=""):
        if n == 1:
            return 0
        if self.sub is not None:
            # in a summarised body the choice is made anew for every element
            # (the same unknown on every path that comes to this decision)
            at = ".".join(map(str, self.sub["decisions"]))
            c = z3.Const(f"choice:{at}!{self.sub['base']}", I)
            return self._decide([c == i for i in range(n - 1)] + [z3.And([c != i for i in range(n - 1)])])
        return self._decide([None] * n)

    # -------------------------------------------------- nested exploration
    def explore(self, thunk):
        """Run thunk on every path from the current state; restore the state after each.

        Returns a list of (guard formulas added on the path, outcome, changed) where changed maps heap
        objects (existing at the start) to (before, after) snapshots, and outcome is ('ok', value) or
        ('raise', exception value).
        """
        base = len(self.heap)
        snaps = [o.snap() for o in self.heap]
        ghost0 = dict(self.ghost)
        events0 = list(self.events)
        names0 = self.names
        results = []
        linear0 = dict(self.linear)
        worklist = [[]]
        outer = self.sub
        n_ass = len(self.assumptions)
        self.sub_depth += 1
        self.names += 1
        mark = self.names
        count = 0
        maxnames = names0
        forced = set()
        try:
            while worklist:
                pre = worklist.pop()
                count += 1
                if count > 400:
                    raise Unsupported("too many paths in a summarised body")
                self.sub = {"prefix": pre, "decisions": [], "alternatives": [], "base": mark, "forced": forced}
                self.solver.push()
                try:
                    out = None
                    try:
                        out = ("ok", thunk())
                    except PyRaise as e:
                        out = ("raise", e.exc)
                    except PathEnd:
                        out = None
                    if out is not None:
                        guards = self.assumptions[n_ass:]
                        changed = {}
                        for o, s in zip(self.heap[:base], snaps):
                            now = o.snap()
                            if not same(s, now):
                                changed[o.oid] = (o, s, now)
                        new_events = self.events[len(events0):]
                        gchanged = {
                            k: v for k, v in self.ghost.items() if ghost0.get(k) is not v
                        }
                        results.append((list(guards), out, changed, new_events, gchanged))
                finally:
                    self.solver.pop()
                    del self.assumptions[n_ass:]
                    for o, s in zip(self.heap[:base], snaps):
                        o.restore(s)
                    self.ghost = dict(ghost0)
                    self.linear = dict(linear0)
                    self.events = list(events0)
                    maxnames = max(maxnames, self.names)
                worklist.extend(reversed(self.sub["alternatives"]))
        finally:
            self.sub = outer
            self.sub_depth -= 1
            self.names = maxnames
        return results

    # -------------------------------------------------- proving
    def prove(self, name, formula):
        """Generate one obligation. Afterwards the formula may be assumed."""
        if self.replaying or (self.sub is not None and len(self.sub["decisions"]) < len(self.sub["prefix"])):
            if formula is False:
                raise PathEnd()
            if formula is not True:
                self.assume(formula)
            return True
        if self.x.persist.get("discovering"):
            # a first round finds out what is shared; its obligations are proved in the next one
            if formula is False:
                raise PathEnd()
            if formula is not True:
                self.assume(formula)
            return True
        t0 = time.time()
        status, detail, backend = "discharged", "", "z3"
        if formula is True:
            backend = "trivial"
        elif formula is False:
            r = self._check()
            if r == z3.unknown and name not in self.x.refused:
                r, _, detail = self._portfolio(z3.BoolVal(True))
            if r == z3.unsat:
                status, detail = "discharged", ""
            else:
                self.x.refused.add(name)
                # the path conditions were not refuted: the program takes this path unless they contradict each other
                status, detail = "failed", detail or self._model_text(r)
        else:
            neg = z3.Not(formula)
            r = self._check(neg, timeout=4000)
            if r == z3.sat:
                status, detail = "failed", self._model_text(r)
            elif r == z3.unknown:
                why = str(self.solver.reason_unknown())
                saturated = "timeout" not in why and "cancel" not in why and "resource" not in why
                if saturated and name in self.x.refused:
                    r, detail = z3.unknown, "not proved on another path"
                else:
                    r, backend, detail = self._portfolio(neg)
                if r == z3.sat:
                    status = "failed"
                elif r == z3.unknown and saturated:
                    # every instance of the axioms and hypotheses has been tried: there is no proof
                    status, detail = "failed", detail or f"not proved: z3 has no more instances to try ({why}); cvc5: no proof; candidate model: {self._candidate(neg)}"
                elif r == z3.unknown:
                    status, detail = "unknown", why
                if status == "failed":
                    self.x.refused.add(name)
        self.x.obligations.append(
            Obligation(self.x.unit, name, status, detail, time.time() - t0, backend, list(self.decisions))
        )
        if self.x.smt_dir and status == "discharged" and formula is not True and formula is not False:
            self._dump(name, z3.Not(formula))
        if status != "discharged":
            # continue under the assumption that it holds, to report other failures too
            pass
        if formula is False:
            raise PathEnd()
        if formula is not True:
            self.assume(formula)
        return status == "discharged"

    def _model_text(self, r):
        try:
            if r == z3.sat:
                return str(self.solver.model())[:1500]
        except z3.Z3Exception:
            pass
        return str(r)

    def _candidate(self, neg):
        """The model that satisfies all instances which were tried."""
        try:
            if self._check(neg, timeout=4000) != z3.unsat:
                return str(self.solver.model())[:1500]
        except z3.Z3Exception:
            pass
        return ""

    def _smt2(self, neg):
        s = z3.Solver()
        for a in self.solver.assertions():
            s.add(a)
        s.add(neg)
        return s.to_smt2()

    def _dump(self, name, neg):
        k = len(os.listdir(self.x.smt_dir))
        with open(os.path.join(self.x.smt_dir, f"{k:05d}.smt2"), "w") as f:
            f.write(f"; {self.x.unit} :: {name}\n" + self._smt2(neg))

    def _portfolio(self, neg):
        """z3 with model-based instantiation, then cvc5. Returns (result, back end, model text)."""
        t0 = time.time()
        try:
            # the last ones guard against answers that depend on the order in which the solver happens to try things
            for name, options in (("z3-relevancy0", {"mbqi": False, "relevancy": 0}), ("z3-mbqi", {}), ("z3-mbqi", {"random_seed": 7, "relevancy": 0})):
                s = z3.SimpleSolver() if "relevancy" in options else z3.Solver()
                s.set("timeout", self.x.timeout_ms)
                for k, v in (options if not self.x.seed else dict(options, random_seed=self.x.seed)).items():
                    s.set(k, v)
                for a in self.solver.assertions():
                    s.add(a)
                s.add(neg)
                r = s.check()
                if r == z3.unsat:
                    return r, name, ""
                if r == z3.sat and options.get("mbqi", True):
                    return r, name, str(s.model())[:1500]
            if self._cvc5(neg) == "unsat":
                return z3.unsat, "cvc5", ""
            return z3.unknown, "", ""
        finally:
            self.x.solver_time += time.time() - t0
            self.x.queries += 1

    def _cvc5(self, neg):
        import subprocess
        import tempfile

        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
                f.write("(set-logic ALL)\n" + self._smt2(neg))
                f.flush()
                out = subprocess.run(["cvc5", f"--tlimit={self.x.timeout_ms}", f.name], capture_output=True, text=True, timeout=self.x.timeout_ms / 1000 + 10).stdout
            return out.split("\n")[0].strip()
        except Exception:
            return "error"

    def cover(self, label):
        """Record that a point is reachable under the preconditions (vacuity guard)."""
        if label in self.x.reached:
            self.x.reached[label] += 1
            return
        if self._check(timeout=1500) == z3.unsat:
            return
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*self.solver.assertions())
        if s.check() != z3.unsat:
            self.x.reached[label] = 1
        self.x.solver_time += time.time() - t0

    # -------------------------------------------------- terms
    def const(self, key):
        """A distinct constant for a Python-level concrete value."""
        if key not in self.consts:
            c = z3.Const(f"c:{key}", Obj)
            others = list(self.consts.values())
            self.consts[key] = c
            for o in others:
                self.assume(o != c)
        return self.consts[key]
