"""Random plans built through uberjob's public API, an independent reference interpreter, and in-memory stores."""
import collections
import dataclasses
import datetime as dt
import hashlib
import itertools
import queue
import random
import threading

from . import sched

uberjob = sched.install()
from uberjob import Plan, Registry, ValueStore  # noqa: E402
from uberjob.graph import Call, Literal, Node  # noqa: E402

EPOCH = dt.datetime(2024, 1, 1)


def digest(*parts):
    return hashlib.md5("\x1f".join(map(str, parts)).encode()).hexdigest()[:16]


class Val:
    """The value of a call: equality is structural (by digest), identity tells executions apart."""

    __slots__ = ("d", "nid", "__weakref__")

    def __init__(self, d, nid):
        self.d = d
        self.nid = nid

    def __eq__(self, other):
        return type(other) is Val and other.d == self.d

    def __hash__(self):
        return hash(self.d)

    def __bool__(self):
        """Some results are false."""
        return self.d[-1] not in "05af"

    def __repr__(self):
        return f"Val({self.nid}:{self.d})"


def dig(v):
    t = type(v)
    if t is Val:
        return "V" + v.d
    if t is list:
        return "L" + digest(*map(dig, v))
    if t is tuple:
        return "T" + digest(*map(dig, v))
    if t is set:
        return "S" + digest(*sorted(map(dig, v)))
    if t is dict:
        return "D" + digest(*(f"{dig(k)}={dig(x)}" for k, x in v.items()))
    return f"{t.__name__}:{v!r}"


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class FalsyBoom(Exception):
    """False, and equal to every other of its kind."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return type(other) is type(self)

    def __hash__(self):
        return 1


class EmptyBoom(Exception):
    def __len__(self):
        return 0


class NoRepr:
    def __repr__(self):
        raise ValueError("no repr")


NO_REPR = NoRepr()


@dataclasses.dataclass(frozen=True)
class FrozenBoom(Exception):
    """Its attributes cannot be assigned, __traceback__ neither."""

    text: str = ""


class EmptyBaseBoom(BaseException):
    def __len__(self):
        return 0


def chained(cls, text):
    e = cls(text)
    e.__cause__ = Boom("inner")
    return e


def nested_failure(text):
    """What a nested run inside a call raises."""
    e = uberjob.CallError(uberjob.graph.Call(dict))
    e.__cause__ = Boom(text)
    return e


def empty_message(text):
    return Boom()


VARIED = [StopIteration, KeyError, TypeError, AttributeError, AssertionError, queue.Empty, FileNotFoundError, OSError, NotImplementedError,
          RecursionError, FalsyBoom, FalsyBoom, EmptyBoom, EmptyBoom, FrozenBoom, FrozenBoom, StopAsyncIteration, TimeoutError, UnicodeError, nested_failure, nested_failure, empty_message,
          lambda t: chained(Boom, t), lambda t: chained(KeyError, t), lambda t: ExceptionGroup(t, [Boom(t)]), lambda t: uberjob.NotTransformedError(t)]
VARIED_BASE = [BaseBoom, BaseBoom, EmptyBaseBoom, SystemExit, GeneratorExit]


def any_boom(rng, base=0.0):
    """A factory of exceptions of some class, called with a text."""
    if rng.random() < base:
        return rng.choice(VARIED_BASE)
    return Boom if rng.random() < 0.6 else rng.choice(VARIED)


# equal to each other or not, but not the same
SMALL = (0, 1, True, False, 0.0, -0.0, 1.0, "", (), (0,), (False,), (-0.0,))


class PlanNode:
    """The harness' own record of a node it created through the public API."""

    def __init__(self, nid, kind, node):
        self.nid, self.kind, self.node = nid, kind, node
        self.args, self.kwargs = [], {}
        self.deps = []  # nids of plain dependencies (predecessors)
        self.value = None  # literal value
        self.store = None
        self.is_source = False
        self.refresh = None  # nid of a dependent source refreshed by this call
        self.src = None
        self.index = None
        self.parts = None
        self.scope = ()
        self.hidden = False


class World:
    """One random plan with its reference meaning, its stores and its event log."""

    def __init__(self, seed, *, n=6, registry=False, literals=True, containers=False, sources=True, unpack=False,
                 scopes=False, dependent_sources=True, fan=None, identity=False, deps=True, kwargs=True,
                 registered_literals=True, p_reg=0.45, equal_scopes=False):
        self.rng = random.Random(seed)
        self.seed = seed
        self.plan = Plan()
        self.registry = Registry() if registry else None
        self.nodes = {}
        self.log = []
        self.clock = 0
        self.faults = {}  # nid -> exception factory (call); consulted at each call
        self.op_fault = None  # callable(kind, nid) -> exception or None
        self.executing = 0
        self.running_ops = 0
        self.max_running = 0
        self.max_running_mt = 0
        self.running_mt = 0
        self.attempts = {}
        self.body_points = 1
        self.hook = None
        self.keep = None
        self.dead = False
        self.nones = set()  # calls that return None
        rng = self.rng
        self.knobs = dict(literals=literals, containers=containers, kwargs=kwargs, deps=deps, identity=identity)
        for i in range(n):
            nid = len(self.nodes)
            r = rng.random()
            if scopes and rng.random() < 0.6:
                scope = tuple(rng.choice(("a", "b", 1, None, (1, 2)) if rng.random() < 0.9 else (10**5000, NO_REPR)) for _ in range(rng.choice((1, 1, 2))))
            else:
                scope = ()
            with self.plan.scope(*scope):
                if registry and sources and r < 0.2:
                    self._add_source(scope)
                elif literals and r < 0.32:
                    self._add_literal(scope)
                elif unpack and self.nodes and r < 0.42:
                    self._add_unpack(scope)
                elif containers and self.nodes and r < 0.52:
                    self._add_gather(scope)
                elif literals and deps and r < 0.58:
                    self._add_barrier(scope)
                else:
                    self._add_call(scope)
            del nid
        if registry:
            for pn in list(self.nodes.values()):
                if pn.store is None and pn.kind in ("call", "item", "gather") and rng.random() < p_reg:
                    self._register(pn)
                elif pn.store is None and pn.kind == "lit" and registered_literals and rng.random() < 0.25:
                    self._register(pn)
            if dependent_sources and rng.random() < 0.5:
                self._add_dependent_source()
            if not len(self.registry):
                self.registry = None

    # ------------------------------------------------------------ construction
    def _new(self, kind, node, scope=()):
        pn = PlanNode(len(self.nodes), kind, node)
        pn.scope = scope
        self.nodes[pn.nid] = pn
        return pn

    def _pick(self):
        ids = [p.nid for p in self.nodes.values() if p.kind != "dep"]
        if not ids:
            return None
        if self.rng.random() < 0.5:
            return ids[-1 - min(len(ids) - 1, int(self.rng.expovariate(0.8)))]
        return self.rng.choice(ids)

    def _expr(self, depth=0):
        """Returns (symbolic value passed to uberjob, recorded expression)."""
        rng = self.rng
        r = rng.random()
        if self.knobs["containers"] and depth < 3 and r < 0.35:
            kind = rng.choice((list, tuple, set, dict))
            if kind is dict:
                sym, rec = {}, []
                for _ in range(rng.randrange(0, 3)):
                    ks, kr = self._key(depth)
                    if ks in sym:
                        continue
                    vs, vr = self._expr(depth + 1)
                    sym[ks] = vs
                    rec.append((kr, vr))
                return sym, ("dict", rec, sym)
            items = [self._expr(depth + 1) if kind is not set else self._key(depth) for _ in range(rng.randrange(0, 4))]
            if kind is set:
                seen, out = set(), []
                for s, r_ in items:
                    if s not in seen:
                        seen.add(s)
                        out.append((s, r_))
                items = out
            sym = kind(s for s, _ in items)
            return sym, (kind.__name__, [r_ for _, r_ in items], sym)
        ref = self._pick()
        if ref is None or r > 0.85:
            return self._obj()
        return self.nodes[ref].node, ("ref", ref)

    def _key(self, depth):
        if self.rng.random() < 0.4:
            ref = self._pick()
            if ref is not None and self._hashable(ref):
                return self.nodes[ref].node, ("ref", ref)
        if self.rng.random() < 0.3 and depth < 2:
            items = [self._key(depth + 1) for _ in range(self.rng.randrange(0, 3))]
            sym = tuple(s for s, _ in items)
            return sym, ("tuple", [r for _, r in items], sym)
        v = self.rng.choice(("k1", "k2", 7, frozenset((1, 2)), None))
        return v, ("obj", v)

    def _hashable(self, nid):
        p = self.nodes[nid]
        if p.kind in ("call", "item", "source"):
            return p.parts is None
        return False

    def _obj(self):
        rng = self.rng
        v = rng.choice(
            (lambda: 3, lambda: rng.choice(SMALL), lambda: rng.choice(SMALL), lambda: rng.choice(SMALL), lambda: "s", lambda: None, lambda: [1, [2]], lambda: {"a": 1}, lambda: object(),
             lambda: (1, (2, 3)), lambda: {1, 2}, lambda: ODict(a=1), lambda: MyList([1]), self._opaque, self._opaque)
        )() if self.knobs["identity"] else rng.choice((3, "s", None, 2.5, *SMALL))
        return v, ("obj", v)

    def _opaque(self):
        """A container that is not exactly of a built-in type, perhaps with nodes inside: passed as it is."""
        rng = self.rng
        ref = self._pick()
        x = 5 if ref is None else self.nodes[ref].node
        return rng.choice((lambda: Pair(x, 1), lambda: ODict(a=x), lambda: MyList([x, 2]), lambda: MySet([x]), lambda: frozenset([x]),
                           lambda: collections.OrderedDict(k=x), lambda: collections.deque([x]), lambda: MyTuple([x]),
                           lambda: collections.defaultdict(list, k=x), lambda: [Pair(1, 2)], lambda: {"k": MyList([x])}))()

    def _add_call(self, scope):
        rng = self.rng
        nargs = rng.choice((0, 1, 1, 2, 2, 3)) if rng.random() < 0.96 else rng.choice((11, 12))
        args = [self._expr() for _ in range(nargs)]
        kwargs = {}
        if self.knobs["kwargs"]:
            names = ["x", "y", "self", "fn", "args", "stack_frame", "kwargs", "z"]
            rng.shuffle(names)
            for name in names[: rng.choice((0, 0, 0, 1, 2, 3))]:
                kwargs[name] = self._expr()
        nid = len(self.nodes)
        node = self.plan.call(self._function(nid), *[s for s, _ in args], **{k: s for k, (s, _) in kwargs.items()})
        pn = self._new("call", node, scope)
        pn.args = [r for _, r in args]
        pn.kwargs = {k: r for k, (_, r) in kwargs.items()}
        if rng.random() < 0.12:
            self.nones.add(nid)
        if self.knobs["deps"]:
            self._add_deps(pn)
        return pn

    def _add_deps(self, pn):
        for _ in range(self.rng.choice((0, 0, 0, 1, 2))):
            ref = self._pick()
            if self.rng.random() < 0.3:
                # one that follows from the others already
                above = sorted(x for x in self.ancestors([pn.nid]) - {pn.nid} if self.nodes[x].kind != "dep")
                ref = self.rng.choice(above) if above else ref
            if ref is not None and ref < pn.nid:
                self.plan.add_dependency(self.nodes[ref].node, pn.node)
                pn.deps.append(ref)

    def _add_literal(self, scope):
        value = self._obj()[0]
        pn = self._new("lit", self.plan.lit(value), scope)
        pn.value = value
        if self.knobs["deps"] and self.rng.random() < 0.6:
            self._add_deps(pn)

    def _add_barrier(self, scope):
        """Calls that are ordered only through one literal, or two in a row: all before all."""
        rng = self.rng
        before = [self._add_call(scope).nid for _ in range(rng.choice((1, 2, 2, 3)))]
        for _ in range(rng.choice((1, 1, 1, 2))):
            pn = self._new("lit", self.plan.lit("barrier"), scope)
            pn.value = "barrier"
            for ref in before:
                self.plan.add_dependency(self.nodes[ref].node, pn.node)
                pn.deps.append(ref)
            before = [pn.nid]
        for _ in range(rng.choice((1, 2, 2, 3))):
            nid = len(self.nodes)
            node = self.plan.call(self._function(nid))
            c = self._new("call", node, scope)
            c.args, c.kwargs = [], {}
            self.plan.add_dependency(pn.node, node)
            c.deps.append(pn.nid)

    def _add_gather(self, scope):
        sym, rec = self._expr()
        node = self.plan.gather(sym)
        for p in self.nodes.values():
            if p.node is node:
                return
        pn = self._new("gather", node, scope)
        pn.args = [rec]

    def _add_unpack(self, scope):
        n = self.rng.randrange(0, 4)
        args = [self._expr() for _ in range(self.rng.choice((0, 1)))]
        nid = len(self.nodes)
        how = self.rng.choice(("list", "tuple", "gen", "iter"))
        node = self.plan.call(self._function(nid, parts=(n, how)), *[s for s, _ in args])
        pn = self._new("call", node, scope)
        pn.parts = (n, how)
        pn.args = [r for _, r in args]
        pn.kind = "dep"  # not used as an argument elsewhere: one-shot iterables
        items = self.plan.unpack(node, n)
        assert len(items) == n, "unpack returned a wrong number of nodes"
        for i, item in enumerate(items):
            p = self._new("item", item, scope)
            p.src, p.index = nid, i

    def _add_source(self, scope):
        nid = len(self.nodes)
        store = self._store(nid)
        node = self.registry.source(self.plan, store)
        pn = self._new("source", node, scope)
        pn.store, pn.is_source = store, True
        store.put(digest("src", nid, 0))

    def _add_dependent_source(self):
        """A call without a store refreshes an external resource that a source reads."""
        rng = self.rng
        cands = [p for p in self.nodes.values() if p.kind != "dep"]
        if not cands:
            return
        args = [("ref", rng.choice(cands).nid) for _ in range(rng.choice((1, 2)))]
        nid = len(self.nodes)
        call = self.plan.call(self._function(nid), *[self.nodes[r[1]].node for r in args])
        pc = self._new("call", call)
        pc.kind = "dep"
        pc.args = args
        sid = len(self.nodes)
        store = self._store(sid)
        node = self.registry.source(self.plan, store)
        ps = self._new("source", node)
        ps.store, ps.is_source = store, True
        ps.refresh = nid
        pc.refresh = sid
        via = rng.random() < 0.4
        if via:
            lit = self.plan.lit("barrier")
            pl = self._new("lit", lit)
            pl.value = "barrier"
            pl.hidden = True
            pl.deps.append(nid)
            self.plan.add_dependency(call, lit)
            self.plan.add_dependency(lit, node)
            ps.deps.append(pl.nid)
        else:
            self.plan.add_dependency(call, node)
            ps.deps.append(nid)
        # consumers of the source
        for _ in range(rng.choice((0, 1, 2))):
            cid = len(self.nodes)
            c = self.plan.call(self._function(cid), node)
            pn = self._new("call", c)
            pn.args = [("ref", sid)]
            if rng.random() < 0.6:
                self._register(pn)

    def _store(self, nid):
        return self.rng.choice((MStore, MStore, MStore, EmptyStore, FalsyStore))(self, nid)

    def _register(self, pn):
        store = self._store(pn.nid)
        self.registry.add(pn.node, store)
        pn.store = store

    # ------------------------------------------------------------ execution
    def event(self, *e):
        self.log.append(e)

    def point(self):
        sched.yield_point()

    def _function(self, nid, parts=None):
        world = self

        def f(*args, **kwargs):
            return world.execute(nid, parts, args, kwargs)

        f.__name__ = f"f{nid}"
        f.__qualname__ = f"f{nid}" if not self.rng.random() < 0.2 else "shared"
        if self.rng.random() < 0.15:
            return self.rng.choice((FalsyCallable, EqualCallable, UnhashableCallable, ProxyCallable, array))(f)
        return f

    def execute(self, nid, parts, args, kwargs):
        self.event("start", nid, args, dict(kwargs))
        self.attempts[nid] = self.attempts.get(nid, 0) + 1
        self.executing += 1
        self.running_ops += 1
        self.max_running = max(self.max_running, self.running_ops)
        try:
            for _ in range(self.body_points):
                self.point()
            if self.hook:
                self.hook(nid)
            self._maybe_fault("call", nid)
            d = digest("call", nid, *map(dig, args), *(f"{k}={dig(v)}" for k, v in kwargs.items()))
            pn = self.nodes[nid]
            if pn.refresh is not None:
                self.nodes[pn.refresh].store.put("R" + digest("refresh", d))
            if parts is None:
                v = None if nid in self.nones else Val(d, nid)
                if self.keep is not None and v is not None:
                    self.keep(nid, v)
                out = v
            else:
                n, how = parts
                items = [Val(digest(d, i), nid) for i in range(n)]
                out = items if how == "list" else tuple(items) if how == "tuple" else iter(items) if how == "iter" else (x for x in items)
            self.event("end", nid, out if parts is None else None)
            return out
        except BaseException as e:
            self.event("fail", nid, e)
            raise
        finally:
            self.executing -= 1
            self.running_ops -= 1

    def _maybe_fault(self, kind, nid):
        if self.dead:
            raise Boom("process is dead")
        f = self.faults.get((kind, nid))
        if f is not None:
            e = f()
            if e is not None:
                raise e
        if self.op_fault is not None:
            e = self.op_fault(kind, nid)
            if e is not None:
                raise e

    def tick(self):
        self.clock += 1
        return self.clock

    # ------------------------------------------------------------ reference meaning
    def ref_deps(self, nid):
        """Direct dependencies by the harness' own records."""
        pn = self.nodes[nid]
        out = set(pn.deps)

        def walk(e):
            if e[0] == "ref":
                out.add(e[1])
            elif e[0] == "dict":
                for k, v in e[1]:
                    walk(k)
                    walk(v)
            elif e[0] in ("list", "tuple", "set"):
                for x in e[1]:
                    walk(x)

        for e in pn.args:
            walk(e)
        for e in pn.kwargs.values():
            walk(e)
        if pn.src is not None:
            out.add(pn.src)
        return out

    def arg_refs(self, nid):
        pn = self.nodes[nid]
        deps, pn.deps = pn.deps, []
        try:
            return self.ref_deps(nid)
        finally:
            pn.deps = deps

    def ancestors(self, nids):
        seen, todo = set(), list(nids)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(self.ref_deps(x))
        return seen

    def expr_value(self, e, value):
        k = e[0]
        if k == "ref":
            return value(e[1])
        if k == "obj":
            return e[1]
        if not has_ref(e):
            return e[2]
        if k == "list":
            return [self.expr_value(x, value) for x in e[1]]
        if k == "tuple":
            return tuple(self.expr_value(x, value) for x in e[1])
        if k == "set":
            return {self.expr_value(x, value) for x in e[1]}
        return {self.expr_value(kk, value): self.expr_value(v, value) for kk, v in e[1]}

    def reference(self):
        """From-scratch value of every node (with store values of sources as they are now)."""
        memo = {}

        def value(nid):
            if nid in memo:
                return memo[nid]
            pn = self.nodes[nid]
            if pn.kind == "lit":
                v = pn.value
            elif pn.kind == "source":
                if pn.refresh is not None:
                    c = self.nodes[pn.refresh]
                    v = Val("R" + digest("refresh", self._call_digest(c, value)), nid)
                else:
                    v = Val(pn.store.value, nid)
            elif pn.kind == "gather":
                v = self.expr_value(pn.args[0], value)
            elif pn.kind == "item":
                src = self.nodes[pn.src]
                v = Val(digest(self._call_digest(src, value), pn.index), src.nid)
            elif nid in self.nones:
                v = None
            else:
                v = Val(self._call_digest(pn, value), nid)
            memo[nid] = v
            return v

        return value

    def _call_digest(self, pn, value):
        return digest(
            "call", pn.nid, *(dig(self.expr_value(e, value)) for e in pn.args),
            *(f"{k}={dig(self.expr_value(e, value))}" for k, e in pn.kwargs.items()),
        )

    def call_nids(self):
        return [p.nid for p in self.nodes.values() if p.kind in ("call", "dep")]

    def executed(self):
        return [e[1] for e in self.log if e[0] == "start"]

    # ------------------------------------------------------------ outputs
    def random_output(self, p_none=0.1):
        rng = self.rng
        ids = [p.nid for p in self.nodes.values() if p.kind not in ("dep",) and not p.hidden]
        if not ids or rng.random() < p_none:
            return None, None
        def one():
            i = ids[-1 - min(len(ids) - 1, int(rng.expovariate(0.5)))]
            return self.nodes[i].node, ("ref", i)
        r = rng.random()
        if r < 0.45:
            return one()
        k = rng.choice(("list", "tuple", "dict"))
        if k == "dict":
            items = [(f"o{i}", one()) for i in range(rng.randrange(1, 4))]
            return {a: s for a, (s, _) in items}, ("dict", [(("obj", a), r_) for a, (_, r_) in items], None)
        items = [one() for _ in range(rng.randrange(1, 4))]
        return (list if k == "list" else tuple)(s for s, _ in items), (k, [r_ for _, r_ in items], None)


def has_ref(e):
    if e[0] == "ref":
        return True
    if e[0] == "obj":
        return False
    if e[0] == "dict":
        return any(has_ref(k) or has_ref(v) for k, v in e[1])
    return any(has_ref(x) for x in e[1])


def expr_refs(e, out=None):
    out = set() if out is None else out
    if e is None:
        return out
    if e[0] == "ref":
        out.add(e[1])
    elif e[0] == "dict":
        for k, v in e[1]:
            expr_refs(k, out)
            expr_refs(v, out)
    elif e[0] != "obj":
        for x in e[1]:
            expr_refs(x, out)
    return out


class ODict(dict):
    pass


class MyList(list):
    pass


class MySet(set):
    pass


class MyTuple(tuple):
    pass


Pair = collections.namedtuple("Pair", "a b")


NOOBJ = object()


class FalsyCallable:
    """False, and equal to every other of its kind."""

    def __init__(self, f):
        self.f = f

    def __call__(self, /, *args, **kwargs):
        return self.f(*args, **kwargs)

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, FalsyCallable)

    def __hash__(self):
        return 1


class EqualCallable(FalsyCallable):
    """Equal to those of the other class."""


class UnhashableCallable(FalsyCallable):
    __hash__ = None


class array(FalsyCallable):  # noqa: N801
    """Its name is that of a class which reprlib represents in its own way."""


class ProxyCallable:
    """Has every attribute."""

    def __init__(self, f):
        self.f = f

    def __call__(self, /, *args, **kwargs):
        return self.f(*args, **kwargs)

    def __getattr__(self, name):
        if name in ("__signature__", "__wrapped__", "__text_signature__"):
            raise AttributeError(name)
        return ProxyCallable(self.f)


def box(x):
    return [x]


class Plain(ValueStore):
    """A store in memory without instrumentation."""

    def __init__(self):
        self.value = self.time = None

    def read(self):
        return self.value

    def write(self, value):
        self.value, self.time = value, at(next(_ticks))

    def get_modified_time(self):
        return self.time


_ticks = itertools.count(1)


class MStore(ValueStore):
    """An in-memory store on a logical clock. Reads return a fresh object, so that identity shows where it is from."""

    def __init__(self, world, nid):
        self.world, self.nid = world, nid
        self.value = None
        self.obj = None
        self.time = None
        self.writes = 0
        self.present = False

    def put(self, value, obj=NOOBJ):
        self.value = value
        self.obj = obj
        self.time = self.world.tick()
        self.present = True

    def clear(self):
        self.value = self.time = None
        self.present = False
        self.obj = None

    def snapshot(self):
        return self.value, self.obj, self.time, self.present

    def restore(self, s):
        self.value, self.obj, self.time, self.present = s

    def _op(self, kind):
        w = self.world
        w.event(kind + "_start", self.nid)
        w.attempts[(kind, self.nid)] = w.attempts.get((kind, self.nid), 0) + 1
        if kind == "mtime":
            w.running_mt += 1
            w.max_running_mt = max(w.max_running_mt, w.running_mt)
        else:
            w.running_ops += 1
            w.max_running = max(w.max_running, w.running_ops)
        try:
            for _ in range(w.body_points):
                w.point()
            if w.hook:
                w.hook((kind, self.nid))
            w._maybe_fault(kind, self.nid)
        except BaseException as e:
            w.event(kind + "_fail", self.nid, e)
            raise
        finally:
            if kind == "mtime":
                w.running_mt -= 1
            else:
                w.running_ops -= 1

    def read(self):
        self._op("read")
        if not self.present:
            e = KeyError(f"nothing stored for {self.nid}")
            self.world.event("read_fail", self.nid, e)
            raise e
        v = copy_val(self.obj) if self.obj is not NOOBJ else Val(self.value, self.nid)
        if self.world.keep is not None and v is not None:
            self.world.keep(("read", self.nid), v)
        self.world.event("read_end", self.nid, v)
        return v

    def write(self, value):
        self._op("write")
        self.put(dig(value), copy_val(value))
        self.writes += 1
        self.world.event("write_end", self.nid, value)
        try:
            self.world._maybe_fault("write_after", self.nid)
        except BaseException as e:
            self.world.event("write_fail", self.nid, e)
            raise

    def get_modified_time(self):
        self._op("mtime")
        self.world.event("mtime_end", self.nid)
        if self.time is None:
            return None
        return EPOCH + dt.timedelta(seconds=self.time)


class EmptyStore(MStore):
    def __len__(self):
        return 0


class FalsyStore(MStore):
    """False, and equal to every other of its kind."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return type(other) is FalsyStore

    def __hash__(self):
        return 1


def copy_val(v):
    t = type(v)
    if t is Val:
        return Val(v.d, v.nid)
    if t is list:
        return [copy_val(x) for x in v]
    if t is tuple:
        return tuple(copy_val(x) for x in v)
    if t is set:
        return {copy_val(x) for x in v}
    if t is dict:
        return {copy_val(k): copy_val(x) for k, x in v.items()}
    return v


def at(tick):
    return EPOCH + dt.timedelta(seconds=tick)
