"""The queues of the schedulers: every item that is put is taken exactly once, whatever the order (C01, C04, C07)."""
import os
import queue as _stdlib_queue

import z3

from ..core import B, HeapObj, I, Obj, Opaque, PathEnd, PyRaise, SV, Unsupported
from ..interp import ModuleInfo
from ..models import as_z3
from ..values import ClsV, Coll, DictV, Inst, ListV, Model, ModuleV
from .base import returns, tag, unit
from .graphs import GraphV, NODE, install_graph

S = "uberjob._execution.scheduler."
T = ["C01", "C04", "C07"]
OURS = ("_init", "_qsize", "_put", "_get", "__init__", "__new__")


def stdlib_queue_class(it):
    """queue.Queue from the text of the standard library: its overridable parts are executed, put/get/join/task_done are trusted."""
    m = ModuleInfo("queue", _stdlib_queue.__file__)
    node = m.index["Queue"][1]
    env = it.module_env(m)
    c = ClsV()
    c.name, c.module, c.node, c.qual, c.fields, c.bases, c.attrs, c.env = "Queue", m, node, "queue.Queue", None, [], {}, env
    for st in node.body:
        if getattr(st, "name", None) in OURS:
            c.attrs[st.name] = it.make_func(st, env, m, c)
    return c


class SeqBag(HeapObj):
    """A list or deque of unknown content: what was put and taken; elements at unknown positions may be exchanged."""

    FIELDS = ("puts", "takes", "writes")
    __slots__ = ("puts", "takes", "writes", "n0", "kind", "arbitrary", "prefer", "slots", "check")

    def __init__(self, ctx, kind, n0, arbitrary, check=True):
        self.init_heap(ctx)
        self.puts, self.takes, self.writes = [], [], []
        self.n0, self.kind, self.arbitrary, self.check = n0, kind, arbitrary, check
        self.slots = []
        self.prefer = None

    def length(self):
        return self.n0 + len(self.puts) - len(self.takes)

    def truth(self, it):
        return self.length() > 0

    def len(self, it):
        return SV(z3.simplify(z3.IntVal(0) + self.length()))

    def take(self, it):
        ctx = it.ctx
        if self.writes:
            raise Unsupported("an item is taken after items were exchanged")
        if not ctx.branch(self.truth(it)):
            it.raise_(IndexError, "pop from an empty queue")
        if self.prefer is not None:
            v = self.prefer
        elif self.puts:
            raise Unsupported("an item is put and taken")
        else:
            v = self.arbitrary()
        self.takes = self.takes + [v]
        return v

    def put(self, it, v):
        if self.takes or self.writes:
            raise Unsupported("an item is put after others were moved")
        self.puts = self.puts + [v]

    # positions
    def position(self, it, i):
        ctx = it.ctx
        i = it.num(i)
        pos = z3.simplify(z3.If(i < 0, i + self.length(), i))
        if not ctx.branch(z3.And(pos >= 0, pos < self.length())):
            it.raise_(IndexError, "index out of range")
        return pos

    def original(self, it, pos):
        ctx = it.ctx
        if self.takes:
            raise Unsupported("a position in a queue from which items were taken")
        for k, v in enumerate(self.puts):
            if ctx.branch(pos == self.n0 + k):
                return v
        for p, v in self.slots:
            if ctx.branch(pos == p):
                return v
        v = self.arbitrary()
        self.slots = self.slots + [(pos, v)]
        return v

    def now(self, it, pos):
        for p, v in reversed(self.writes):
            if it.ctx.branch(pos == p):
                return v
        return self.original(it, pos)

    def getitem(self, it, i):
        return self.now(it, self.position(it, i))

    def setitem(self, it, i, v):
        self.writes = self.writes + [(self.position(it, i), v)]

    def permuted(self, it):
        """Is the content the same up to the order?"""
        ps = []
        for p, _ in self.writes:
            if not any(it.ctx.branch(p == q) for q in ps):
                ps.append(p)
        before, after = [self.original(it, p) for p in ps], [self.now(it, p) for p in ps]
        for v in after:
            k = next((n for n, b in enumerate(before) if b is v), None)
            if k is None:
                return False
            before.pop(k)
        return not before

    def getattr(self, it, name):
        M = Model
        if name in ("append", "appendleft"):
            return M(name, lambda it, a, k: self.put(it, a[0]))
        if name in ("pop", "popleft"):
            def pop(it, a, k):
                if a:
                    self.position(it, a[0])
                return self.take(it)
            return M(name, pop)
        return None


def content(it, q):
    """The attribute that holds the items."""
    found = [(n, v) for n, v in q.attrs.items() if isinstance(v, (ListV, SeqBag))]
    if len(found) != 1:
        raise Unsupported("the items of a queue are not in one list")
    return found[0]


def queue_unit(name):
    def run(ctx, it):
        install_graph(it)
        t = lambda text: tag(T, f"{name} queue: {text}")
        it.externs["queue.Queue"] = lambda it: stdlib_queue_class(it)
        it.externs["threading.Lock"] = Model("Lock", lambda it, a, k: Inst(ctx, Opaque("Lock")))
        it.externs["threading.Condition"] = Model("Condition", lambda it, a, k: Inst(ctx, Opaque("Condition")))
        it.externs["random.shuffle"] = Model("shuffle", lambda it, a, k: shuffle(it, a[0]))
        it.externs["random.randrange"] = Model("randrange", lambda it, a, k: randrange(it, a, k))
        it.externs["heapq.heapify"] = Model("heapify", lambda it, a, k: heapify(it, a[0]))
        it.externs["heapq.heappush"] = Model("heappush", lambda it, a, k: heappush(it, *a))
        it.externs["heapq.heappop"] = Model("heappop", lambda it, a, k: heappop(it, a[0]))
        g = GraphV(ctx, "g")
        pr = ctx.fresh_fn("priority", Obj, I)
        x = z3.Const("px", Obj)
        ctx.assume(z3.ForAll([x], pr(x) >= 0))

        def priorities(it, a, k):
            """Contract (assumed): a mapping from nodes to integers."""
            if it.resolve(a[0]) is not g:
                raise Unsupported("priorities of another graph")
            known = ctx.fresh_fn("has_priority", Obj, B)
            return DictV(ctx, [("base", lambda y: known(y), lambda y: SV(pr(y)), NODE)])

        it.call_contracts["uberjob._execution.greedy.get_priority_mapping"] = priorities
        given, n, e = ctx.fresh_fn("given", Obj, B), ctx.fresh("n", I), ctx.fresh("item")
        ctx.assume(z3.And(n >= 0, (n == 0) == z3.Not(z3.Exists([x], given(x)))))
        ctx.assume(z3.ForAll([x], z3.Implies(given(x), g.N0(x)), patterns=[given(x)]))
        items = ListV(ctx, [("coll", Coll([e], given(e), SV(e, "obj", NODE), None, False, n, True, "items"))])
        flags = {"checks": True}

        def compare(it, a, b):
            """Two elements of a heap are compared."""
            if not flags["checks"]:
                return
            returns(ctx, t("any two elements can be compared"), lambda: less(it, a, b))

        def anyof(lst):
            if isinstance(lst, SeqBag):
                return lst.arbitrary()
            segs = it.iter_segs(lst)
            if len(segs) != 1 or segs[0][0] != "coll":
                raise Unsupported("a heap built in several ways")
            c = segs[0][1]
            ws = [ctx.fresh("w", y.sort()) for y in c.xs]
            m, el, _ = c.at(ws)
            return el, m

        def heapify(it, lst):
            if isinstance(lst, ListV) and lst.segs:
                (a, ma), (b, mb) = anyof(lst), anyof(lst)
                if flags["checks"] and ctx._check(as_z3(ma), as_z3(mb)) != z3.unsat:
                    i = ctx.choose(2, "heapify")
                    if i:
                        ctx.assume(as_z3(ma))
                        ctx.assume(as_z3(mb))
                        compare(it, a, b)
                        raise PathEnd()

        def heappush(it, lst, v):
            if not isinstance(lst, SeqBag):
                raise Unsupported("heappush")
            if lst.check:
                compare(it, v, lst.arbitrary())
                compare(it, lst.arbitrary(), v)
            lst.put(it, v)

        def heappop(it, lst):
            if not isinstance(lst, SeqBag):
                raise Unsupported("heappop")
            if lst.check and ctx.branch(lst.truth(it)):
                compare(it, lst.arbitrary(), lst.arbitrary())
            return lst.take(it)

        def shuffle(it, lst):
            if isinstance(lst, ListV):
                lst.segs = [s if s[0] == "one" else ("coll", Coll(s[1].xs, s[1].mem, s[1].elem, s[1].facts, False, s[1].n, s[1].distinct, s[1].name)) for s in lst.segs]
            elif not isinstance(lst, SeqBag):
                raise Unsupported("shuffle")

        def randrange(it, a, k):
            if len(a) != 1 or k:
                raise Unsupported("randrange")
            hi = it.num(a[0])
            if not ctx.branch(hi > 0):
                it.raise_(ValueError, "empty range for randrange()")
            r = ctx.fresh("r", I)
            ctx.assume(z3.And(r >= 0, r < hi))
            return SV(r)

        which = {"cheap": ["cheap"], "random": ["random"], "default": ["default", None]}[name]
        q = returns(ctx, t("is created without an exception"), lambda: it.call(it.glob(S + "create_queue"), [g, items, which[ctx.choose(len(which), "scheduler")]], {}))
        if not isinstance(q, Inst) or not isinstance(q.cls, ClsV):
            raise Unsupported("not a queue")
        mro = [c for c in it.mro(q.cls) if isinstance(c, ClsV)]
        ctx.prove(t("is a queue.Queue"), any(c.qual == "queue.Queue" for c in mro))
        for c in mro:
            if c.qual != "queue.Queue" and any(m in c.attrs for m in ("put", "get", "join", "task_done", "put_nowait", "get_nowait", "qsize", "empty", "full")):
                raise Unsupported("a queue that replaces put, get, join or task_done")
        ctx.prove(t("is not bounded: putting an item never blocks"), it.num(q.attrs["maxsize"]) <= 0)
        ctx.prove(t("expects as many items to be done as it holds"), it.num(q.attrs["unfinished_tasks"]) == n)
        ctx.prove(t("the graph and the list of items are not changed"), not g.ops and len(items.segs) == 1)
        label, lst = content(it, q)
        call = lambda m, *a: it.call(it.getattr(q, m), list(a), {})
        stage = ctx.choose(4, "stage")
        done = Inst(ctx, Opaque("object"))

        def arbitrary_value():
            if ctx.choose(2, "kind of item") == 0:
                y = ctx.fresh("node")
                ctx.assume(g.N0(y))
                return SV(y, "obj", NODE)
            return done

        def pushed(v):
            """What _put(v) adds to the content."""
            scratch = SeqBag(ctx, lst.kind, z3.IntVal(0), None, check=False)
            saved, checks = q.attrs[label], flags["checks"]
            q.attrs[label] = scratch
            flags["checks"] = False
            call("_put", v)
            flags["checks"] = checks
            q.attrs[label] = saved
            if len(scratch.puts) != 1:
                ctx.prove(t("an item that is put is added once"), False)
                raise PathEnd()
            return scratch.puts[0]

        def taken(e):
            """What _get returns when it takes the element e."""
            scratch = SeqBag(ctx, lst.kind, ctx.fresh("len", I), None, check=False)
            ctx.assume(scratch.n0 >= 1)
            scratch.prefer = e
            saved, checks = q.attrs[label], flags["checks"]
            q.attrs[label] = scratch
            flags["checks"] = False
            r = returns(ctx, t("taking an item does not raise"), lambda: call("_get"))
            flags["checks"] = checks
            q.attrs[label] = saved
            if len(scratch.takes) != 1 or scratch.puts:
                ctx.prove(t("taking an item takes one item"), False)
                raise PathEnd()
            return it.resolve(r)

        def arbitrary():
            """An element which is there at the start or was put later."""
            if lst.segs and ctx.choose(2, "element") == 0:
                el, m = anyof(lst)
                ctx.assume(as_z3(m))
                return el
            return pushed(arbitrary_value())

        if stage == 0:
            ctx.cover("at the start")
            # the content at the start is the given items
            segs = it.iter_segs(lst)
            if len(segs) != 1 or segs[0][0] != "coll":
                raise Unsupported("the items are gathered in several ways")
            c = segs[0][1]
            xs, ys = [ctx.fresh("i", y.sort()) for y in c.xs], [ctx.fresh("j", y.sort()) for y in c.xs]
            (mx, ex, _), (my, ey, _) = c.at(xs), c.at(ys)
            ctx.assume(as_z3(mx))
            r = it.term(taken(ex))
            ctx.prove(t("holds nothing at the start but the given items"), given(r))
            ry = z3.substitute(r, *zip(xs, ys))
            ctx.prove(t("holds no item twice at the start"), z3.Implies(z3.And(as_z3(my), r == ry), z3.And([a == b for a, b in zip(xs, ys)])))
            s = z3.Const("gs", Obj)
            ctx.prove(t("holds every given item at the start"), z3.ForAll([s], z3.Implies(given(s), z3.Exists(ys, z3.And(as_z3(my), ry == s)))))
            return
        if stage == 1:
            ctx.cover("put")
            # _put adds the item, once, and loses nothing
            bag = SeqBag(ctx, lst.kind, ctx.fresh("len", I), arbitrary)
            ctx.assume(bag.n0 >= 0)
            q.attrs[label] = bag
            v = arbitrary_value()
            before = dict(q.attrs)
            returns(ctx, t("putting an item does not raise"), lambda: call("_put", v))
            ctx.prove(t("putting an item adds one and removes none"), len(bag.puts) == 1 and not bag.takes and q.attrs[label] is bag)
            ctx.prove(t("putting an item keeps the others"), bag.permuted(it))
            ctx.prove(t("putting an item changes nothing else"), all(q.attrs.get(k) is o for k, o in before.items()) and len(before) == len(q.attrs))
            r = taken(bag.puts[0])
            ctx.prove(t("an item that was put is what is taken later"), it.resolve(r) is v or as_z3(it.eq(r, v)))
            return
        if stage == 2:
            ctx.cover("get")
            bag = SeqBag(ctx, lst.kind, ctx.fresh("len", I), arbitrary)
            ctx.assume(bag.n0 >= 1)
            q.attrs[label] = bag
            before = dict(q.attrs)
            returns(ctx, t("taking an item does not raise"), lambda: call("_get"))
            ctx.prove(t("taking an item takes one item"), len(bag.takes) == 1 and not bag.puts and not bag.writes and q.attrs[label] is bag)
            ctx.prove(t("taking an item changes nothing else"), all(q.attrs.get(k) is o for k, o in before.items()) and len(before) == len(q.attrs))
            return
        ctx.cover("size")
        bag = SeqBag(ctx, lst.kind, ctx.fresh("len", I), arbitrary)
        ctx.assume(bag.n0 >= 0)
        q.attrs[label] = bag
        r = returns(ctx, t("the size can be asked"), lambda: call("_qsize"))
        ctx.prove(t("the size is the number of items"), it.num(r) == bag.n0)
        ctx.prove(t("asking for the size changes nothing"), not bag.puts and not bag.takes and not bag.writes)

    run.__doc__ = f"The queue of the {name} scheduler: a bag of items, nothing lost, nothing twice, never blocking on put."
    unit(f"scheduler.{name}", T, covers=("at the start", "put", "get", "size"))(run)


def less(it, a, b):
    import ast

    return it.compare(ast.Lt(), a, b)


for _n in ("cheap", "random", "default"):
    queue_unit(_n)


@unit("scheduler.unknown", ["C07"])
def unknown(ctx, it):
    """create_queue refuses an unknown scheduler with an exception (before any thread is started)."""
    install_graph(it)
    g = GraphV(ctx, "g")
    it.externs["queue.Queue"] = lambda it: stdlib_queue_class(it)
    it.call_contracts["uberjob._execution.greedy.get_priority_mapping"] = lambda it, a, k: DictV(ctx)
    try:
        it.call(it.glob(S + "create_queue"), [g, ListV(ctx), "unheard of"], {})
        ctx.prove(tag(["C07"], "an unknown scheduler is refused"), False)
    except PyRaise:
        ctx.prove(tag(["C07"], "an unknown scheduler is refused"), True)
