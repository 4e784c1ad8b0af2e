"""Symbolic plans: nodes, edge keys, a MultiDiGraph given by an arbitrary edge predicate and a log of changes, registries, observers."""
import z3

from ..core import B, HeapObj, I, IteV, Obj, Opaque, PyRaise, R, SV, Unsupported, Value
from ..interp import alloc, truthy
from ..models import STR, SegsV, as_z3, note, pure
from ..values import BoundMethod, BuiltinCls, ClsV, Coll, DictV, Fam, FamRef, Inst, ListV, Model, PyFunc, Schema, SetV, TypeOf, subst_f
from .fs import ANY
from .retry import EXC

Key = z3.Datatype("Key")
Key.declare("kDep")
Key.declare("kPos", ("pidx", I))
Key.declare("kKw", ("kname", Obj), ("kidx", I))
Key = Key.create()

is_call = z3.Function("is_call", Obj, B)
G = "uberjob.graph."


def cls_name(cls):
    return getattr(cls, "qual", None) or getattr(cls, "name", None)


class SeqSchema(Schema):
    """An immutable tuple of unknown length (a scope)."""

    name = "tuple"
    length = z3.Function("seq_len", Obj, I)
    item = z3.Function("seq_item", Obj, I, Obj)

    def truth(self, it, sv):
        return self.length(sv.t) > 0

    def type_is(self, it, sv, cls):
        return isinstance(cls, BuiltinCls) and cls.cls is tuple

    def isinstance(self, it, sv, cls):
        return isinstance(cls, BuiltinCls) and cls.cls in (tuple, object)

    def iterate(self, it, sv):
        i = it.ctx.fresh("i", I)
        it.ctx.assume(self.length(sv.t) >= 0)
        c = Coll([i], z3.And(i >= 0, i < self.length(sv.t)), SV(self.item(sv.t, i), "obj", ANY), None, True, self.length(sv.t), True, "seq")
        return [("coll", c)]

    def add(self, it, a, b):
        return ListV(it.ctx, it.iter_segs(a) + it.iter_segs(b), "tuple")


SEQ = SeqSchema()
cons = z3.Function("seq_cons", Obj, Obj, Obj)
append = z3.Function("seq_append", Obj, Obj, Obj)


def seq_term(it, v):
    """A term for a tuple, the same for tuples built in the same way."""
    v = it.resolve(v)
    if isinstance(v, SV):
        return v.t
    segs = it.iter_segs(v)
    out = it.ctx.const("nil")
    for kind, s in reversed(segs):
        if kind == "one":
            out = cons(it.term(s), out)
            continue
        e = s.elem
        if isinstance(e, SV) and z3.is_app(e.t) and e.t.decl().eq(SEQ.item) and e.t.arg(1).eq(s.xs[0]):
            out = append(e.t.arg(0), out) if not out.eq(it.ctx.const("nil")) else e.t.arg(0)
        else:
            raise Unsupported("a scope of unknown shape")
    return out


class KeySchema(Schema):
    never_none = True
    name = "edge key"

    def type_is(self, it, sv, cls):
        n = cls_name(cls)
        if n == G + "Dependency":
            return Key.is_kDep(sv.t)
        if n == G + "PositionalArg":
            return Key.is_kPos(sv.t)
        if n == G + "KeywordArg":
            return Key.is_kKw(sv.t)
        return False

    def isinstance(self, it, sv, cls):
        if cls_name(cls) == G + "Dependency":
            return True
        return self.type_is(it, sv, cls)

    def truth(self, it, sv):
        return True

    def getattr(self, it, sv, name):
        if name == "index":
            if it.ctx.branch(Key.is_kPos(sv.t)):
                return SV(Key.pidx(sv.t))
            if it.ctx.branch(Key.is_kKw(sv.t)):
                return SV(Key.kidx(sv.t))
            it.raise_(AttributeError, name)
        if name == "name":
            if it.ctx.branch(Key.is_kKw(sv.t)):
                return SV(Key.kname(sv.t), "obj", STR)
            it.raise_(AttributeError, name)
        raise Unsupported(f"key.{name}")


KEY = KeySchema()


def key_term(it, k):
    k = it.resolve(k)
    if isinstance(k, SV) and k.t.sort() == Key:
        return k.t
    if isinstance(k, Inst) and isinstance(k.cls, ClsV):
        if k.cls.qual == G + "Dependency":
            return Key.kDep
        if k.cls.qual == G + "PositionalArg":
            return Key.kPos(it.num(k.attrs["index"]))
        if k.cls.qual == G + "KeywordArg":
            return Key.kKw(it.term(k.attrs["name"]), it.num(k.attrs["index"]))
    if isinstance(k, FamRef):
        q = getattr(k.fam.cls, "qual", None)
        if q == G + "Dependency":
            return Key.kDep
        if q == G + "PositionalArg":
            return Key.kPos(it.num(it.fam_read(k, "index")))
        if q == G + "KeywordArg":
            return Key.kKw(it.term(it.fam_read(k, "name")), it.num(it.fam_read(k, "index")))
    raise Unsupported(f"edge key {k!r}")


scope_of = z3.Function("node_scope", Obj, Obj)
fn_of = z3.Function("call_fn", Obj, Obj)
value_of = z3.Function("literal_value", Obj, Obj)
frame_of = z3.Function("node_stack_frame", Obj, Obj)


class NodeSchema(Schema):
    """A node of the plan: a Call or a Literal."""

    never_none = True
    name = "node"

    def type_is(self, it, sv, cls):
        n = cls_name(cls)
        if n == G + "Call":
            return is_call(sv.t)
        if n == G + "Literal":
            return z3.Not(is_call(sv.t))
        return False

    def isinstance(self, it, sv, cls):
        if cls_name(cls) == G + "Node" or isinstance(cls, BuiltinCls) and cls.cls is object:
            return True
        return self.type_is(it, sv, cls)

    def truth(self, it, sv):
        return True

    def alias(self, it, sv):
        for inst in it.ctx.extra.get("new_nodes", []):
            if it.ctx.branch(sv.t == it.term(inst)):
                return inst
        return None

    def getattr(self, it, sv, name):
        inst = self.alias(it, sv)
        if inst is not None:
            return it.getattr(inst, name)
        if name == "scope":
            return SV(scope_of(sv.t), "obj", SEQ)
        if name == "stack_frame":
            return SV(frame_of(sv.t), "obj", it.ctx.extra.get("frame_tag", ANY))
        if name == "fn":
            if it.ctx.branch(is_call(sv.t)):
                return SV(fn_of(sv.t), "obj", it.ctx.extra.get("fn_tag", ANY))
            it.raise_(AttributeError, name)
        if name == "value":
            if it.ctx.branch(z3.Not(is_call(sv.t))):
                return SV(value_of(sv.t), "obj", ANY)
            it.raise_(AttributeError, name)
        raise Unsupported(f"node.{name}")

    def setattr(self, it, sv, name, value):
        inst = self.alias(it, sv)
        if inst is not None:
            return it.setattr(inst, name, value)
        hook = it.ctx.extra.get("node_setattr")
        if hook is not None:
            return hook(it, sv, name, value)
        raise Unsupported(f"assignment to node.{name}")


NODE = NodeSchema()


def node_term(it, v):
    v = it.resolve(v)
    t = it.term(v)
    if isinstance(v, Inst):
        known = it.ctx.extra.setdefault("new_nodes", [])
        if not any(x is v for x in known) and cls_name(v.cls) in (G + "Call", G + "Literal"):
            known.append(v)
            it.ctx.assume(is_call(t) if v.cls.qual == G + "Call" else z3.Not(is_call(t)))
    return t


class GraphV(HeapObj):
    """A MultiDiGraph: base predicates and a log of changes, each for all xs with a guard."""

    FIELDS = ("ops",)
    __slots__ = ("ops", "E0", "N0", "P0", "np0", "key0", "label", "spliced", "bypassed")

    def __init__(self, ctx, label="g", empty=False, like=None):
        self.init_heap(ctx)
        self.ops = []
        self.label = label
        self.spliced = self.bypassed = None
        if like is not None:
            self.ops = list(like.ops)
            self.spliced, self.bypassed = like.spliced, like.bypassed
            self.E0, self.N0, self.P0, self.np0, self.key0 = like.E0, like.N0, like.P0, like.np0, like.key0
            return
        if empty:
            self.E0 = self.N0 = self.P0 = self.np0 = self.key0 = None
            return
        f = ctx.fresh_fn
        self.E0, self.N0, self.P0 = f("edge", Obj, Obj, Key, B), f("is_node", Obj, B), f("pred", Obj, Obj, B)
        self.np0, self.key0 = f("npred", Obj, I), f("somekey", Obj, Obj, Key)
        p1, p2 = f("p1", Obj, Obj), f("p2", Obj, Obj)
        u, v, w, k = z3.Const("gu", Obj), z3.Const("gv", Obj), z3.Const("gw", Obj), z3.Const("gk", Key)
        A = ctx.assume
        A(z3.ForAll([u, v, k], z3.Implies(self.E0(u, v, k), z3.And(self.P0(u, v), self.N0(u), self.N0(v))), patterns=[self.E0(u, v, k)]))
        A(z3.ForAll([u, v], z3.Implies(self.P0(u, v), self.E0(u, v, self.key0(u, v))), patterns=[self.P0(u, v)]))
        A(z3.ForAll([u], z3.Implies(self.N0(u), alloc(u) <= 0), patterns=[self.N0(u)]))
        A(z3.Not(self.N0(ctx.const("None"))))
        n = self.np0
        A(z3.ForAll([v], n(v) >= 0, patterns=[n(v)]))
        A(z3.ForAll([u, v], z3.Implies(self.P0(u, v), n(v) >= 1), patterns=[self.P0(u, v)]))
        A(z3.ForAll([v], z3.Implies(n(v) >= 1, self.P0(p1(v), v)), patterns=[n(v)]))
        A(z3.ForAll([v], z3.Implies(n(v) >= 2, z3.And(self.P0(p2(v), v), p1(v) != p2(v))), patterns=[n(v)]))
        A(z3.ForAll([u, v, w], z3.Implies(z3.And(n(v) == 1, self.P0(u, v), self.P0(w, v)), u == w), patterns=[z3.MultiPattern(self.P0(u, v), self.P0(w, v))]))

    # -------------------------------------------------- formulas
    def _match(self, xs, guard, pairs):
        """Exists xs: guard and all pairs equal; variables that a pair gives directly are substituted."""
        sub, rest = [], []
        todo = list(xs)
        for a, b in pairs:
            hit = next((x for x in todo if x.eq(a)), None)
            if hit is not None and not any(hit.eq(p) for p, _ in sub):
                sub.append((hit, b))
                todo = [x for x in todo if not x.eq(hit)]
            else:
                rest.append((a, b))
        fs = [] if guard is True else [guard]
        fs += [a == b for a, b in rest]
        f = z3.And(*fs) if fs else z3.BoolVal(True)
        f = z3.substitute(f, *sub) if sub else f
        if todo:
            f = z3.Exists(todo, f)
        return z3.simplify(f)

    def edge(self, u, v, k):
        f = self.E0(u, v, k) if self.E0 is not None else z3.BoolVal(False)
        for op in self.ops:
            kind, xs, guard = op[0], op[1], op[2]
            if kind == "vs":
                f = self.spliced.edge(self.splice_set(), u, v, k)
            if kind == "bypass":
                f = self.bypassed[0](u, v, k)
            if kind == "set":
                f = op[3](u, v, k)
            if kind == "add":
                f = z3.Or(f, self._match(xs, guard, [(op[3], u), (op[4], v), (op[5], k)]))
            elif kind == "del":
                f = z3.And(f, z3.Not(self._match(xs, guard, [(op[3], u), (op[4], v), (op[5], k)])))
            elif kind == "delall":
                f = z3.And(f, z3.Not(self._match(xs, guard, [(op[3], u), (op[4], v)])))
            elif kind == "delnode":
                f = z3.And(f, z3.Not(self._match(xs, guard, [(op[3], u)])), z3.Not(self._match(xs, guard, [(op[3], v)])))
            elif kind == "filter":
                f = z3.And(f, op[3](u), op[3](v))
        return f

    def node(self, u):
        f = self.N0(u) if self.N0 is not None else z3.BoolVal(False)
        for op in self.ops:
            kind, xs, guard = op[0], op[1], op[2]
            if kind == "vs":
                f = self.spliced.node(self.splice_set(), u)
            if kind == "bypass":
                f = self.bypassed[1](u)
            if kind == "set":
                f = op[4](u)
            if kind == "add":
                f = z3.Or(f, self._match(xs, guard, [(op[3], u)]), self._match(xs, guard, [(op[4], u)]))
            elif kind == "addnode":
                f = z3.Or(f, self._match(xs, guard, [(op[3], u)]))
            elif kind == "delnode":
                f = z3.And(f, z3.Not(self._match(xs, guard, [(op[3], u)])))
            elif kind == "filter":
                f = z3.And(f, op[3](u))
        return f

    def splice_set(self):
        """The nodes whose stores were spliced in, by the contract of _add_value_store."""
        ops = [op for op in self.ops if op[0] == "vs"]
        if ops != self.ops[:len(ops)]:
            raise Unsupported("the graph is changed in another way before stores are added")
        return lambda x: z3.Or([self._match(op[1], op[2], [(op[3], x)]) for op in ops])

    def pred(self, u, v):
        if all(op[0] in ("add", "addnode", "delnode", "filter") for op in self.ops):
            f = self.P0(u, v) if self.P0 is not None else z3.BoolVal(False)
            for op in self.ops:
                kind, xs, guard = op[0], op[1], op[2]
                if kind == "add":
                    f = z3.Or(f, self._match(xs, guard, [(op[3], u), (op[4], v)]))
                elif kind == "delnode":
                    f = z3.And(f, z3.Not(self._match(xs, guard, [(op[3], u)])), z3.Not(self._match(xs, guard, [(op[3], v)])))
                elif kind == "filter":
                    f = z3.And(f, op[3](u), op[3](v))
            return z3.simplify(f)
        k = z3.Const("pk", Key)
        return z3.Exists([k], self.edge(u, v, k))

    # -------------------------------------------------- collections
    def touched(self):
        return bool(self.ops)

    def nodes_coll(self, it):
        x = it.ctx.fresh("n", Obj)
        note(it, self)
        return Coll([x], self.node(x), SV(x, "obj", NODE), None, False, None, True, "node")

    def adj_coll(self, it, n, back):
        t = node_term(it, n)
        note(it, self)
        x = it.ctx.fresh("u", Obj)
        cnt = None
        if back and not self.ops:
            cnt = self.np0(t)
        return Coll([x], self.pred(x, t) if back else self.pred(t, x), SV(x, "obj", NODE), None, False, cnt, True, "pred" if back else "succ")

    def edges_coll(self, it, n, back, keys, nbunch=True):
        note(it, self)
        k = it.ctx.fresh("k", Key)
        if n is None:
            x, y = it.ctx.fresh("u", Obj), it.ctx.fresh("v", Obj)
            e = (SV(x, "obj", NODE), SV(y, "obj", NODE))
            return Coll([x, y, k], self.edge(x, y, k), e + ((SV(k, "obj", KEY),) if keys else ()), None, False, None, True, "edge")
        t = node_term(it, n)
        x = it.ctx.fresh("u", Obj)
        mem = self.edge(x, t, k) if back else self.edge(t, x, k)
        me = it.resolve(n)
        e = (SV(x, "obj", NODE), me) if back else (me, SV(x, "obj", NODE))
        return Coll([x, k], mem, e + ((SV(k, "obj", KEY),) if keys else ()), None, False, None, True, "edge")

    # -------------------------------------------------- interface
    def truth(self, it):
        x = z3.Const("tx", Obj)
        return z3.Exists([x], self.node(x))

    def iterate(self, it):
        return [("coll", self.nodes_coll(it))]

    def contains(self, it, v):
        v = it.resolve(v)
        if not isinstance(v, (SV, Inst, FamRef)):
            return False
        return self.node(node_term(it, v))

    def has(self, it, v):
        return it.ctx.branch(self.node(node_term(it, v)))

    def getitem(self, it, k):
        return AdjView(self, "succ").getitem(it, k)

    def getattr(self, it, name):
        M = Model
        g = self
        if name in ("nodes",):
            return NodeView(g)
        if name in ("pred", "_pred"):
            return AdjView(g, "pred")
        if name in ("succ", "adj", "_adj", "_succ"):
            return AdjView(g, "succ")
        if name in ("predecessors", "successors", "neighbors"):
            def adj(it, a, k):
                if not g.has(it, a[0]):
                    it.raise_(Exception, "NetworkXError")
                return SegsV([("coll", g.adj_coll(it, a[0], name == "predecessors"))], (g, "pred" if name == "predecessors" else "succ", node_term(it, a[0])))
            return M(name, adj)
        if name in ("in_edges", "out_edges", "edges"):
            def edges(it, a, k):
                n = a[0] if a else k.get("nbunch")
                keys = it.truth(k.get("keys", a[2] if len(a) > 2 else False))
                if it.truth(k.get("data", a[1] if len(a) > 1 else False)):
                    raise Unsupported("edge data")
                which = ("nodes", None) if n is None else ("pred" if name == "in_edges" else "succ", node_term(it, n))
                return LiveView(lambda it: g.edges_coll(it, n, name == "in_edges", keys), (g,) + which)
            return M(name, edges)
        if name == "add_node":
            def add_node(it, a, k):
                if k:
                    raise Unsupported("node data")
                g.ops = g.ops + [("addnode", [], True, node_term(it, a[0]))]
            return M(name, add_node)
        if name == "add_edge":
            def add_edge(it, a, k):
                args = list(a)
                key = args[2] if len(args) > 2 else k.get("key")
                if set(k) - {"key"} or key is None:
                    raise Unsupported("edge data")
                g.ops = g.ops + [("add", [], True, node_term(it, a[0]), node_term(it, a[1]), key_term(it, key))]
                return key
            return M(name, add_edge)
        if name == "remove_edge":
            def remove_edge(it, a, k):
                key = a[2] if len(a) > 2 else k.get("key")
                if key is None:
                    raise Unsupported("remove_edge without a key")
                u, v, kk = node_term(it, a[0]), node_term(it, a[1]), key_term(it, key)
                if not it.ctx.branch(g.edge(u, v, kk)):
                    it.raise_(Exception, "NetworkXError: no such edge")
                g.ops = g.ops + [("del", [], True, u, v, kk)]
            return M(name, remove_edge)
        if name == "remove_node":
            def remove_node(it, a, k):
                if not g.has(it, a[0]):
                    it.raise_(Exception, "NetworkXError: no such node")
                g.ops = g.ops + [("delnode", [], True, node_term(it, a[0]))]
            return M(name, remove_node)
        if name == "remove_nodes_from":
            def remove_nodes(it, a, k):
                for kind, s in it.iter_segs(a[0]):
                    if kind == "one":
                        g.ops = g.ops + [("delnode", [], True, node_term(it, s))]
                    else:
                        g.ops = g.ops + [("delnode", list(s.xs), as_z3(s.mem), it.term(s.elem))]
            return M(name, remove_nodes)
        if name == "add_nodes_from" or name == "add_edges_from":
            raise Unsupported(name)
        if name == "has_node":
            return M(name, lambda it, a, k: it.models.wrapb(g.contains(it, a[0])))
        if name == "has_edge":
            def has_edge(it, a, k):
                u, v = node_term(it, a[0]), node_term(it, a[1])
                note(it, g)
                if len(a) > 2:
                    return SV(g.edge(u, v, key_term(it, a[2])))
                return SV(g.pred(u, v))
            return M(name, has_edge)
        if name == "copy":
            return M(name, lambda it, a, k: GraphV(it.ctx, g.label + "'", like=g))
        if name in ("in_degree",):
            raise Unsupported("in_degree")
        if name in ("number_of_nodes", "order"):
            return M(name, lambda it, a, k: SV(it.models.coll_len(it, g.nodes_coll(it))))
        if name == "is_directed" or name == "is_multigraph":
            return M(name, lambda it, a, k: True)
        return None

    # -------------------------------------------------- loops
    def write_keys(self, b, a):
        return None

    def apply_loop(self, it, b, a, ys, gz, T, V):
        new = a[0][len(b[0]):]
        if [id(x) for x in a[0][: len(b[0])]] != [id(x) for x in b[0]]:
            raise Unsupported("a loop rewrites the graph's history")
        removes = [op for op in new if op[0] in ("del", "delnode", "delall", "filter")]
        adds = [op for op in new if op[0] == "add"]
        for op in new:
            if op[0] == "filter":
                raise Unsupported("filter in a loop")
            # variables bound by an inner loop stay bound: they are renamed out of the way of the lifting
            bs = [x if str(x).startswith("b:") else z3.Const(f"b:{x}", x.sort()) for x in op[1]]
            ren = list(zip(op[1], bs))
            T2 = lambda t: T(z3.substitute(t, *ren) if ren else t)
            guard = gz if op[2] is True else z3.And(gz, T2(op[2]))
            self.ops = self.ops + [(op[0], list(ys) + bs, guard) + tuple(T2(t) for t in op[3:])]
        if removes and adds:
            # the order of removals and additions of different elements must not matter
            self.check_commute(it, [o for o in self.ops[-len(new):]])

    def apply_one(self, it, b, a):
        self.ops = self.ops + a[0][len(b[0]):]

    @property
    def live(self):
        return (self, "nodes", None)

    def live_conflict(self, it, live, b, a):
        """May a change made by an iteration change the size of the dict that the loop iterates over?"""
        which, t = live[1], live[2]
        new = a[0][len(b[0]):]
        conds = []
        for op in new:
            g = as_z3(op[2])
            if op[0] in ("delnode", "filter", "vs", "bypass") or which == "nodes" and op[0] == "addnode":
                return True
            if op[0] in ("add", "del", "delall"):
                if which == "nodes":
                    if op[0] == "add":
                        conds.append(z3.And(g, z3.Not(z3.And(self.node(op[3]), self.node(op[4])))))
                else:
                    conds.append(z3.And(g, op[4 if which == "pred" else 3] == t))
        return bool(conds) and it.ctx._check(z3.Or(conds), timeout=3000) != z3.unsat

    def check_commute(self, it, ops):
        ctx = it.ctx
        for r in ops:
            if r[0] != "del":
                if r[0] in ("delnode", "delall"):
                    raise Unsupported("a loop removes nodes and adds edges")
                continue
            for ad in ops:
                if ad[0] != "add":
                    continue
                rx = [ctx.fresh("r", x.sort()) for x in r[1]]
                ax = [ctx.fresh("a", x.sort()) for x in ad[1]]
                rs, as_ = list(zip(r[1], rx)), list(zip(ad[1], ax))
                S = lambda t, s: z3.substitute(t, *s) if s else t
                conds = [S(as_z3(r[2]), rs), S(as_z3(ad[2]), as_)] + [S(r[i], rs) == S(ad[i], as_) for i in (3, 4, 5)]
                if ctx._check(*conds, timeout=4000) != z3.unsat:
                    raise Unsupported("a loop removes an edge that another iteration adds")


class LiveView(Value):
    """An edge view: can be iterated more than once, always over the current edges."""

    def __init__(self, coll, live):
        self.coll, self.live = coll, live


class NodeView(Value):
    def __init__(self, g):
        self.g = g
        self.live = (g, "nodes", None)


class AdjView(Value):
    def __init__(self, g, which):
        self.g, self.which = g, which

    def getitem(self, it, k):
        if not self.g.has(it, k):
            it.raise_(KeyError, k)
        return ListV(it.ctx, [("coll", self.g.adj_coll(it, k, self.which == "pred"))], "dict-view")


def install_graph(it):
    """Hooks of the view values into the interpreter's models."""
    m = it.models
    if getattr(m, "_graph_hooks", False):
        return
    m._graph_hooks = True
    iter0, get0, cont0, attr0 = m.iter_segs, m.getitem, m.contains, m.get_attr

    def iter_segs(it, v):
        if isinstance(v, NodeView):
            return [("coll", v.g.nodes_coll(it))]
        if isinstance(v, AdjView):
            return [("coll", v.g.nodes_coll(it))]
        if isinstance(v, LiveView):
            return [("coll", v.coll(it))]
        return iter0(it, v)

    def getitem(it, o, k):
        if isinstance(o, AdjView):
            return o.getitem(it, k)
        return get0(it, o, k)

    def contains(it, c, v):
        if isinstance(c, (NodeView, AdjView)):
            return c.g.contains(it, v)
        return cont0(it, c, v)

    def get_attr(it, v, name):
        if isinstance(v, ListV) and v.kind == "dict-view":
            if name == "keys":
                return Model(name, lambda it, a, k: v)
            return None
        return attr0(it, v, name)

    m.iter_segs, m.getitem, m.contains, m.get_attr = iter_segs, getitem, contains, get_attr
    from ..interp import Interp

    call0, truth0 = Interp.call, Interp.truth_f

    def call(self, f, args, kwargs):
        if isinstance(f, NodeView):
            if kwargs or args:
                raise Unsupported("nodes(data)")
            return f
        return call0(self, f, args, kwargs)

    def truth_f(self, v):
        if isinstance(v, NodeView):
            return v.g.truth(self)
        return truth0(self, v)

    Interp.call, Interp.truth_f = call, truth_f


# ---------------------------------------------------------------- plans and registries


def symbolic_plan(it, label="g"):
    """An arbitrary Plan object: its graph is arbitrary and finite, its scope is arbitrary."""
    install_graph(it)
    ctx = it.ctx
    plan = Inst(ctx, it.glob("uberjob._plan.Plan"))
    ctx.extra.setdefault("arbitrary", set()).add(plan.oid)
    g = GraphV(ctx, label)
    plan.attrs = {"graph": g, "_scope": SV(ctx.fresh("plan_scope"), "obj", SEQ), "_scope_lock": Inst(ctx, Opaque("RLock"))}
    plan.attrs["_scope_lock"].ext = RLockExt()
    it.externs["networkx.MultiDiGraph"] = Model("MultiDiGraph", lambda it, a, k: GraphV(ctx, "new", empty=True))
    it.externs["threading.RLock"] = Model("RLock", lambda it, a, k: rlock(it))
    contract_names(it)
    return plan, g


def rlock(it):
    i = Inst(it.ctx, Opaque("RLock"))
    i.ext = RLockExt()
    return i


class RLockExt:
    def getattr(self, it, inst, name):
        if name in ("__enter__", "acquire"):
            return Model(name, lambda it, a, k: True)
        if name in ("__exit__", "release"):
            return Model(name, lambda it, a, k: None)
        return None

    def setattr(self, it, inst, name, value):
        raise Unsupported("attribute of a lock")


def contract_names(it):
    """fully_qualified_name is a function of its argument only (its text is not part of any property)."""
    it.call_contracts["uberjob._util.traceback.render_symbolic_traceback"] = lambda it, a, k: pure(it, "rendered", [a[0]], STR)
    it.call_contracts["uberjob._util.fully_qualified_name"] = lambda it, a, k: pure(it, "fqn", [type_term(it, a[0])], STR)


def type_term(it, v):
    v = it.resolve(v)
    if isinstance(v, TypeOf):
        return SV(z3.Function("class_of", Obj, Obj)(it.term(v.v)), "obj", ANY)
    return v


class StoreSchema(Schema):
    """A value store: its read, write and get_modified_time are arbitrary."""

    name = "store"
    user = True
    cls = z3.Function("class_of", Obj, Obj)

    def truth(self, it, sv):
        return z3.Function("truth_of", Obj, B)(sv.t)

    def isinstance(self, it, sv, cls):
        return cls_name(cls) == "uberjob._value_store.ValueStore" or isinstance(cls, BuiltinCls) and cls.cls is object

    def type_is(self, it, sv, cls):
        return False

    def class_attr(self, it, sv, name):
        if name in ("read", "write", "get_modified_time"):
            return SV(z3.Function("store_fn_" + name, Obj, Obj)(self.cls(sv.t)), "obj", ANY)
        raise Unsupported(f"store class attribute {name}")

    def getattr(self, it, sv, name):
        h = it.ctx.extra.get("store_method")
        if h is not None:
            r = h(it, sv, name)
            if r is not None:
                return r
        raise Unsupported(f"store.{name}")


STORE = StoreSchema()


class RvSchema(Schema):
    """A registry entry."""

    never_none = True
    name = "registry value"
    store = z3.Function("rv_store", Obj, Obj)
    source = z3.Function("rv_is_source", Obj, B)
    frame = z3.Function("rv_stack_frame", Obj, Obj)

    def truth(self, it, sv):
        return True

    def type_is(self, it, sv, cls):
        return cls_name(cls) == "uberjob._registry.RegistryValue"

    def getattr(self, it, sv, name):
        if name == "value_store":
            return SV(self.store(sv.t), "obj", STORE)
        if name == "is_source":
            return SV(self.source(sv.t))
        if name == "stack_frame":
            return SV(self.frame(sv.t), "obj", it.ctx.extra.get("frame_tag", ANY))
        raise Unsupported(f"registry value.{name}")

    def setattr(self, it, sv, name, value):
        hook = it.ctx.extra.get("rv_setattr")
        if hook is not None:
            return hook(it, sv, name, value)
        raise Unsupported("assignment to a registry value")


RV = RvSchema()


def symbolic_registry(it, g):
    """An arbitrary Registry whose keys are nodes of the plan. Returns (registry, in_registry, entry)."""
    ctx = it.ctx
    reg = Inst(ctx, it.glob("uberjob._registry.Registry"))
    ctx.extra.setdefault("arbitrary", set()).add(reg.oid)
    inr = ctx.fresh_fn("registered", Obj, B)
    ent = ctx.fresh_fn("entry", Obj, Obj)
    x = ctx.fresh("rn", Obj)
    ctx.assume(z3.ForAll([x], z3.Implies(inr(x), z3.And(g.N0(x), RV.store(ent(x)) != it.none_term())), patterns=[inr(x)]))
    d = DictV(ctx, [("coll", Coll([x], inr(x), (SV(x, "obj", NODE), SV(ent(x), "obj", RV)), None, False, None, True, "reg"))])
    reg.attrs = {"mapping": d}
    return reg, inr, ent


class ObserverExt:
    """A progress observer which records every notification."""

    def __init__(self, log):
        self.log = log

    def truth(self, it, inst):
        return z3.Function("truth_of", Obj, B)(it.term(inst))

    def setattr(self, it, inst, name, value):
        raise Unsupported("attribute of an observer")

    def isinstance(self, it, inst, cls):
        return cls_name(cls) in ("uberjob.progress._progress_observer.ProgressObserver",)

    def getattr(self, it, inst, name):
        if name in ("increment_running", "increment_completed", "increment_failed", "increment_total"):
            what = name[len("increment_"):]

            def call(it, a, k):
                if a:
                    it.raise_(TypeError, "positional arguments")
                want = {"section", "scope"} | ({"exception"} if what == "failed" else set()) | ({"amount"} if what == "total" else set())
                if set(k) != want:
                    it.raise_(TypeError, "arguments of a notification")
                self.log(it, what, k)
            return Model(name, call)
        if name == "__enter__":
            return Model(name, lambda it, a, k: self.log(it, "enter", {}) or inst)
        if name == "__exit__":
            return Model(name, lambda it, a, k: self.log(it, "exit", {}))
        return None


def observer(it, log):
    i = Inst(it.ctx, Opaque("observer"))
    i.ext = ObserverExt(log)
    return i
