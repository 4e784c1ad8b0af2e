"""The public methods of Plan and Registry: what they add, to what line it is attributed, copies, scopes, edge keys (C02, C13, C15, C19)."""
import ast

import z3

from ..core import B, I, IteV, Obj, PathEnd, PyRaise, SV, Unsupported, Value
from ..interp import STARKW, Star
from ..models import STR, as_z3
from ..values import BuiltinCls, ClsV, Coll, DictV, Inst, ListV, Model, PyFunc, Schema, SetV
from .base import describe_exc, returns, tag, unit
from .fs import ANY
from .graphs import G, KEY, Key, NODE, RV, SEQ, STORE, GraphV, cls_name, is_call, node_term, seq_term, symbolic_plan, symbolic_registry
from .physical import FN, flat
from .plans import PLAN, VALUE, is_node, node_for, spy_frames, symbolic_arguments, user_frame

REG = "uberjob._registry.Registry."


def unchanged(g, ctx, g2=None):
    u, v, k = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key)
    g2 = g2 or g
    return z3.And(g2.edge(u, v, k) == g.E0(u, v, k), g2.node(u) == g.N0(u))


def is_type_error(it, e):
    return it.exc_matches(e, BuiltinCls(TypeError))


@unit("plan.lit", ["C02", "C13", "C15", "C19"], covers=("literal", "already a node"))
def plan_lit(ctx, it):
    """Plan.lit: a new literal holding the very object, in the current scope; a node is refused."""
    plan, g = symbolic_plan(it)
    t = lambda props, text: tag(props, "Plan.lit: " + text)
    spy_frames(it)
    value = SV(ctx.fresh("value"), "obj", VALUE)
    try:
        r = it.resolve(it.call(it.getattr(plan, "lit"), [value], {}))
    except PyRaise as e:
        ctx.cover("already a node")
        ctx.prove(t(["C02"], "raises only when the value is already a node"), is_node(value.t))
        ctx.prove(t(["C13", "C02"], "a refused value leaves the plan as it was"), unchanged(g, ctx))
        return
    ctx.cover("literal")
    ctx.prove(t(["C02"], "a literal"), isinstance(r, Inst) and cls_name(r.cls) == G + "Literal")
    ctx.prove(t(["C02"], "holding the very object"), it.is_(r.attrs["value"], value))
    ctx.prove(t(["C15"], "in the current scope"), it.is_(r.attrs["scope"], plan.attrs["_scope"]))
    ctx.prove(t(["C19"], "attributed to the line that created it"), it.is_(r.attrs["stack_frame"], user_frame(it)))
    u, v, k = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key)
    ctx.prove(t(["C02", "C13"], "exactly the literal is added to the plan"), z3.And(g.edge(u, v, k) == g.E0(u, v, k), g.node(u) == z3.Or(g.N0(u), u == node_term(it, r))))


@unit("plan.public_call", ["C01", "C02", "C13", "C15", "C19"], covers=("call", "refused"))
def plan_public_call(ctx, it):
    """Plan.call: as Plan._call, attributed to the caller's line; a function that cannot be called so is refused, leaving the plan as it was."""
    plan, g = symbolic_plan(it)
    t = lambda props, text: tag(props, "Plan.call: " + text)
    spy_frames(it)
    args, kwargs, _ = symbolic_arguments(it)
    fn = SV(ctx.fresh("fn"), "obj", FN)
    bad = ctx.fresh("cannot_bind", B)
    seen = []

    def can_bind(it, a, k):
        """Contract: raises TypeError if and only if the function's signature does not accept the arguments."""
        seen.append((a, k))
        if ctx.branch(bad):
            it.raise_(TypeError, "cannot bind")

    def made(it, a, k):
        """Contract (unit plan.call)."""
        ctx.prove(t(["C02"], "the call is made in the plan itself"), it.resolve(a[0]) is plan)
        ctx.prove(t(["C19"], "attributed to the line that created it"), it.is_(a[1], user_frame(it)))
        ctx.prove(t(["C02"], "of that function"), it.is_(a[2], fn))
        ctx.prove(t(["C02"], "with exactly the arguments"), same_arguments(it, a[3:], k, args, kwargs))
        if "made" in ctx.extra:
            ctx.prove(t(["C02", "C04"], "one call is made"), False)
        ctx.extra["made"] = SV(ctx.fresh("made"), "obj", NODE)
        return ctx.extra["made"]

    it.externs["builtins.callable"] = Model("callable", lambda it, a, k: SV(z3.Function("is_callable", Obj, B)(it.term(a[0]))))
    ctx.extra["shows"] = True  # an error message shows what was refused; that may fail with another error
    it.call_contracts["uberjob._util.validation.assert_can_bind"] = can_bind
    it.call_contracts[PLAN + "_call"] = made
    try:
        r = it.call(it.getattr(plan, "call"), [fn] + args, kwargs)
    except PyRaise as e:
        ctx.cover("refused")
        ctx.prove(t(["C02"], "refuses only what cannot be called so"), z3.Or(bad, z3.Not(z3.Function("is_callable", Obj, B)(fn.t))))
        ctx.prove(t(["C02"], "with a TypeError"), is_type_error(it, e.exc))
        ctx.prove(t(["C13", "C02"], "a refused call leaves the plan as it was"), unchanged(g, ctx) if "made" not in ctx.extra else False)
        return
    ctx.cover("call")
    if "made" not in ctx.extra:
        raise Unsupported("the call is made in another way")
    for a, k in seen:
        ctx.prove(t(["C02"], "what is checked against the signature are the arguments"), it.is_(a[0], fn) and same_arguments(it, a[1:], k, args, kwargs))
    ctx.prove(t(["C02"], "the call made is returned"), it.is_(r, ctx.extra["made"]))


def same_arguments(it, a, k, args, kwargs):
    """The very collections of arguments, in order."""
    fa, fb = [s for x in a for s in (x.segs if isinstance(x, Star) else [("one", x)])], [s for x in args for s in x.segs]
    ka, kb = dict(k), dict(kwargs)
    oa, ob = ka.pop(STARKW, []), kb.pop(STARKW, [])
    if ka or kb:
        return False
    if len(fa) != len(fb) or len(oa) != len(ob):
        return False
    for x, y in zip(fa + list(oa), fb + list(ob)):
        if x[0] != y[0] or x[0] != "coll":
            raise Unsupported("arguments of another shape")
        if x[1] is not y[1]:
            cx, cy = x[1], y[1]
            if not (len(cx.xs) == len(cy.xs) == 1 and cx.xs[0].sort() == cy.xs[0].sort() == I and cx.ordered and cy.ordered):
                raise Unsupported("arguments of another shape")
            i = it.ctx.fresh("same", I)
            m1, e1, _ = cx.at([i])
            m2, e2, _ = cy.at([i])
            it.ctx.prove(tag(["C02"], "Plan: the arguments are passed on unchanged"), z3.And(as_z3(m1) == as_z3(m2), z3.Implies(as_z3(m1), as_z3(it.ident(e1, e2)))))
    return True


@unit("plan.public_gather", ["C02", "C13", "C19"], covers=("end",))
def plan_public_gather(ctx, it):
    """Plan.gather: as Plan._gather, attributed to the caller's line."""
    plan, g = symbolic_plan(it)
    t = lambda props, text: tag(props, "Plan.gather: " + text)
    spy_frames(it)
    value = SV(ctx.fresh("value"), "obj", VALUE)

    def made(it, a, k):
        ctx.prove(t(["C02"], "the value is gathered in the plan itself"), it.resolve(a[0]) is plan and len(a) == 3 and not k)
        ctx.prove(t(["C19"], "attributed to the line that called gather"), it.is_(a[1], user_frame(it)))
        return SV(node_for(it.term(a[2])), "obj", NODE)

    it.call_contracts[PLAN + "_gather"] = made
    r = returns(ctx, t(["C02"], "does not raise"), lambda: it.call(it.getattr(plan, "gather"), [value], {}))
    ctx.cover("end")
    ctx.prove(t(["C02"], "the node for that very value is returned"), it.term(r) == node_for(value.t))
    ctx.prove(t(["C13", "C02"], "nothing else is added"), unchanged(g, ctx))


@unit("plan.unpack", ["C01", "C02", "C13", "C19"], covers=("unpacked", "refused"))
def plan_unpack(ctx, it):
    """Plan.unpack with any length: one call of unpack, and for every index one call that takes that item of it."""
    plan, g = symbolic_plan(it)
    t = lambda props, text: tag(props, "Plan.unpack: " + text)
    spy_frames(it)
    value = SV(ctx.fresh("iterable"), "obj", VALUE)
    n = ctx.fresh("length", I)
    length = SV(n) if ctx.choose(2, "length") == 0 else SV(ctx.fresh("not_an_int"), "obj", NotInt())
    item = ctx.fresh_fn("item_call", I, Obj)
    done = []

    def made(it, a, k):
        ctx.prove(t(["C02"], "the calls are made in the plan itself"), it.resolve(a[0]) is plan and not k)
        ctx.prove(t(["C19"], "attributed to the line that called unpack"), it.is_(a[1], user_frame(it)))
        f = it.resolve(a[2])
        if isinstance(f, PyFunc):
            ctx.prove(t(["C02"], "the first call unpacks the iterable into that many items"), f.qual == "uberjob._builtins.unpack" and len(a) == 5 and it.conj([it.is_(a[3], value), it.ident(a[4], length)]))
            c = SV(ctx.fresh("unpacked"), "obj", NODE)
            done.append(c)
            return c
        ctx.prove(t(["C02"], "the other calls take one item each of what was unpacked"), isinstance(f, Model) and f.name == "operator.getitem" and len(a) == 5 and len(done) == 1 and it.is_(a[3], done[0]))
        i = it.resolve(a[4])
        return SV(item(i.t if isinstance(i, SV) else z3.IntVal(i)), "obj", NODE)

    it.call_contracts[PLAN + "_call"] = made
    try:
        r = it.resolve(it.call(it.getattr(plan, "unpack"), [value, length], {}))
    except PyRaise as e:
        ctx.cover("refused")
        ctx.prove(t(["C02"], "refuses only a length that is not a non-negative integer"), n < 0 if length.tag is None else True)
        ctx.prove(t(["C13", "C02"], "refusing leaves the plan as it was"), not done)
        return
    ctx.cover("unpacked")
    ctx.prove(t(["C02"], "one call unpacks"), len(done) == 1)
    if isinstance(r, tuple):
        segs = [("one", x) for x in r]
    elif isinstance(r, ListV) and r.kind == "tuple":
        segs = flat_segs(r)
    else:
        raise Unsupported("unpack returns something else than a tuple")
    ctx.prove(t(["C02"], "exactly that many items are returned"), it.ident(it.models.seq_len(it, segs), SV(n)))
    if len(segs) != 1 or segs[0][0] != "coll" or not segs[0][1].ordered or len(segs[0][1].xs) != 1 or segs[0][1].xs[0].sort() != I:
        raise Unsupported("shape of the items")
    at = ctx.fresh("at", I)
    m, e, _ = segs[0][1].at([at])
    ctx.assume(z3.And(0 <= at, at < n))
    ctx.prove(t(["C02"], "in order, each the call that takes that item"), z3.And(as_z3(m), it.term(e) == item(at)))


def flat_segs(r):
    return [s for s in r.segs]


class NotInt(Schema):
    name = "not an int"

    def isinstance(self, it, sv, cls):
        return isinstance(cls, BuiltinCls) and cls.cls is object

    def type_is(self, it, sv, cls):
        return False

    def truth(self, it, sv):
        return z3.Function("value_truth", Obj, B)(sv.t)


@unit("plan.add_dependency", ["C01", "C02", "C13"], covers=("added", "refused"))
def plan_add_dependency(ctx, it):
    """Plan.add_dependency: exactly that dependency edge; an argument that is not a node of the plan is refused."""
    plan, g = symbolic_plan(it)
    t = lambda props, text: tag(props, "Plan.add_dependency: " + text)
    a, b = SV(ctx.fresh("source"), "obj", VALUE), SV(ctx.fresh("target"), "obj", VALUE)
    ok = z3.And(is_node(a.t), is_node(b.t), g.N0(a.t), g.N0(b.t))
    try:
        it.call(it.getattr(plan, "add_dependency"), [a, b], {})
    except PyRaise as e:
        ctx.cover("refused")
        ctx.prove(t(["C01", "C02"], "refuses only what is not a node of the plan"), z3.Not(ok))
        ctx.prove(t(["C13", "C02"], "refusing leaves the plan as it was"), unchanged(g, ctx))
        return
    ctx.cover("added")
    u, v, k = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key)
    new = z3.And(u == a.t, v == b.t, k == Key.kDep)
    ctx.prove(t(["C01", "C02"], "exactly the dependency is added"), z3.And(g.edge(u, v, k) == z3.Or(g.E0(u, v, k), new)))
    ctx.prove(t(["C01", "C02", "C13"], "no node is added"), g.node(u) == z3.Or(g.N0(u), z3.And(z3.Not(ok), z3.Or(u == a.t, u == b.t))))


@unit("plan.copy", ["C13"], covers=("end",))
def plan_copy(ctx, it):
    """Plan.copy: a new plan with a copy of the graph (networkx's copy: same node objects and edges, independent), an empty scope and its own lock."""
    plan, g = symbolic_plan(it)
    t = lambda text: tag(["C13"], "Plan.copy: " + text)
    name = ("copy", "__copy__")[ctx.choose(2, "method")]
    r = it.resolve(returns(ctx, t("does not raise"), lambda: it.call(it.getattr(plan, name), [], {})))
    ctx.cover("end")
    ctx.prove(t("a new plan"), isinstance(r, Inst) and r is not plan and cls_name(r.cls) == "uberjob._plan.Plan")
    g2 = it.resolve(it.getattr(r, "graph"))
    ctx.prove(t("the graph is another object"), g2 is not g and isinstance(g2, GraphV))
    ctx.prove(t("the same nodes and edges"), unchanged(g, ctx, g2))
    ctx.prove(t("the original is unchanged"), z3.And(unchanged(g, ctx), it.resolve(plan.attrs["graph"]) is g))
    ctx.prove(t("the scope is empty"), it.resolve(it.ident(r.attrs["_scope"], ())))
    ctx.prove(t("its lock is its own"), it.resolve(r.attrs["_scope_lock"]) is not it.resolve(plan.attrs["_scope_lock"]))


@unit("registry.add", ["C03", "C05", "C13", "C19"], covers=("added", "refused"))
def registry_add(ctx, it):
    """Registry.add: exactly that entry, attributed to the caller's line; a second store for a node is refused."""
    t = lambda props, text: tag(props, "Registry.add: " + text)
    plan, g = symbolic_plan(it)
    spy_frames(it)
    reg, inr, ent = symbolic_registry(it, g)
    node, store = SV(ctx.fresh("node"), "obj", VALUE), SV(ctx.fresh("store"), "obj", MaybeStore())
    try:
        it.call(it.getattr(reg, "add"), [node, store], {})
    except PyRaise as e:
        ctx.cover("refused")
        ctx.prove(t(["C03", "C05"], "refuses only a node that is registered already, or what is not a node or not a store"), z3.Or(z3.Not(is_node(node.t)), inr(node.t), z3.Not(is_store(store.t))))
        y = ctx.fresh("y")
        got = it.models.dict_contains_f(it, it.resolve(reg.attrs["mapping"]), SV(y, "obj", NODE))
        ctx.prove(t(["C13"], "refusing leaves the registry as it was"), as_z3(got) == inr(y))
        return
    ctx.cover("added")
    d = it.resolve(reg.attrs["mapping"])
    y = ctx.fresh("y")
    ctx.prove(t(["C03", "C05", "C13"], "exactly that node is added"), as_z3(it.models.dict_contains_f(it, d, SV(y, "obj", NODE))) == z3.Or(inr(y), y == node.t))
    e = it.resolve(it.getitem(d, SV(node.t, "obj", NODE)))
    ctx.prove(t(["C03", "C05"], "with that store"), it.is_(it.getattr(e, "value_store"), store))
    ctx.prove(t(["C03", "C05"], "not as a source"), it.neg(it.truth_f(it.getattr(e, "is_source"))))
    ctx.prove(t(["C19"], "attributed to the line that called add"), it.is_(it.getattr(e, "stack_frame"), user_frame(it)))
    ctx.assume(z3.And(inr(y), y != node.t))
    o = it.getitem(d, SV(y, "obj", NODE))
    ctx.prove(t(["C13", "C05"], "every other entry is kept"), it.term(o) == ent(y))


is_store = z3.Function("is_a_store", Obj, B)


class MaybeStore(type(STORE)):
    name = "maybe a store"

    def isinstance(self, it, sv, cls):
        if cls_name(cls) == "uberjob._value_store.ValueStore":
            return is_store(sv.t)
        return super().isinstance(it, sv, cls)


class MaybePlan(Schema):
    name = "not a plan"

    def isinstance(self, it, sv, cls):
        return False

    def type_is(self, it, sv, cls):
        return False


@unit("registry.source", ["C03", "C05", "C13", "C15", "C19"], covers=("added", "refused"))
def registry_source(ctx, it):
    """Registry.source: a new call of the placeholder in the plan, registered as a source, both attributed to the caller's line."""
    t = lambda props, text: tag(props, "Registry.source: " + text)
    plan, g = symbolic_plan(it)
    spy_frames(it)
    reg, inr, ent = symbolic_registry(it, g)
    store = SV(ctx.fresh("store"), "obj", MaybeStore())
    made = []

    def call(it, a, k):
        ctx.prove(t(["C03", "C05"], "one node is made, in the plan that was passed"), it.resolve(a[0]) is plan and not made)
        f = it.resolve(a[2])
        ctx.prove(t(["C03", "C05"], "a call of the placeholder, without arguments"), isinstance(f, PyFunc) and f.qual == "uberjob._builtins.source" and len(a) == 3 and not k)
        ctx.prove(t(["C19"], "the node is attributed to the line that called source"), it.is_(a[1], user_frame(it)))
        c = SV(ctx.fresh("made"), "obj", NODE)
        ctx.assume(z3.And(is_call(c.t), z3.Not(g.N0(c.t))))
        made.append(c)
        return c

    it.call_contracts[PLAN + "_call"] = call
    isplan = ctx.choose(2, "plan") == 0
    p = plan if isplan else SV(ctx.fresh("not_a_plan"), "obj", MaybePlan())
    try:
        r = it.call(it.getattr(reg, "source"), [p, store], {})
    except PyRaise as e:
        ctx.cover("refused")
        ctx.prove(t(["C03", "C05"], "refuses only what is not a plan or not a store"), z3.Or(not isplan, z3.Not(is_store(store.t))))
        ctx.prove(t(["C13"], "refusing leaves the plan as it was"), not made)
        return
    ctx.cover("added")
    ctx.prove(t(["C03", "C05"], "the new node is returned"), len(made) == 1 and it.is_(r, made[0]))
    d = it.resolve(reg.attrs["mapping"])
    y = ctx.fresh("y")
    ctx.prove(t(["C03", "C05", "C13"], "exactly the new node is added"), as_z3(it.models.dict_contains_f(it, d, SV(y, "obj", NODE))) == z3.Or(inr(y), y == made[0].t))
    e = it.resolve(it.getitem(d, made[0]))
    ctx.prove(t(["C03", "C05"], "with that store"), it.is_(it.getattr(e, "value_store"), store))
    ctx.prove(t(["C03", "C05"], "as a source"), it.truth_f(it.getattr(e, "is_source")))
    ctx.prove(t(["C19"], "attributed to the line that called source"), it.is_(it.getattr(e, "stack_frame"), user_frame(it)))
    ctx.assume(z3.And(inr(y), y != made[0].t))
    ctx.prove(t(["C13", "C05"], "every other entry is kept"), it.term(it.getitem(d, SV(y, "obj", NODE))) == ent(y))


@unit("builtins.gather", ["C02"], covers=("list", "tuple", "set", "dict"))
def builtins_gather(ctx, it):
    """gather_list, gather_tuple, gather_set, gather_dict: the structure of exactly those items, in order."""
    t = lambda text: tag(["C02"], text)
    kind = ("list", "tuple", "set", "dict")[ctx.choose(4, "kind")]
    f = it.glob("uberjob._builtins.gather_" + kind)
    n = ctx.fresh("n", I)
    ctx.assume(n >= 0)
    i = ctx.fresh("i", I)
    item, key = ctx.fresh_fn("item", I, Obj), ctx.fresh_fn("key", I, Obj)
    # the values gathered are arbitrary; those of a set and the keys of a dictionary hashable
    c = Coll([i], z3.And(i >= 0, i < n), SV(item(i), "obj", ANY) if kind != "dict" else (SV(key(i), "obj", ANY), SV(item(i), "obj", ANY)), None, True, n, True, "args")
    r = it.resolve(returns(ctx, t(f"gather_{kind}: does not raise"), lambda: it.call(f, [Star([("coll", c)])], {})))
    ctx.cover(kind)
    at = ctx.fresh("at", I)
    if kind in ("list", "tuple"):
        ctx.prove(t(f"gather_{kind}: returns a {kind}"), isinstance(r, ListV) and r.kind == kind)
        segs = flat_segs(r)
        if len(segs) != 1 or segs[0][0] != "coll" or len(segs[0][1].xs) != 1 or segs[0][1].xs[0].sort() != I or not segs[0][1].ordered:
            raise Unsupported("shape of the items")
        ctx.prove(t(f"gather_{kind}: exactly the items"), it.ident(it.models.seq_len(it, segs), SV(n)))
        ctx.assume(z3.And(0 <= at, at < n))
        m, e, _ = segs[0][1].at([at])
        ctx.prove(t(f"gather_{kind}: in order"), z3.And(as_z3(m), it.term(e) == item(at)))
    elif kind == "set":
        ctx.prove(t("gather_set: returns a set"), isinstance(r, SetV))
        y = ctx.fresh("y")
        ctx.prove(t("gather_set: of exactly the items"), as_z3(it.models.set_contains_term(it, r, y)) == z3.Exists([at], z3.And(0 <= at, at < n, item(at) == y)))
    else:
        ctx.prove(t("gather_dict: returns a dictionary"), isinstance(r, DictV))
        ctx.prove(t("gather_dict: of exactly the items, in order"), len(r.ops) == 1 and r.ops[0][0] == "coll" and r.ops[0][1].ordered)
        m, e, _ = r.ops[0][1].at([at]) if len(r.ops[0][1].xs) == 1 and r.ops[0][1].xs[0].sort() == I else (None, None, None)
        if m is None:
            raise Unsupported("shape of the items")
        ctx.prove(t("gather_dict: every pair"), z3.And(as_z3(m) == z3.And(0 <= at, at < n), z3.Implies(z3.And(0 <= at, at < n), z3.And(it.term(e[0]) == key(at), it.term(e[1]) == item(at)))))


@unit("edge.keys", ["C01", "C02"], covers=("end",))
def edge_keys(ctx, it):
    """Dependency, PositionalArg, KeywordArg: equal exactly when of the same class with equal index and name; equal keys hash equal."""
    t = lambda text: tag(["C01", "C02"], "edge keys: " + text)

    def make(j, tagname):
        i, nm = SV(ctx.fresh("index" + tagname, I)), SV(ctx.fresh("name" + tagname), "obj", STR)
        if j == 0:
            return it.call(it.glob(G + "Dependency"), [], {}), None, None
        if j == 1:
            return it.call(it.glob(G + "PositionalArg"), [i], {}), i.t, None
        return it.call(it.glob(G + "KeywordArg"), [nm, i], {}), i.t, nm.t

    a, b = ctx.choose(3, "a"), ctx.choose(3, "b")
    x, i, nx = make(a, "1")
    y, j, ny = make(b, "2")
    r = returns(ctx, t("comparison does not raise"), lambda: it.truth_f(it.call(it.getattr(x, "__eq__"), [y], {})))
    ctx.cover("end")
    same = z3.BoolVal(a == b) if a != b or a == 0 else (i == j if a == 1 else z3.And(i == j, nx == ny))
    ctx.prove(t("equal exactly when of the same kind with the same index and name"), as_z3(r) == same)
    ctx.assume(same)
    h1, h2 = it.call(it.getattr(x, "__hash__"), [], {}), it.call(it.getattr(y, "__hash__"), [], {})
    ctx.prove(t("equal keys have equal hashes"), it.ident(h1, h2))


rv_copy = z3.Function("copy_of_entry", Obj, Obj)


def copy_copy(it, a, k):
    """copy.copy of a registry entry: another entry with the same attributes."""
    v = it.resolve(a[0])
    if isinstance(v, SV) and v.tag is RV:
        x = v.t
        it.ctx.assume(z3.And(RV.store(rv_copy(x)) == RV.store(x), RV.source(rv_copy(x)) == RV.source(x), RV.frame(rv_copy(x)) == RV.frame(x)))
        return SV(rv_copy(x), "obj", RV)
    if isinstance(v, DictV):
        return it.call(it.getattr(v, "copy"), [], {})
    raise Unsupported("copy.copy")


@unit("registry.copy", ["C13", "C03", "C05", "C19"], covers=("end",))
def registry_copy(ctx, it):
    """Registry.copy: another registry with an equal entry for exactly the same nodes; later additions to either stay there."""
    t = lambda text: tag(["C13", "C03", "C05", "C19"], "Registry.copy: " + text)
    plan, g = symbolic_plan(it)
    reg, inr, ent = symbolic_registry(it, g)
    it.externs["copy.copy"] = Model("copy.copy", copy_copy)
    it.call_contracts["uberjob._util.traceback.get_stack_frame"] = lambda it, a, k: SV(ctx.fresh("here"), "obj", ANY)
    d0 = it.resolve(reg.attrs["mapping"])
    name = ("copy", "__copy__")[ctx.choose(2, "method")]
    r = it.resolve(returns(ctx, t("does not raise"), lambda: it.call(it.getattr(reg, name), [], {})))
    ctx.cover("end")
    ctx.prove(t("another registry"), isinstance(r, Inst) and r is not reg and cls_name(r.cls) == "uberjob._registry.Registry")
    d = it.resolve(r.attrs["mapping"])
    ctx.prove(t("with a mapping of its own"), d is not d0 and isinstance(d, DictV) and it.resolve(reg.attrs["mapping"]) is d0)
    y = ctx.fresh("y")
    ctx.prove(t("for exactly the same nodes"), as_z3(it.models.dict_contains_f(it, d, SV(y, "obj", NODE))) == inr(y))
    ctx.prove(t("the original is unchanged"), as_z3(it.models.dict_contains_f(it, d0, SV(y, "obj", NODE))) == inr(y))
    ctx.assume(inr(y))
    e = it.resolve(it.getitem(d, SV(y, "obj", NODE)))
    e0 = it.resolve(it.getitem(d0, SV(y, "obj", NODE)))
    ctx.prove(t("the original keeps its entries"), it.term(e0) == ent(y))
    ctx.prove(t("with the same store, kind and line"), z3.And(it.term(it.getattr(e, "value_store")) == RV.store(ent(y)), it.term(it.getattr(e, "stack_frame")) == RV.frame(ent(y)),
                                                             as_z3(it.truth_f(it.getattr(e, "is_source"))) == RV.source(ent(y))))


@unit("registry.views", ["C03", "C05", "C13"], covers=("in", "not in"))
def registry_views(ctx, it):
    """Registry: membership, length, indexing, get, keys, values, items and iteration tell what was registered and change nothing."""
    t = lambda text: tag(["C03", "C05", "C13"], "Registry: " + text)
    plan, g = symbolic_plan(it)
    reg, inr, ent = symbolic_registry(it, g)
    n = SV(ctx.fresh("node"), "obj", NODE)
    present = ctx.branch(inr(n.t))
    ctx.cover("in" if present else "not in")
    what = ctx.choose(6, "view")
    call = lambda m, *a: returns(ctx, t(f"{m} does not raise"), lambda: it.call(it.getattr(reg, m), list(a), {}))
    if what == 0:
        ctx.prove(t("'in' tells whether the node has a store"), as_z3(it.truth_f(call("__contains__", n))) == inr(n.t))
    elif what == 1:
        try:
            r = it.call(it.getattr(reg, "__getitem__"), [n], {})
        except PyRaise as e:
            ctx.prove(t("indexing raises KeyError only for a node without a store"), not present and it.exc_matches(e.exc, BuiltinCls(KeyError)))
        else:
            ctx.prove(t("indexing returns the store of the node"), z3.And(inr(n.t), it.term(r) == RV.store(ent(n.t))))
    elif what == 2:
        r = call("get", n)
        ctx.prove(t("get returns the store of the node, or None"), it.is_(r, SV(RV.store(ent(n.t)), "obj", STORE)) if present else it.is_(r, None))
    elif what == 3:
        for m in ("keys", "__iter__"):
            c = one_coll(it, call(m))
            y = ctx.fresh("y")
            ctx.prove(t("the keys are the registered nodes"), as_z3(it.models.coll_has(it, c, y)) == inr(y))
    elif what == 4:
        c = one_coll(it, call("values"))
        if len(c.xs) != 1 or c.xs[0].sort() != Obj:
            raise Unsupported("shape of the values")
        y = ctx.fresh("y")
        m, e, _ = c.at([y])
        ctx.prove(t("the values are the stores of the registered nodes"), z3.And(as_z3(m) == inr(y), z3.Implies(inr(y), it.term(e) == RV.store(ent(y)))))
    else:
        c = one_coll(it, call("items"))
        if len(c.xs) != 1 or c.xs[0].sort() != Obj or not isinstance(c.elem, tuple) or len(c.elem) != 2:
            raise Unsupported("shape of the items")
        y = ctx.fresh("y")
        m, e, _ = c.at([y])
        ctx.prove(t("the items pair the registered nodes with their stores"), z3.And(as_z3(m) == inr(y), z3.Implies(inr(y), z3.And(it.term(e[0]) == y, it.term(e[1]) == RV.store(ent(y))))))
    y = ctx.fresh("y")
    ctx.prove(t("asking changes nothing"), as_z3(it.models.dict_contains_f(it, it.resolve(reg.attrs["mapping"]), SV(y, "obj", NODE))) == inr(y))


def one_coll(it, v):
    segs = it.iter_segs(v)
    if len(segs) != 1 or segs[0][0] != "coll":
        raise Unsupported("shape of a view")
    return segs[0][1]


class Endless(Schema):
    """An iterable that yields any number of items, or never stops."""

    name = "iterable"
    finite, count, item = z3.Function("is_finite", Obj, B), z3.Function("yields", Obj, I), z3.Function("yields_at", Obj, I, Obj)


ITERABLE = Endless()


def islice(it, a, k):
    """itertools.islice(x, stop): the first stop items, or all of them when there are fewer; no further item is taken."""
    x = it.resolve(a[0])
    if not (isinstance(x, SV) and x.tag is ITERABLE) or len(a) != 2 or k:
        raise Unsupported("islice")
    stop = it.num(a[1])
    if not it.ctx.branch(stop >= 0):
        it.raise_(ValueError, "Stop argument for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
    n = it.ctx.fresh("sliced", I)
    it.ctx.assume(n == z3.If(z3.And(ITERABLE.finite(x.t), ITERABLE.count(x.t) <= stop), ITERABLE.count(x.t), stop))
    i = it.ctx.fresh("i", I)
    return ListV(it.ctx, [("coll", Coll([i], z3.And(i >= 0, i < n), SV(ITERABLE.item(x.t, i), "obj", ANY), None, True, n, False, "islice"))], "iterator")


@unit("builtins.unpack", ["C02"], covers=("exact", "too few", "too many"))
def builtins_unpack(ctx, it):
    """unpack: exactly the items, in order, of an iterable that yields exactly that many; ValueError otherwise, also when it never stops."""
    t = lambda text: tag(["C02"], "unpack: " + text)
    x = SV(ctx.fresh("iterable"), "obj", ITERABLE)
    n = ctx.fresh("length", I)
    ctx.assume(z3.And(n >= 0, ITERABLE.count(x.t) >= 0))
    it.externs["itertools.islice"] = Model("islice", islice)
    exact = z3.And(ITERABLE.finite(x.t), ITERABLE.count(x.t) == n)
    try:
        r = it.resolve(it.call(it.glob("uberjob._builtins.unpack"), [x, SV(n)], {}))
    except PyRaise as e:
        ctx.cover("too few" if ctx.branch(z3.And(ITERABLE.finite(x.t), ITERABLE.count(x.t) < n)) else "too many")
        ctx.prove(t("raises only when the iterable yields another number of items"), z3.Not(exact))
        ctx.prove(t("raises ValueError"), it.exc_matches(e.exc, BuiltinCls(ValueError)))
        return
    ctx.cover("exact")
    ctx.prove(t("returns only when the iterable yields exactly that many items"), exact)
    if not isinstance(r, ListV):
        raise Unsupported("unpack returns something else")
    segs = flat_segs(r)
    ctx.prove(t("exactly that many items"), it.ident(it.models.seq_len(it, segs), SV(n)))
    if len(segs) != 1 or segs[0][0] != "coll" or len(segs[0][1].xs) != 1 or segs[0][1].xs[0].sort() != I:
        raise Unsupported("shape of the items")
    at = ctx.fresh("at", I)
    m, e, _ = segs[0][1].at([at])
    ctx.assume(z3.And(0 <= at, at < n))
    ctx.prove(t("in order"), z3.And(as_z3(m), it.term(e) == ITERABLE.item(x.t, at)))


@unit("plan.scope", ["C15"], covers=("left normally", "left by an exception"))
def plan_scope(ctx, it):
    """Plan.scope: inside, the scope is the surrounding one followed by the arguments; afterwards, however it is left, the surrounding one again."""
    t = lambda text: tag(["C15"], "Plan.scope: " + text)
    plan, g = symbolic_plan(it)
    outer = plan.attrs["_scope"]
    k = ctx.choose(4, "number of arguments")
    args = tuple(SV(ctx.fresh("arg"), "obj", ANY) for _ in range(k))
    want = it.models.binop(it, ast.Add(), outer, args)
    fails = ctx.choose(2, "fails") == 1
    error = it.exc(KeyboardInterrupt if fails and ctx.choose(2, "kind") else ValueError, ())
    inside = []

    def body(_):
        inside.append(seq_term(it, plan.attrs["_scope"]) == seq_term(it, want))
        if fails:
            raise PyRaise(error)

    try:
        it.with_cm(it.call(it.getattr(plan, "scope"), list(args), {}), body)
    except PyRaise as e:
        ctx.cover("left by an exception")
        ctx.prove(t("raises only what was raised inside"), fails and e.exc is error)
    else:
        ctx.cover("left normally")
        ctx.prove(t("an exception raised inside is not swallowed"), not fails)
    ctx.prove(t("the body is entered once"), len(inside) == 1)
    ctx.prove(t("inside, the arguments are appended to the surrounding scope"), as_z3(inside[0]))
    ctx.prove(t("afterwards the surrounding scope is in force again"), it.ident(plan.attrs["_scope"], outer))
    ctx.prove(t("the graph is unchanged"), unchanged(g, ctx))
