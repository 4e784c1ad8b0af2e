"""Plan: calls, literals, gathered structures, unpacking, dependencies, copies (C02, C13, C19)."""
import z3

from ..core import B, I, IteV, Obj, PathEnd, PyRaise, SV, Unsupported, Value
from ..interp import STARKW, Star
from ..models import STR, as_z3
from ..values import BuiltinCls, ClsV, Coll, DictV, Inst, ListV, Model, PyFunc, Schema, SetV
from .base import describe_exc, returns, tag, unit
from .fs import ANY
from .graphs import G, KEY, Key, NODE, SEQ, GraphV, cls_name, is_call, node_term, symbolic_plan
from .physical import FN, flat

PLAN = "uberjob._plan.Plan."
has_node = z3.Function("contains_a_node", Obj, B)
is_node = z3.Function("is_a_node", Obj, B)
node_for = z3.Function("node_for", Obj, Obj)


class ValueSchema(Schema):
    """An arbitrary value: a node, or any other object, e.g. of a subclass of a container; never exactly a list, tuple, set or dict."""

    name = "value"

    def user(self, it, sv):
        return not it.ctx.branch(is_node(sv.t))

    def isinstance(self, it, sv, cls):
        n = cls_name(cls)
        if n == G + "Node":
            return is_node(sv.t)
        if n in (G + "Call", G + "Literal"):
            f = z3.Function("value_is_" + n.rsplit(".", 1)[1], Obj, B)(sv.t)
            it.ctx.assume(z3.Implies(f, is_node(sv.t)))
            return f
        if isinstance(cls, BuiltinCls) and cls.cls is object:
            return True
        f = z3.Function(f"value_is_{n}", Obj, B)(sv.t)
        it.ctx.assume(z3.Implies(f, z3.Not(is_node(sv.t))))
        return f

    def type_is(self, it, sv, cls):
        if isinstance(cls, BuiltinCls) and cls.cls in (list, tuple, set, dict):
            return False
        if cls_name(cls) in (G + "Call", G + "Literal"):
            return self.isinstance(it, sv, cls)
        if cls_name(cls) == G + "Node":
            return False
        f = z3.Function(f"value_type_is_{cls_name(cls)}", Obj, B)(sv.t)
        it.ctx.assume(z3.Implies(f, as_z3(self.isinstance(it, sv, cls))))
        return f

    def truth(self, it, sv):
        return z3.Function("value_truth", Obj, B)(sv.t)

    def getattr(self, it, sv, name):
        raise Unsupported(f"value.{name}")


VALUE = ValueSchema()


def spy_frames(it):
    it.call_contracts["uberjob._util.traceback.get_stack_frame"] = frame_contract


frame_at = z3.Function("frame_at", I, Obj)
USER = -1


def frame_contract(it, a, k):
    """Contract (unit trace.capture): the frame that many calls up, with its callers."""
    d = it.resolve(a[0] if a else k.get("initial_depth", 2))
    if d not in (1, 2, 3, 4):
        raise Unsupported("symbolic depth")
    return SV(frame_at(z3.IntVal(len(it.frames) - d)), "obj", ANY)


def user_frame(it):
    return SV(frame_at(z3.IntVal(USER)), "obj", ANY)


def symbolic_arguments(it):
    """*args and **kwargs of any number; the terms of the i-th."""
    ctx = it.ctx
    n, m = ctx.fresh("nargs", I), ctx.fresh("nkwargs", I)
    ctx.assume(z3.And(n >= 0, m >= 0))
    i, j = ctx.fresh("i", I), ctx.fresh("j", I)
    arg, kwarg, name = ctx.fresh_fn("arg", I, Obj), ctx.fresh_fn("kwarg", I, Obj), ctx.fresh_fn("name", I, Obj)
    p, q = z3.Const("kwi", I), z3.Const("kwj", I)
    ctx.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < m, 0 <= q, q < m, name(p) == name(q)), p == q)))
    a = Coll([i], z3.And(i >= 0, i < n), SV(arg(i), "obj", VALUE), None, True, n, True, "args")
    k = Coll([j], z3.And(j >= 0, j < m), (SV(name(j), "obj", STR), SV(kwarg(j), "obj", VALUE)), None, True, m, True, "kwargs")
    return [Star([("coll", a)])], {STARKW: [("coll", k)]}, (n, arg, m, name, kwarg)


@unit("plan.call", ["C01", "C02", "C13", "C15", "C19"], covers=("end",))
def plan_call(ctx, it):
    """Plan._call with any arguments: exactly the edges of the arguments are added, in order, under their names."""
    plan, g = symbolic_plan(it)
    t = lambda props, text: tag(props, "Plan._call: " + text)
    frame = SV(ctx.fresh("frame"), "obj", ANY)
    args, kwargs, (n, arg, m, name, kwarg) = symbolic_arguments(it)

    def gather(it, a, k):
        """Contract (unit plan.gather): the node for the value, existing or new; no edge into another existing node."""
        ctx.prove(t(["C02"], "an argument is gathered in the plan itself"), it.resolve(a[0]) is plan)
        ctx.prove(t(["C19"], "what is gathered for an argument is attributed to the line of the call"), it.is_(a[1], frame))
        return SV(node_for(it.term(a[2])), "obj", NODE)

    it.call_contracts[PLAN + "_gather"] = gather
    fn = SV(ctx.fresh("fn"), "obj", FN)
    c = it.resolve(returns(ctx, t(["C02"], "does not raise"), lambda: it.call(it.getattr(plan, "_call"), [frame, fn] + args, kwargs)))
    ctx.cover("end")
    ctx.prove(t(["C02"], "the result is a new call"), isinstance(c, Inst) and cls_name(c.cls) == G + "Call")
    ctx.prove(t(["C02"], "of the function"), it.is_(c.attrs["fn"], fn))
    ctx.prove(t(["C19"], "attributed to the line of the call"), it.is_(c.attrs["stack_frame"], frame))
    ctx.prove(t(["C15"], "in the current scope"), it.is_(c.attrs["scope"], plan.attrs["_scope"]))
    ct = node_term(it, c)
    u, v, k = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key)
    g2 = it.getattr(plan, "graph")
    i = z3.Const("ai", I)
    new = z3.And(v == ct, z3.Or(z3.Exists([i], z3.And(0 <= i, i < n, k == Key.kPos(i), u == node_for(arg(i)))),
                                z3.Exists([i], z3.And(0 <= i, i < m, k == Key.kKw(name(i), i), u == node_for(kwarg(i))))))
    T = ["C01", "C02"]
    ctx.prove(t(T, "every argument is an edge with its position, or its name and position"), z3.Implies(z3.Or(g.E0(u, v, k), new), g2.edge(u, v, k)))
    ctx.prove(t(T, "no other edge is added or removed"), z3.Implies(g2.edge(u, v, k), z3.Or(g.E0(u, v, k), new)))
    ctx.prove(t(T, "the call is a node of the plan"), g2.node(ct))
    ctx.prove(t(["C13", "C02"], "no node is removed"), z3.Implies(g.N0(u), g2.node(u)))


class Gathering:
    """One level of the recursion of _gather: the children were gathered according to the contract."""

    def __init__(self, ctx, it, value):
        self.ctx, self.it = ctx, it
        self.stack = []
        self.value = value

    def t(self, props, text):
        return tag(props, "Plan._gather: " + text)


def containers(it, kind):
    """A container of any number of arbitrary values. Returns (value, is there a node in it, number of items, item)."""
    ctx = it.ctx
    n = ctx.fresh("n", I)
    ctx.assume(n >= 0)
    i = ctx.fresh("i", I)
    item, item2 = ctx.fresh_fn("item", I, Obj), ctx.fresh_fn("key", I, Obj)
    mem = z3.And(i >= 0, i < n)
    if kind in ("list", "tuple"):
        return ListV(ctx, [("coll", Coll([i], mem, SV(item(i), "obj", VALUE), None, True, n, False, "items"))], kind), n, lambda i: SV(item(i), "obj", VALUE)
    if kind == "set":
        e, member = ctx.fresh("e"), ctx.fresh_fn("in_the_set", Obj, B)
        return SetV(ctx, [("coll", Coll([e], member(e), SV(e, "obj", VALUE), None, True, n, False, "items"))]), n, member
    return DictV(ctx, [("coll", Coll([i], mem, (SV(item2(i), "obj", VALUE), SV(item(i), "obj", VALUE)), None, True, n, True, "items", True))]), n, lambda i: (SV(item2(i), "obj", VALUE), SV(item(i), "obj", VALUE))


FNS = {"list": "gather_list", "tuple": "gather_tuple", "set": "gather_set", "dict": "gather_dict"}


@unit("plan.gather", ["C02", "C01", "C13", "C19"], covers=("a node", "an opaque value", "list with a node", "list", "tuple with a node", "set with a node", "dict with a node", "dict", "a pair with a node"))
def plan_gather(ctx, it):
    """Plan._gather: one level for a container of any size; the recursion on the children is its own contract (induction over the nesting)."""
    plan, g = symbolic_plan(it)
    t = lambda props, text: tag(props, "Plan._gather: " + text)
    frame = SV(ctx.fresh("frame"), "obj", ANY)
    kinds = ("value", "list", "tuple", "set", "dict", "pair")
    kind = kinds[ctx.choose(len(kinds), "kind")]
    n = item = None
    if kind == "value":
        value = SV(ctx.fresh("value"), "obj", VALUE)
        ctx.assume(has_node(value.t) == is_node(value.t))
        contains = is_node(value.t)
    elif kind == "pair":
        value = (SV(ctx.fresh("first"), "obj", VALUE), SV(ctx.fresh("second"), "obj", VALUE))
        contains = z3.Or([has_node(x.t) for x in value])
    else:
        value, n, item = containers(it, kind)
        i, e = z3.Const("gi", I), z3.Const("ge", Obj)
        parts = lambda i: [x.t for x in item(i)] if kind == "dict" else [item(i).t]
        contains = z3.Exists([e], z3.And(item(e), has_node(e))) if kind == "set" else z3.Exists([i], z3.And(0 <= i, i < n, z3.Or([has_node(x) for x in parts(i)])))
    calls, depth = [], [0]
    ctx.assume(z3.ForAll([z3.Const("gv", Obj)], z3.Implies(is_node(z3.Const("gv", Obj)), z3.And(has_node(z3.Const("gv", Obj)), node_for(z3.Const("gv", Obj)) == z3.Const("gv", Obj))),
                         patterns=[is_node(z3.Const("gv", Obj))]))
    ctx.assume(z3.ForAll([z3.Const("gv", Obj)], is_node(node_for(z3.Const("gv", Obj))), patterns=[node_for(z3.Const("gv", Obj))]))

    def child(it, v):
        """Contract of the recursion: a value without nodes is returned as it is, for another one a node is made."""
        v = it.resolve(v)
        if isinstance(v, tuple):
            h = z3.Or([has_node(it.term(x)) for x in v])
            ctx.extra.setdefault("pairs", []).append(v)
        elif isinstance(v, SV):
            h = has_node(v.t)
        else:
            raise Unsupported("recursion on something else than an item")
        return IteV([(h, SV(node_for(it.term(v)), "obj", VALUE)), (z3.Not(h), v)])

    def call_contract(it, a, k):
        """Contract (unit plan.call)."""
        ctx.prove(t(["C19"], "what is gathered is attributed to the line that was passed"), it.is_(a[1], frame))
        ctx.prove(t(["C02"], "the call is made in the plan itself"), it.resolve(a[0]) is plan and not k)
        c = SV(ctx.fresh("gathered"), "obj", VALUE)
        ctx.assume(is_node(c.t))
        calls.append((it.resolve(a[2]), a[3:], c))
        return c

    def hook(it, f, args, kwargs):
        if not f.qual.startswith("uberjob._plan."):
            return NotImplemented
        if any(x.node is f.node for x in it.frames):
            vals = [x for x in args if it.resolve(x) is not plan and not (isinstance(it.resolve(x), SV) and it.resolve(x).t.eq(frame.t))]
            if kwargs or len(vals) != 1:
                raise Unsupported("recursion of another shape")
            if f.name == "_gather":
                raise Unsupported("recursion of another shape")
            return child(it, vals[0])
        return NotImplemented

    it.call_contracts[PLAN + "_call"] = call_contract
    spy_frames(it)
    it.hook = hook
    before = list(g.ops)
    r = it.resolve(returns(ctx, t(["C02"], "does not raise"), lambda: it.call(it.getattr(plan, "_gather"), [frame, value], {})))
    it.hook = None
    new = [op for op in g.ops if op not in before]
    if ctx.branch(contains):
        if kind == "value":
            ctx.cover("a node")
            ctx.prove(t(["C02"], "a node is returned as it is"), it.is_(r, value))
            ctx.prove(t(["C02", "C13"], "and nothing is added"), not new and not calls)
            return
        ctx.cover(f"{'a pair' if kind == 'pair' else kind} with a node")
        ctx.prove(t(["C02"], "a structure with nodes becomes one call"), len(calls) == 1 and it.is_(r, calls[0][2]))
        f, args, _ = calls[0]
        ctx.prove(t(["C02"], "of the function that rebuilds that type"), isinstance(f, PyFunc) and f.qual == "uberjob._builtins." + FNS.get(kind, "gather_tuple"))
        segs = flat(args)
        if kind == "pair":
            ctx.prove(t(["C02"], "with all items"), len(segs) == 2)
            for s, x in zip(segs, value):
                ctx.prove(t(["C02"], "in order: an item with a node is its node, another the very object"), it.is_(s[1], IteV([(has_node(x.t), SV(node_for(x.t), "obj", VALUE)), (z3.Not(has_node(x.t)), x)])))
            return
        if not (len(segs) == 1 and segs[0][0] == "coll" and len(segs[0][1].xs) == 1 and segs[0][1].xs[0].sort() == (Obj if kind == "set" else I)):
            raise Unsupported("shape of the gathered items")
        c = segs[0][1]
        if kind == "set":
            at = ctx.fresh("at")
            mm, e, _ = c.at([at])
            ctx.prove(t(["C02"], "one for each element of the set"), as_z3(mm) == item(at))
            ctx.assume(item(at))
            ctx.prove(t(["C02"], "an element with a node is its node, another the very object"), it.term(e) == z3.If(has_node(at), node_for(at), at))
            return
        ctx.prove(t(["C02"], "with all items"), it.eq(it.models.seq_len(it, segs), SV(n)))
        if not c.ordered:
            raise Unsupported("order of the gathered items")
        at = ctx.fresh("at", I)
        ctx.assume(z3.And(0 <= at, at < n))
        mm, e, _ = c.at([at])
        ctx.prove(t(["C02"], "there is an item at every position"), as_z3(mm))
        x = item(at)
        xt = it.term(x)
        h = z3.Or([has_node(y) for y in ([z.t for z in x] if kind == "dict" else [x.t])])
        ctx.prove(t(["C02"], "in order: an item with a node is its node, another the very object"), it.term(e) == z3.If(h, node_for(xt), xt))
        return
    ctx.cover({"value": "an opaque value", "pair": "pair"}.get(kind, kind))
    ctx.prove(t(["C02"], "a value without nodes is not rebuilt"), not calls)
    if not isinstance(r, Inst):
        raise Unsupported("the literal is made in another way")
    ctx.prove(t(["C02"], "a value without nodes becomes one literal"), cls_name(r.cls) == G + "Literal" and not calls)
    ctx.prove(t(["C02"], "whose value is the very object"), it.resolve(r.attrs["value"]) is value or it.is_(r.attrs["value"], value))
    ctx.prove(t(["C19"], "attributed to the line that was passed"), it.is_(r.attrs["stack_frame"], frame))
    u, v, k = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key)
    ctx.prove(t(["C02", "C13"], "and nothing but the literal is added"), z3.And(g.edge(u, v, k) == g.E0(u, v, k), g.node(u) == z3.Or(g.N0(u), u == node_term(it, r))))
