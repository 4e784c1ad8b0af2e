"""plan_with_value_stores and _add_value_store: reads and writes are spliced into the plan (C03, C05, C08, C09, C14, C15, C19)."""
import z3

from ..core import B, I, IteV, Obj, Opaque, PathEnd, PyRaise, R, SV, Unsupported
from ..models import as_z3, set_contains_term
from ..values import BuiltinCls, Coll, DictV, Fam, FamRef, Inst, ListV, Model, SetV, TypeOf
from .base import returns, tag, unit
from .fs import ANY
from .graphs import (G, KEY, Key, NODE, SEQ, GraphV, RV, STORE, cls_name, cons, fn_of, frame_of, is_call, key_term, node_term, observer, scope_of, seq_term, symbolic_plan,
                     symbolic_registry)

CA = "uberjob._transformations.caching."
ORIG, LIT, READ, WRITE = range(4)
kind = z3.Function("node_kind", Obj, I)
owner = z3.Function("node_owner", Obj, Obj)


class Spliced:
    """The plan's graph when the stores of the nodes in D were spliced in, over the original edges E."""

    def __init__(self, ctx, E, N, S, src):
        self.E, self.N, self.S, self.src = E, N, S, src

    def edge(self, D, u, v, k):
        E, S = self.E, self.S
        ou, ov = owner(u), owner(v)
        dep = k == Key.kDep
        u_orig = z3.And(kind(u) == ORIG, self.N(u))
        u_read = z3.And(kind(u) == READ, D(ou))
        u_write = z3.And(kind(u) == WRITE, D(ou), S(ou))
        into_orig = z3.And(kind(v) == ORIG, z3.Or(
            z3.And(u_orig, z3.Not(D(u)), E(u, v, k)),
            z3.And(u_read, z3.Not(dep), E(ou, v, k)),
            z3.And(u_write, dep, E(ou, v, k))))
        into_read = z3.And(kind(v) == READ, D(ov), z3.Or(
            z3.And(kind(u) == LIT, ou == ov, k == Key.kPos(0)),
            z3.And(u_write, ou == ov, dep)))
        into_write = z3.And(kind(v) == WRITE, D(ov), S(ov), z3.If(
            self.src(ov),
            z3.And(dep, z3.Or(z3.And(u_orig, z3.Not(D(u)), E(u, ov, k)), z3.And(u_write, E(ou, ov, k)))),
            z3.Or(z3.And(kind(u) == LIT, ou == ov, k == Key.kPos(0)), z3.And(u == ov, k == Key.kPos(1)))))
        return z3.Or(into_orig, into_read, into_write)

    def node(self, D, u):
        return z3.Or(z3.And(kind(u) == ORIG, self.N(u)), z3.And(z3.Or(kind(u) == LIT, kind(u) == READ), D(owner(u))),
                     z3.And(kind(u) == WRITE, D(owner(u)), self.S(owner(u))))


def constants(it):
    """The three nodes of x are determined by kind and owner."""
    lit, read, write = z3.Function("store_lit", Obj, Obj), z3.Function("store_read", Obj, Obj), z3.Function("store_write", Obj, Obj)
    u = z3.Const("ku", Obj)
    for n, f in ((LIT, lit), (READ, read), (WRITE, write)):
        it.ctx.assume(z3.ForAll([u], z3.And(kind(f(u)) == n, owner(f(u)) == u), patterns=[f(u)]))
        it.ctx.assume(z3.ForAll([u], z3.Implies(kind(u) == n, u == f(owner(u))), patterns=[kind(u)]))
    return lit, read, write


def new_node(it, v, fn=None):
    v = it.resolve(v)
    if not isinstance(v, Inst):
        raise Unsupported("a new node of unknown shape")
    return v


@unit("vstores.one", ["C01", "C03", "C05", "C08", "C09", "C13", "C14", "C15", "C19"], covers=("stale", "stale source", "fresh"), timeout_ms=8000)
def one_store(ctx, it):
    """_add_value_store for an arbitrary node x, when the stores of an arbitrary set D of other nodes were added before."""
    plan, g = symbolic_plan(it)
    plan.attrs["_scope"] = ()
    f = ctx.fresh_fn
    E, N, D, S, src = f("orig_edge", Obj, Obj, Key, B), f("orig_node", Obj, B), f("added", Obj, B), f("out_of_date", Obj, B), f("is_source", Obj, B)
    lit, read, write = constants(it)
    sp = Spliced(ctx, E, N, S, src)
    u, v, k = z3.Const("vu", Obj), z3.Const("vv", Obj), z3.Const("vk", Key)
    A = ctx.assume
    A(z3.ForAll([u, v, k], g.E0(u, v, k) == sp.edge(D, u, v, k), patterns=[g.E0(u, v, k)]))
    A(z3.ForAll([u], g.N0(u) == sp.node(D, u), patterns=[g.N0(u)]))
    A(z3.ForAll([u, v, k], z3.Implies(E(u, v, k), z3.And(N(u), N(v), u != v)), patterns=[E(u, v, k)]))
    A(z3.ForAll([u, v, k], z3.Implies(z3.And(E(u, v, k), src(v)), k == Key.kDep), patterns=[E(u, v, k)]))
    A(z3.ForAll([u], z3.Implies(N(u), kind(u) == ORIG), patterns=[N(u)]))
    A(z3.ForAll([u], z3.Implies(D(u), N(u)), patterns=[D(u)]))
    ctx.x.assumed.add("the graph is acyclic (otherwise the stale check has raised), registered nodes belong to the plan, and a source has no arguments")
    node = SV(ctx.fresh("x"), "obj", NODE)
    A(z3.And(N(node.t), z3.Not(D(node.t))))
    rv = SV(ctx.fresh("rv"), "obj", RV)
    A(RV.source(rv.t) == src(node.t))
    A(RV.store(rv.t) != it.none_term())
    A(z3.Implies(src(node.t), is_call(node.t)))
    stale = ctx.choose(2, "stale") == 1
    A(S(node.t) if stale else z3.Not(S(node.t)))
    it.call_contracts["uberjob._util.traceback.get_stack_frame"] = lambda it, a, k: SV(ctx.fresh("here"), "obj", ANY)
    ctx.extra["new_nodes"] = []
    write_node, read_node = it.as_tuple(it.resolve(returns(ctx, tag(["C03", "C05", "C08", "C09"], "store splice: does not raise"),
                                                          lambda: it.call(it.glob(CA + "_add_value_store"), [plan, node, rv], {"is_stale": stale}))))
    write_node, read_node = it.resolve(write_node), it.resolve(read_node)
    t = lambda props, text: tag(props, "store splice: " + text)
    made = [o for o in ctx.heap if isinstance(o, Inst) and cls_name(o.cls) in (G + "Call", G + "Literal")]
    isrc = stale and ctx.branch(src(node.t))
    ctx.cover("stale source" if isrc else "stale" if stale else "fresh")
    ctx.prove(t(["C09", "C03"], "the read is a call"), isinstance(read_node, Inst) and cls_name(read_node.cls) == G + "Call")
    ctx.prove(t(["C05", "C09", "C03", "C08"], "there is a write, or the barrier of a source, exactly when the node is out of date"), (write_node is not None) == stale)
    store = SV(RV.store(rv.t), "obj", STORE)
    literals = [o for o in made if o is not write_node and o is not read_node]
    ctx.prove(t(["C05", "C14"], "nothing else is added than one literal, the read and the write"), len(literals) == 1 and cls_name(literals[0].cls) == G + "Literal" and len(made) == 2 + stale)
    L = literals[0]
    ctx.prove(t(["C09", "C03", "C05"], "the literal is the value store of the node"), it.is_(L.attrs["value"], store))
    cls = STORE.cls(store.t)
    ctx.prove(t(["C09", "C03", "C05"], "the read calls the read method of the store's class"), it.is_(read_node.attrs["fn"], STORE.class_attr(it, store, "read")))
    calls = [read_node]
    if stale and not isrc:
        ctx.prove(t(["C09", "C03", "C05", "C08"], "the write calls the write method of the store's class"),
                  isinstance(write_node, Inst) and cls_name(write_node.cls) == G + "Call" and it.is_(write_node.attrs["fn"], STORE.class_attr(it, store, "write")))
        calls.append(write_node)
    if isrc:
        ctx.prove(t(["C05", "C09", "C15"], "nothing is called in place of the write of a source"), isinstance(write_node, Inst) and cls_name(write_node.cls) == G + "Literal")
    for c in calls:
        ctx.prove(t(["C19"], "reads and writes are attributed to the line that registered the store"), it.is_(c.attrs["stack_frame"], SV(RV.frame(rv.t), "obj", ANY)))
        sc = seq_term(it, c.attrs["scope"])
        if ctx.branch(is_call(node.t)):
            want = seq_term(it, it.call(it.glob("uberjob._graph.get_full_call_scope"), [node], {}))
            ctx.prove(t(["C15"], "reads and writes of a call have the scope of the call and its function"), sc == want)
        else:
            ctx.prove(t(["C15"], "reads and writes of a literal have its scope"), sc == scope_of(node.t))
    # the edges
    x = node.t
    for o, fcn, n in ((L, lit, LIT), (read_node, read, READ)) + (((write_node, write, WRITE),) if stale else ()):
        tt = it.term(o)
        A(z3.And(kind(tt) == n, owner(tt) == x, fcn(x) == tt))
    uu, vv, kk = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key)
    g2 = it.getattr(plan, "graph")
    D2 = lambda y: z3.Or(D(y), y == x)
    have, want = g2.edge(uu, vv, kk), sp.edge(D2, uu, vv, kk)
    P = ["C01", "C03", "C05", "C08", "C09", "C14"]
    for text, into in (("nodes of the plan", ORIG), ("reads", READ), ("writes and barriers", WRITE), ("literals", LIT)):
        here = kind(vv) == into
        ctx.prove(t(P, f"every edge into {text} that is needed is there"), z3.Implies(z3.And(here, want), have))
        ctx.prove(t(P, f"no other edge into {text} is there"), z3.Implies(z3.And(here, have), want))
    ctx.prove(t(["C04", "C05", "C09"], "the nodes are the nodes of the plan, literals, reads and writes"), g2.node(uu) == sp.node(D2, uu))


class Splice:
    """plan_with_value_stores on arbitrary arguments, with the contracts of the functions that it calls."""

    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        self.plan, self.g = symbolic_plan(it)
        self.reg, self.inr, self.ent = symbolic_registry(it, self.g)
        self.S = ctx.fresh_fn("out_of_date", Obj, B)
        self.lit, self.read, self.write = constants(it)
        self.sp = Spliced(ctx, self.g.E0, self.g.N0, self.S, lambda x: RV.source(self.ent(x)))
        self.g.spliced = self.sp
        x = z3.Const("on", Obj)
        ctx.assume(z3.ForAll([x], z3.Implies(self.g.N0(x), kind(x) == ORIG), patterns=[self.g.N0(x)]))
        self.steps = []
        self.totals = []
        self.out = None
        self.with_out = ctx.choose(2, "output") == 1
        if self.with_out:
            self.out = SV(ctx.fresh("output"), "obj", NODE)
            ctx.assume(self.g.N0(self.out.t))
        self.inplace = ctx.choose(2, "inplace") == 1
        self.retry, self.workers, self.fresh = Opaque("retry"), SV(ctx.fresh("workers"), "obj", ANY), SV(ctx.fresh("fresh_time"), "obj", ANY)
        self.obs = observer(it, self.notified)
        self.it.externs["counter_items"] = self.counter_items
        c = it.call_contracts
        c[CA + "_get_stale_nodes"] = self.stale_nodes
        c[CA + "_add_value_store"] = self.add_value_store
        c["uberjob._transformations.pruning.prune_plan"] = self.prune_plan

    def t(self, props, text):
        return tag(props, "with stores: " + text)

    def notified(self, it, what, k):
        self.steps.append("total" if what == "total" else "notify " + what)
        self.ctx.prove(self.t(["C15"], "nothing but totals is announced outside of the stale check"), what == "total")
        self.totals.append(k)

    def counter_items(self, it, counter):
        """Counter.items(): an entry for every distinct element, with its number of occurrences, which is at least 1."""
        ctx = self.ctx
        if len(counter.segs) != 1 or counter.segs[0][0] != "coll":
            raise Unsupported("shape of the counter")
        c = counter.segs[0][1]
        self.counted = c
        e, n = ctx.fresh("scope"), ctx.fresh_fn("occurrences", Obj, I)
        f = ctx.fresh_fn("counted", Obj, B)
        ctx.assume(z3.ForAll([e], z3.Implies(f(e), n(e) >= 1), patterns=[f(e)]))
        return ListV(ctx, [("coll", Coll([e], f(e), (SV(e, "obj", SEQ), SV(n(e))), None, False, None, True, "count"))])

    def stale_nodes(self, it, a, k):
        """Contract (unit stale.nodes): returns the nodes which are out of date, changes nothing."""
        ctx = self.ctx
        names = ["plan", "registry"]
        args = {**dict(zip(names, a)), **k}
        p = it.resolve(args["plan"])
        ctx.prove(self.t(["C03", "C05"], "the stale check examines the plan"), isinstance(p, Inst) and isinstance(p.attrs.get("graph"), GraphV) and p.attrs["graph"].E0 is self.g.E0 and not p.attrs["graph"].ops)
        ctx.prove(self.t(["C03", "C05"], "the stale check uses the registry"), it.is_(args["registry"], self.reg))
        ctx.prove(self.t(["C10"], "the stale check uses the retry that was passed"), it.resolve(args.get("retry")) is self.retry)
        ctx.prove(self.t(["C10"], "the stale check uses the number of workers that was passed"), it.is_(args.get("max_workers"), self.workers))
        ctx.prove(self.t(["C05", "C18"], "the stale check uses the fresh_time that was passed"), it.is_(args.get("fresh_time"), self.fresh))
        ctx.prove(self.t(["C15"], "the stale check notifies the observer that was passed"), it.is_(args.get("progress_observer"), self.obs))
        self.steps.append("stale check")
        if ctx.choose(2, "stale check") == 1:
            self.error = it.exc(Exception, ("NodeError",))
            raise PyRaise(self.error)
        return SetV(ctx, [("pred", lambda x: z3.And(self.g.N0(x), self.S(x)))])

    def add_value_store(self, it, a, k):
        """Contract (unit vstores.one)."""
        ctx = self.ctx
        names = ["plan", "node", "registry_value"]
        args = {**dict(zip(names, a)), **k}
        p = it.resolve(args["plan"])
        x = node_term(it, args["node"])
        ctx.prove(self.t(["C03", "C05", "C09"], "stores are added for registered nodes, with their entry"), z3.And(self.inr(x), it.term(args["registry_value"]) == self.ent(x)))
        st = it.truth_f(args["is_stale"])
        ctx.prove(self.t(["C03", "C05", "C08"], "a store is written if and only if it is out of date"), as_z3(st) == self.S(x))
        ctx.prove(self.t(["C13"], "stores are added to the copy"), p is not self.plan if not self.inplace else p is self.plan)
        self.built = p
        g = p.attrs["graph"]
        g.ops = g.ops + [("vs", [], True, x)]
        return (IteV([(self.S(x), SV(self.write(x), "obj", NODE)), (z3.Not(self.S(x)), None)]), SV(self.read(x), "obj", NODE))

    def prune_plan(self, it, a, k):
        """Contract (unit prune.plan): what the required nodes and the output need remains."""
        args = {**dict(zip(["plan"], a)), **k}
        self.pruned = args
        self.steps.append("prune")
        return it.resolve(args["plan"])

    def run(self):
        return self.it.call(self.it.glob(CA + "plan_with_value_stores"), [self.plan, self.reg],
                            {"output_node": self.out, "max_workers": self.workers, "retry": self.retry, "fresh_time": self.fresh, "inplace": self.inplace, "progress_observer": self.obs})


@unit("vstores.plan", ["C03", "C05", "C08", "C09", "C13", "C14", "C15"], covers=("built", "stale check fails", "output registered", "output not registered"))
def plan_with_stores(ctx, it):
    """plan_with_value_stores: the stale set, then the stores of every registered node (by the contract of vstores.one), required nodes, redirected output, pruning."""
    r = Splice(ctx, it)
    try:
        plan, out = it.as_tuple(it.resolve(r.run()))
    except PyRaise as e:
        ctx.cover("stale check fails")
        ctx.prove(r.t(["C06", "C19"], "an error of the stale check is raised as it is"), it.is_(e.exc, getattr(r, "error", None)))
        return
    ctx.cover("built")
    plan, out = it.resolve(plan), it.resolve(out)
    g0 = r.plan.attrs["graph"]
    ctx.prove(r.t(["C05", "C08", "C14"], "what is not needed is pruned"), hasattr(r, "pruned"))
    args = r.pruned
    # stale totals
    ctx.prove(r.t(["C15"], "the totals of the stale check are announced before it starts"), "total" not in r.steps[r.steps.index("stale check"):] and len(r.totals) == 1)
    x = ctx.fresh("n")
    c = r.counted
    if len(c.xs) != 1:
        raise Unsupported("shape of the counter")
    m, e, _ = c.at([x])
    ctx.prove(r.t(["C15"], "the totals of the stale check count every call once, and nothing else"), as_z3(m) == z3.And(r.g.N0(x), is_call(x)))
    if r.totals:
        k = r.totals[0]
        sc = k["scope"]
        ctx.prove(r.t(["C15"], "the totals are announced for section stale"), it.ident(k["section"], "stale"))
        ctx.prove(r.t(["C15"], "with the number of calls of the scope"), isinstance(k["amount"], SV) and isinstance(sc, SV) and k["amount"].t.decl().name().startswith("occurrences") and k["amount"].t.arg(0).eq(sc.t))
        ctx.assume(m)
        want = seq_term(it, it.call(it.glob(CA + "_get_stale_scope"), [SV(x, "obj", NODE), r.reg], {}))
        ctx.prove(r.t(["C15"], "the totals are announced for the scopes which are reported running"), seq_term(it, it.resolve(e)) == want)
    # what is pruned
    ctx.prove(r.t(["C05", "C14"], "the plan that is pruned is the plan with the stores"), it.resolve(args["plan"]) is plan and it.resolve(args.get("inplace")) is True)
    req = it.resolve(it.call(BuiltinCls(set), [args["required_nodes"]], {}))
    w = ctx.fresh("w")
    has = as_z3(set_contains_term(it, req, w))
    wrote = z3.And(kind(w) == WRITE, r.inr(owner(w)), r.S(owner(w)), r.g.N0(owner(w)))
    ctx.assume(z3.Implies(kind(w) == WRITE, w == r.write(owner(w))))
    ctx.prove(r.t(["C03", "C05", "C08"], "every write of an out-of-date store, and every barrier, is required"), z3.Implies(wrote, has))
    ctx.prove(r.t(["C05"], "nothing else is required"), z3.Implies(has, wrote))
    po = it.resolve(args.get("output_node"))
    ctx.prove(r.t(["C02", "C05", "C14"], "the output that is kept is the output that is returned"), it.is_(po, out))
    if not r.with_out:
        ctx.prove(r.t(["C05"], "without an output none is kept"), out is None)
    elif ctx.branch(r.inr(r.out.t)):
        ctx.cover("output registered")
        ctx.prove(r.t(["C09", "C03", "C02"], "the output of a registered node is what its store's read returns"), it.is_(out, SV(r.read(r.out.t), "obj", NODE)))
    else:
        ctx.cover("output not registered")
        ctx.prove(r.t(["C02", "C03"], "the output of another node is the node"), it.is_(out, r.out))
    # the graph
    u, v, k = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key)
    g = it.getattr(plan, "graph")
    D = lambda y: r.inr(y)
    P = ["C01", "C03", "C05", "C08", "C09", "C14"]
    ctx.prove(r.t(P, "the stores of all registered nodes are spliced in"), g.edge(u, v, k) == r.sp.edge(D, u, v, k))
    ctx.prove(r.t(P, "no other node is added"), g.node(u) == r.sp.node(D, u))
    if not r.inplace:
        ctx.prove(r.t(["C13"], "the plan that was passed is not changed"), z3.And(g0.edge(u, v, k) == r.g.E0(u, v, k), g0.node(u) == r.g.N0(u)))
