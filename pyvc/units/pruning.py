"""Pruning: ancestors, bypassed literals and pruned plans (C01, C02, C04, C05, C07, C14)."""
import z3

from ..core import B, Obj, PathEnd, PyRaise, SV, Unsupported
from ..models import as_z3, set_contains_term
from ..values import BuiltinCls, Coll, Inst, ListV, Model, SetV
from .base import returns, tag, unit
from .graphs import G, Key, NODE, GraphV, cls_name, install_graph, is_call, node_term, symbolic_plan
from .closure import Closure
from .worklist import worklist_loop

NXU = "uberjob._util.networkx_util."
PR = "uberjob._transformations.pruning."


def nodes_coll(ctx, it, pred, name="src"):
    x = ctx.fresh(name)
    return ("coll", Coll([x], pred(x), SV(x, "obj", NODE), None, False, None, True, name))


@unit("prune.ancestors", ["C01", "C02", "C03", "C04", "C05", "C07"], covers=("iteration", "end of the loop"))
def ancestors(ctx, it):
    """all_ancestors: the least set that contains the given nodes and is closed under predecessors; the loop ends."""
    install_graph(it)
    g = GraphV(ctx, "g")
    P = g.P0
    S, A = ctx.fresh_fn("given", Obj, B), ctx.fresh_fn("closed_set", Obj, B)
    x, y = z3.Const("ax", Obj), z3.Const("ay", Obj)
    ctx.assume(z3.ForAll([x], z3.Implies(S(x), g.N0(x)), patterns=[S(x)]))
    # an arbitrary set which contains the given nodes and is closed under predecessors
    ctx.assume(z3.ForAll([x], z3.Implies(S(x), A(x)), patterns=[S(x)]))
    ctx.assume(z3.ForAll([x, y], z3.Implies(z3.And(A(y), P(x, y)), A(x)), patterns=[z3.MultiPattern(A(y), P(x, y))]))
    t = lambda text: tag(["C01", "C02", "C03", "C04", "C05", "C07"], "ancestors: " + text)

    def inv(V, F):
        a, b = z3.Const("ia", Obj), z3.Const("ib", Obj)
        base = [("what was given is visited or in the worklist", z3.ForAll([a], z3.Implies(S(a), z3.Or(V(a), F(a))))),
                ("nothing but nodes which are reached backwards is visited or in the worklist", z3.ForAll([a], z3.Implies(z3.Or(V(a), F(a)), z3.And(A(a), g.N0(a)))))]
        closed = ("the predecessors of a visited node are visited or in the worklist", z3.ForAll([a, b], z3.Implies(z3.And(V(b), P(a, b)), z3.Or(V(a), F(a)))))
        late = ("the predecessors of a visited node outside of the worklist are visited", z3.ForAll([a, b], z3.Implies(z3.And(V(b), z3.Not(F(b)), P(a, b)), V(a))))
        inside = ("what is in the worklist is visited", z3.ForAll([a], z3.Implies(F(a), V(a))))
        return [base + [closed], base + [late, inside]]

    worklist_loop(it, inv, None, t)
    src = ListV(ctx, [nodes_coll(ctx, it, S)]) if ctx.choose(2, "given as") else SetV(ctx, [nodes_coll(ctx, it, S)])
    r = it.resolve(returns(ctx, t("does not raise"), lambda: it.call(it.glob(NXU + "all_ancestors"), [g, src], {})))
    r = it.resolve(it.call(BuiltinCls(set), [r], {}))
    u, v = ctx.fresh("u"), ctx.fresh("v")
    has = lambda n: as_z3(set_contains_term(it, r, n))
    ctx.prove(t("what was given is in the result"), z3.Implies(S(u), has(u)))
    ctx.prove(t("the predecessors of a node in the result are in the result"), z3.Implies(z3.And(has(v), P(u, v)), has(u)))
    ctx.prove(t("the result is the least such set"), z3.Implies(has(u), A(u)))
    ctx.prove(t("the graph is not changed"), not g.ops)


@unit("prune.literal", ["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C14"], covers=("bypassed", "kept"), timeout_ms=10000)
def literal_unit(ctx, it):
    """_prune_literal_if_trivial for an arbitrary literal of an arbitrary graph: what is ordered stays ordered, arguments stay."""
    plan, g = symbolic_plan(it)
    E, N, P = g.E0, g.N0, g.P0
    L = ctx.fresh("literal")
    ctx.assume(z3.And(N(L), z3.Not(is_call(L))))
    u, v, w, k = z3.Const("pu", Obj), z3.Const("pv", Obj), z3.Const("pw", Obj), z3.Const("pk", Key)
    # arguments are given to calls only (Plan._call)
    ctx.assume(z3.ForAll([u, v, k], z3.Implies(z3.And(E(u, v, k), z3.Not(is_call(v))), k == Key.kDep), patterns=[E(u, v, k)]))
    T = ["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C14"]
    t = lambda props, text: tag(props, "bypass: " + text)
    returns(ctx, t(T, "does not raise"), lambda: it.call(it.glob(PR + "_prune_literal_if_trivial"), [plan, SV(L, "obj", NODE)], {}))
    g2 = it.getattr(plan, "graph")
    if not isinstance(g2, GraphV):
        raise Unsupported("the graph is replaced")
    a, b, kk = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key)
    if ctx.branch(g2.node(L)):
        ctx.cover("kept")
        ctx.prove(t(T, "when the literal is kept nothing changes"), z3.And(g2.edge(a, b, kk) == E(a, b, kk), g2.node(a) == N(a)))
        return
    ctx.cover("bypassed")
    ctx.prove(t(T, "no other node is added or removed"), g2.node(a) == z3.And(N(a), a != L))
    ctx.prove(t(["C02", "C03", "C09", "C05"], "a literal that is an argument is kept"), z3.Implies(E(L, b, kk), kk == Key.kDep))
    ctx.prove(t(["C02", "C03", "C09", "C05"], "the arguments of every call stay"), z3.Implies(z3.And(kk != Key.kDep, a != L, b != L), g2.edge(a, b, kk) == E(a, b, kk)))
    ctx.prove(t(T, "no edge of the literal remains"), z3.Implies(g2.edge(a, b, kk), z3.And(a != L, b != L, g2.node(a), g2.node(b))))
    P2 = ctx.fresh_fn("edge_after", Obj, Obj, B)
    key2 = ctx.fresh_fn("key_after", Obj, Obj, Key)
    # P2(u, v): there is an edge afterwards
    ctx.assume(z3.ForAll([u, v], z3.Implies(P2(u, v), g2.edge(u, v, key2(u, v))), patterns=[P2(u, v)]))
    ctx.assume(z3.ForAll([u, v, k], z3.Implies(g2.edge(u, v, k), P2(u, v))))
    # the lemmas about single edges
    ctx.prove(t(["C07"], "a literal that depends on itself is kept"), z3.Not(P(L, L)))
    ctx.prove(t(T, "an edge between other nodes stays"), z3.Implies(z3.And(P(a, b), a != L, b != L), P2(a, b)))
    ctx.prove(t(T, "what the literal depends on precedes what depends on the literal"), z3.Implies(z3.And(P(a, L), P(L, b)), P2(a, b)))
    ctx.prove(t(T, "an edge is added only between what the literal depends on and what depends on the literal"), z3.Implies(z3.And(P2(a, b), z3.Not(P(a, b))), z3.And(P(a, L), P(L, b))))
    bypass_lemma(ctx, t, T, P, P2, L)


def bypass_lemma(ctx, t, T, P, P2, L):
    """From the obligations about single edges: paths between the other nodes are the same, cycles stay cycles."""
    u, v, w = z3.Const("pu", Obj), z3.Const("pv", Obj), z3.Const("pw", Obj)
    a, b = ctx.fresh("u"), ctx.fresh("v")
    ctx.assume(z3.ForAll([u, v], z3.Implies(z3.And(P(u, v), u != L, v != L), P2(u, v)), patterns=[P(u, v)]))
    ctx.assume(z3.ForAll([u, v], z3.Implies(z3.And(P(u, L), P(L, v)), P2(u, v)), patterns=[z3.MultiPattern(P(u, L), P(L, v))]))
    ctx.assume(z3.ForAll([u, v], z3.Implies(P2(u, v), z3.And(u != L, v != L, z3.Or(P(u, v), z3.And(P(u, L), P(L, v))))), patterns=[P2(u, v)]))
    ctx.assume(z3.Not(P(L, L)))
    prove = lambda text, f: ctx.prove(t(T, text), f)
    R, R2 = Closure(ctx, P, "reach"), Closure(ctx, P2, "reach_after")
    I = lambda x: z3.Exists([w], z3.And(P(w, L), z3.Or(x == w, R2(x, w))))
    O = lambda x: z3.Exists([w], z3.And(P(L, w), z3.Or(x == w, R2(w, x))))
    In, Out = ctx.fresh_fn("into", Obj, B), ctx.fresh_fn("outof", Obj, B)
    ctx.assume(z3.ForAll([u], In(u) == I(u), patterns=[In(u)]))
    ctx.assume(z3.ForAll([u], Out(u) == O(u), patterns=[Out(u)]))
    Q = lambda x, y: z3.If(x == L, z3.If(y == L, True, Out(y)), z3.If(y == L, In(x), R2(x, y)))
    R2.least(prove, lambda x, y: z3.And(R(x, y), x != L, y != L), "a path afterwards was a path before")
    R.least(prove, Q, "a path before is a path afterwards")
    prove("the same nodes are ordered", z3.Implies(z3.And(a != L, b != L), R(a, b) == R2(a, b)))
    # a cycle through the literal
    S = lambda x, y: z3.Exists([w], z3.And(P(x, w), z3.Or(w == y, R(w, y))))
    R.least(prove, S, "a path has a first edge")
    prove("a cycle stays a cycle", z3.Implies(R(L, L), z3.Exists([w], R2(w, w))))


def restrict_lemma(ctx, prove, P, P2, A):
    """P2 is P between members of A, and A contains the predecessors of its members: paths between members are the same."""
    R, R2 = Closure(ctx, P, "reach"), Closure(ctx, P2, "reach_in")
    R2.least(prove, lambda x, y: z3.And(R(x, y), A(x), A(y)), "a path among what is kept is a path")
    R.least(prove, lambda x, y: z3.Implies(A(y), z3.And(A(x), R2(x, y))), "a path to what is kept stays in what is kept")
    return R, R2


@unit("prune.plan", ["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C13", "C14"], covers=("output", "no output"))
def prune_plan_unit(ctx, it):
    """prune_plan: what the required nodes and the output depend on remains, ordered and connected as before; nothing else remains."""
    plan, g = symbolic_plan(it)
    E, N, P = g.E0, g.N0, g.P0
    T = ["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C14"]
    t = lambda props, text: tag(props, "prune: " + text)
    req = ctx.fresh_fn("required", Obj, B)
    u, v, w, k = z3.Const("pu", Obj), z3.Const("pv", Obj), z3.Const("pw", Obj), z3.Const("pk", Key)
    ctx.assume(z3.ForAll([u], z3.Implies(req(u), N(u)), patterns=[req(u)]))
    with_out = ctx.choose(2, "output") == 1
    ctx.cover("output" if with_out else "no output")
    out = SV(ctx.fresh("output"), "obj", NODE) if with_out else None
    if with_out:
        ctx.assume(N(out.t))
    inplace = ctx.choose(2, "inplace") == 1
    A = ctx.fresh_fn("needed", Obj, B)
    seen = []

    def all_ancestors(it, a, k):
        """Contract (unit prune.ancestors): the least set containing the sources and closed under predecessors."""
        gr = it.resolve(a[0])
        src = it.resolve(it.call(BuiltinCls(set), [a[1]], {}))
        x = ctx.fresh("x")
        want = z3.Or(req(x), x == out.t) if with_out else req(x)
        ctx.prove(t(T, "the ancestors of the required nodes and the output are looked for"), as_z3(set_contains_term(it, src, x)) == want)
        if not isinstance(gr, GraphV) or gr.ops or gr.E0 is not E:
            raise Unsupported("the ancestors are looked for in another graph")
        seen.append(1)
        base = lambda x: z3.Or(req(x), x == out.t) if with_out else req(x)
        ctx.assume(z3.ForAll([u], z3.Implies(base(u), A(u))))
        ctx.assume(z3.ForAll([u, v], z3.Implies(z3.And(A(v), P(u, v)), A(u)), patterns=[z3.MultiPattern(A(v), P(u, v))]))
        ctx.assume(z3.ForAll([u], z3.Implies(A(u), N(u)), patterns=[A(u)]))
        return SetV(ctx, [("pred", lambda y: A(y))])

    def prune_literal(it, a, k):
        """Contract (unit prune.literal): the literal is bypassed or nothing changes."""
        gr = it.resolve(it.getattr(a[0], "graph"))
        gr.ops = gr.ops + [("bypass", [], True, node_term(it, a[1]))]

    it.call_contracts[NXU + "all_ancestors"] = all_ancestors
    it.call_contracts[PR + "_prune_literal_if_trivial"] = prune_literal
    given = ListV(ctx, [nodes_coll(ctx, it, req)]) if ctx.choose(2, "given as") else SetV(ctx, [nodes_coll(ctx, it, req)])
    given0 = list(given.segs if isinstance(given, ListV) else given.ops)
    r = it.resolve(returns(ctx, t(T, "does not raise"), lambda: it.call(it.glob(PR + "prune_plan"), [plan], {"required_nodes": given, "output_node": out, "inplace": inplace})))
    ctx.prove(t(["C13"], "the collection that was passed is not changed"), given0 == (given.segs if isinstance(given, ListV) else given.ops))
    g0 = plan.attrs["graph"]
    ctx.prove(t(["C13"], "the plan is changed only in place"), r is plan if inplace else (r is not plan and not g0.ops))
    ctx.prove(t(T, "something is pruned"), bool(seen))
    g2 = it.getattr(r, "graph")
    if not isinstance(g2, GraphV):
        raise Unsupported("the graph is replaced")
    first = next((n for n, op in enumerate(g2.ops) if op[0] == "bypass"), len(g2.ops))
    mid = GraphV(ctx, "mid", like=g2)
    mid.ops = g2.ops[:first]
    bypass = g2.ops[first:]
    if any(op[0] != "bypass" for op in bypass):
        raise Unsupported("the graph is changed after literals were bypassed")
    a, b, kk = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key)
    ctx.prove(t(T, "what is not needed is removed, what is needed stays"), mid.node(a) == A(a))
    ctx.prove(t(T, "the edges among what is needed stay"), mid.edge(a, b, kk) == z3.And(E(a, b, kk), A(a), A(b)))
    for op in bypass:
        _, xs, guard, L = op
        gz = as_z3(guard)
        ctx.prove(t(T, "only needed literals are bypassed"), z3.Implies(gz, z3.And(A(L), z3.Not(is_call(L)))))
        if with_out:
            ctx.prove(t(["C02", "C03", "C05", "C14"], "the output is never bypassed"), z3.Implies(gz, L != out.t))
        ys = [ctx.fresh("y", x.sort()) for x in xs]
        sub = list(zip(xs, ys))
        if xs:
            ctx.prove(t(T, "no literal is bypassed twice"), z3.Implies(z3.And(gz, z3.substitute(gz, *sub), L == z3.substitute(L, *sub)), z3.And([x == y for x, y in sub])))
    if len(bypass) > 1:
        raise Unsupported("several loops that bypass literals")
    # the lemma about all paths
    P1 = ctx.fresh_fn("edge_kept", Obj, Obj, B)
    ctx.assume(z3.ForAll([u, v], P1(u, v) == z3.And(P(u, v), A(u), A(v)), patterns=[P1(u, v)]))
    prove = lambda text, f: ctx.prove(t(T, text), f)
    R, R1 = restrict_lemma(ctx, prove, P, P1, A)
    ctx.prove(t(T, "what is needed is ordered as before"), z3.Implies(z3.And(A(a), A(b)), R(a, b) == R1(a, b)))


@unit("prune.sources", ["C01", "C03", "C05", "C07", "C13"], covers=("all", "some"))
def prune_sources_unit(ctx, it):
    """prune_source_literals: removes exactly the literals without predecessors (which satisfy the predicate); all other nodes stay ordered."""
    plan, g = symbolic_plan(it)
    E, N, P = g.E0, g.N0, g.P0
    T = ["C01", "C03", "C05", "C07"]
    t = lambda props, text: tag(props, "source literals: " + text)
    some = ctx.choose(2, "predicate") == 1
    ctx.cover("some" if some else "all")
    q = ctx.fresh_fn("predicate", Obj, B)
    asked = []

    def predicate(it, a, k):
        asked.append(node_term(it, a[0]))
        return SV(q(asked[-1]))

    inplace = ctx.choose(2, "inplace") == 1
    kw = {"predicate": Model("predicate", predicate)} if some else {}
    r = it.resolve(returns(ctx, t(T, "does not raise"), lambda: it.call(it.glob(PR + "prune_source_literals"), [plan], {"inplace": inplace, **kw})))
    g0 = plan.attrs["graph"]
    ctx.prove(t(["C13"], "the plan is changed only in place"), r is plan if inplace else (r is not plan and not g0.ops))
    g2 = it.getattr(r, "graph")
    a, b, kk, w = ctx.fresh("u"), ctx.fresh("v"), ctx.fresh("k", Key), z3.Const("pw", Obj)
    u, v = z3.Const("pu", Obj), z3.Const("pv", Obj)
    gone = lambda x: z3.And(N(x), z3.Not(is_call(x)), z3.Not(z3.Exists([w], P(w, x))), *([q(x)] if some else []))
    ctx.prove(t(T, "exactly the literals that depend on nothing are removed"), g2.node(a) == z3.And(N(a), z3.Not(gone(a))))
    ctx.prove(t(T, "all other edges stay"), g2.edge(a, b, kk) == z3.And(E(a, b, kk), z3.Not(gone(a)), z3.Not(gone(b))))
    P1 = ctx.fresh_fn("edge_kept", Obj, Obj, B)
    ctx.assume(z3.ForAll([u, v], P1(u, v) == z3.And(P(u, v), z3.Not(gone(u)), z3.Not(gone(v))), patterns=[P1(u, v)]))
    prove = lambda text, f: ctx.prove(t(T, text), f)
    R, R1 = Closure(ctx, P, "reach"), Closure(ctx, P1, "reach_in")
    R1.least(prove, lambda x, y: z3.And(R(x, y), z3.Not(gone(x)), z3.Not(gone(y))), "a path among what is kept is a path")
    R.least(prove, lambda x, y: z3.And(z3.Not(gone(y)), z3.Or(gone(x), R1(x, y))), "no path leads to what was removed")
    ctx.prove(t(T, "what is kept is ordered as before"), z3.Implies(z3.And(z3.Not(gone(a)), z3.Not(gone(b))), R(a, b) == R1(a, b)))
    ctx.prove(t(["C07"], "no cycle is removed"), z3.Not(z3.And(gone(a), R(a, a))))
