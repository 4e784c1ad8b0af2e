"""The cycle check: Kahn's algorithm returns exactly when the graph has no cycle (C07, and the order behind C01)."""
import ast

import z3

from ..core import B, I, Obj, PathEnd, Poison, PyRaise, SV, Unsupported
from ..interp import Break, Continue, assigned_names
from ..models import as_z3, coll_has, dict_contains_f, dict_find
from ..values import DictV, ListV
from .base import tag, unit
from .closure import Closure
from .graphs import GraphV, NODE, install_graph
from .worklist import Bag, _names, locate

NXU = "uberjob._util.networkx_util."
T = ["C01", "C04", "C07"]
t = lambda text: tag(T, "cycle check: " + text)


class Once(Bag):
    """A bag without repetitions: that nothing is put twice is an obligation of whoever puts it."""

    __slots__ = ()

    def take(self, it):
        r = Bag.take(self, it)
        last = self.ops[-1]
        it.ctx.assume(z3.Not(last[2]))
        return r

    def check_once(self, it, ops, before):
        ctx = it.ctx
        for n, op in enumerate(ops):
            if op[0] == "pop":
                continue
            probe = Once(ctx, before, self.kind)
            probe.ops = list(ops[:n])
            if op[0] == "one":
                ctx.prove(t("nothing is put that is waiting already"), z3.Not(probe.mem(it, op[1])))
                continue
            once_coll(it, op[1], lambda y: probe.mem(it, y))


def once_coll(it, c, has):
    ctx = it.ctx
    a, b = [ctx.fresh("a", x.sort()) for x in c.xs], [ctx.fresh("b", x.sort()) for x in c.xs]
    ma, ea, _ = c.at(a)
    mb, eb, _ = c.at(b)
    ctx.prove(t("nothing is put that is waiting already"), z3.Implies(as_z3(ma), z3.Not(has(it.term(ea)))))
    ctx.prove(t("nothing is put twice"), z3.Implies(z3.And(as_z3(ma), as_z3(mb), it.term(ea) == it.term(eb)), z3.And([p == q for p, q in zip(a, b)])))


class Counted:
    """How many predecessors of a node are not in the set Pd (a finite cardinality)."""

    def __init__(self, ctx, g, done, name):
        self.f = ctx.fresh_fn(name, Obj, I)
        w = ctx.fresh_fn("undone", Obj, Obj)
        u, v = z3.Const("ku", Obj), z3.Const("kv", Obj)
        f, P = self.f, g.P0
        ctx.assume(z3.ForAll([v], f(v) >= 0, patterns=[f(v)]))
        ctx.assume(z3.ForAll([u, v], z3.Implies(z3.And(P(u, v), z3.Not(done(u))), f(v) >= 1), patterns=[P(u, v)]))
        ctx.assume(z3.ForAll([v], z3.Implies(f(v) >= 1, z3.And(P(w(v), v), z3.Not(done(w(v))))), patterns=[f(v)]))

    def __call__(self, v):
        return self.f(v)


def kahn_loop(it, g, result):
    ctx = it.ctx
    x = z3.Const("qx", Obj)

    def contract(it_, st, env):
        if not isinstance(st, ast.While):
            return None
        used = {n.id for part in [st.test] + st.body for n in _names(part)}
        dicts = [n for n in locate(env, DictV) if n in used]
        lists = [n for n in locate(env, ListV) if n in used]
        lists = [n for n in lists if any(y.id == n for y in _names(st.test))] or lists
        if len(dicts) != 1 or len(lists) != 1:
            return None
        dn, qn = dicts[0], lists[0]

        def inv(v, d, F, U, done):
            """Obligations at an arbitrary node v."""
            key = SV(v, "obj", NODE)
            found, val = dict_find(it, d, key)
            out = []
            if found:
                out.append(("the count of a node is that of its unprocessed predecessors", as_z3(it.eq(val, SV(U(v))))))
            else:
                out.append(("a node without a count has no unprocessed predecessor", z3.Implies(g.N0(v), U(v) == 0)))
            out.append(("exactly the nodes without unprocessed predecessors are waiting or processed", z3.And(z3.Implies(z3.Or(F(v), done(v)), g.N0(v)), z3.Implies(g.N0(v), z3.Or(F(v), done(v)) == (U(v) == 0)))))
            out.append(("no processed node is waiting", z3.Not(z3.And(F(v), done(v)))))
            return out

        def assume_inv(dom, val, F, U, done):
            ctx.assume(z3.ForAll([x], z3.Implies(dom(x), val(x) == U(x)), patterns=[dom(x)]))
            ctx.assume(z3.ForAll([x], z3.Implies(z3.And(g.N0(x), z3.Not(dom(x))), U(x) == 0), patterns=[dom(x)]))
            ctx.assume(z3.ForAll([x], z3.Implies(z3.Or(F(x), done(x)), g.N0(x)), patterns=[F(x)]))
            ctx.assume(z3.ForAll([x], z3.Implies(done(x), g.N0(x)), patterns=[done(x)]))
            ctx.assume(z3.ForAll([x], z3.Implies(g.N0(x), z3.Or(F(x), done(x)) == (U(x) == 0)), patterns=[g.N0(x)]))
            ctx.assume(z3.ForAll([x], z3.Not(z3.And(F(x), done(x))), patterns=[F(x)]))

        def handler():
            d, q = env.vars[dn], env.vars[qn]
            segs = it.iter_segs(q)
            F0 = lambda y: z3.Or([z3.BoolVal(False)] + [as_z3(it.eq(s, SV(y, "obj", NODE))) if k == "one" else as_z3(coll_has(it, s, y)) for k, s in segs])
            if any(k == "one" for k, _ in segs):
                raise Unsupported("the nodes without predecessors are gathered in several ways")
            for n, (_, c) in enumerate(segs):
                once_coll(it, c, lambda y: z3.Or([z3.BoolVal(False)] + [as_z3(coll_has(it, s, y)) for _, s in segs[:n]]))
            v0 = ctx.fresh("v")
            for text, f in inv(v0, d, F0, g.np0, lambda y: z3.BoolVal(False)):
                ctx.prove(t(text + ", initially"), f)
            dom, val, F, done = ctx.fresh_fn("dom", Obj, B), ctx.fresh_fn("count", Obj, I), ctx.fresh_fn("waiting", Obj, B), ctx.fresh_fn("processed", Obj, B)
            rank = ctx.fresh_fn("rank", Obj, I)
            now = ctx.fresh("now", I)
            U = Counted(ctx, g, done, "unprocessed")
            d.ops = [("base", lambda y: dom(y), lambda y: SV(val(y)), NODE)]
            bag = Once(ctx, F, q.kind)
            env.vars[qn] = bag
            for n in assigned_names(st.body):
                if n not in (dn, qn) and n in env.vars:
                    env.vars[n] = Poison(n)
            assume_inv(dom, val, F, U, done)
            a, b = z3.Const("ra", Obj), z3.Const("rb", Obj)
            # ghost: the order in which the nodes were processed
            ctx.assume(z3.ForAll([a], z3.Implies(done(a), rank(a) < now), patterns=[done(a)]))
            ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(g.P0(a, b), done(b)), z3.And(done(a), rank(a) < rank(b))), patterns=[z3.MultiPattern(g.P0(a, b), done(b))]))
            if not ctx.branch(it.truth_f(it.eval(st.test, env))):
                ctx.cover("end of the loop")
                result.update(done=done, rank=rank)
                it.exec_block(st.orelse, env)
                return
            ctx.cover("iteration")
            try:
                it.exec_block(st.body, env)
            except Continue:
                pass
            except Break:
                raise Unsupported("the loop is left early")
            if env.vars.get(qn) is not bag or env.vars.get(dn) is not d:
                raise Unsupported("a worklist is replaced in the loop")
            pops = [op for op in bag.ops if op[0] == "pop"]
            if len(pops) != 1:
                raise Unsupported("an iteration takes several nodes or none")
            e = pops[0][1]
            ctx.prove(t("every iteration processes another node"), z3.And(g.N0(e), z3.Not(done(e))))
            bag.check_once(it, bag.ops, bag.base)
            done2 = lambda y: z3.Or(done(y), y == e)
            U2 = lambda y: U(y) - z3.If(g.P0(e, y), 1, 0)
            v = ctx.fresh("v")
            for text, f in inv(v, d, lambda y: bag.mem(it, y), U2, done2):
                ctx.prove(t(text + ", after an iteration"), f)
            u = ctx.fresh("u")
            rank2 = lambda y: z3.If(y == e, now, rank(y))
            ctx.prove(t("a node is processed after its predecessors"), z3.Implies(z3.And(g.P0(u, v), done2(v)), z3.And(done2(u), rank2(u) < rank2(v))))
            raise PathEnd()

        return handler

    it.loop_contracts.append(contract)


@unit("graph.acyclic", T, covers=("iteration", "end of the loop", "returns", "raises"))
def acyclic(ctx, it):
    """assert_acyclic returns if and only if the (finite) graph has no cycle; it ends and leaves the graph alone."""
    install_graph(it)
    g = GraphV(ctx, "g")
    result = {}
    kahn_loop(it, g, result)
    try:
        it.call(it.glob(NXU + "assert_acyclic"), [g], {})
        raised = False
    except PyRaise:
        raised = True
    if "done" not in result:
        ctx.prove(t("nothing is raised before the graph was examined"), not raised)
        raise Unsupported("no loop over the nodes without unprocessed predecessors")
    ctx.prove(t("the graph is not changed"), not g.ops)
    done, rank, P, N = result["done"], result["rank"], g.P0, g.N0
    R = Closure(ctx, P)
    a, b, u, m = ctx.fresh("a"), ctx.fresh("b"), z3.Const("mu", Obj), ctx.fresh("m")
    prove = lambda text, f: ctx.prove(t(text), f)
    if not raised:
        ctx.cover("returns")
        prove("it returns only when every node was processed", z3.Implies(N(a), done(a)))
        R.least(prove, lambda p, q: rank(p) < rank(q), "what is ordered was processed in that order")
        prove("it returns only when there is no cycle", z3.Not(R(a, a)))
        return
    ctx.cover("raises")
    # a finite graph without a cycle: every set of nodes that is not empty has a member which nothing in the set precedes
    W = lambda p: z3.And(N(p), z3.Not(done(p)))
    prove("it raises only when a node was not processed", z3.Exists([u], W(u)))
    ctx.assume(z3.Implies(z3.ForAll([u], z3.Not(R(u, u))), z3.Implies(z3.Exists([u], W(u)), z3.And(W(m), z3.ForAll([u], z3.Implies(W(u), z3.Not(R(u, m))))))))
    prove("it raises only when there is a cycle", z3.Exists([u], R(u, u)))
