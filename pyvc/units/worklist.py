"""Worklist loops: an abstract bag, and while loops verified against an invariant over a visited set and a frontier."""
import ast

import z3

from ..core import B, HeapObj, Obj, PathEnd, SV, Unsupported
from ..interp import Break, Continue, assigned_names
from ..models import as_z3, coll_has, note
from ..values import Coll, DictV, ListV, Model, SetV
from .graphs import NODE, node_term


class Bag(HeapObj):
    """A list, deque or set used as a bag of nodes: an arbitrary content and a log of changes."""

    FIELDS = ("ops",)
    __slots__ = ("ops", "base", "kind")

    def __init__(self, ctx, base, kind):
        self.init_heap(ctx)
        self.ops, self.base, self.kind = [], base, kind

    def mem(self, it, x):
        f = self.base(x)
        for op in self.ops:
            if op[0] == "pop":
                # another occurrence of what was taken may remain, except in a set
                f = z3.And(f, z3.Or(x != op[1], op[2]))
            elif op[0] == "one":
                f = z3.Or(f, x == op[1])
            else:
                f = z3.Or(f, as_z3(coll_has(it, op[1], x)))
        return f

    def added(self):
        return [op for op in self.ops if op[0] != "pop"]

    def truth(self, it):
        x = z3.Const("bx", Obj)
        return z3.Exists([x], self.mem(it, x))

    def contains(self, it, v):
        return self.mem(it, node_term(it, v))

    def take(self, it):
        ctx = it.ctx
        e = ctx.fresh("taken")
        if not ctx.branch(self.truth(it)):
            it.raise_(KeyError if self.kind == "set" else IndexError, "pop from an empty collection")
        ctx.assume(self.mem(it, e))
        again = ctx.fresh("again", B)
        if self.kind == "set":
            ctx.assume(z3.Not(again))
        self.ops = self.ops + [("pop", e, again)]
        return SV(e, "obj", NODE)

    def put(self, it, segs):
        for kind, s in segs:
            if kind == "one":
                self.ops = self.ops + [("one", node_term(it, s))]
            else:
                self.ops = self.ops + [("coll", s)]

    def getattr(self, it, name):
        M = Model
        if name in ("pop", "popleft"):
            return M(name, lambda it, a, k: self.take(it))
        if name in ("append", "appendleft") or name == "add" and self.kind == "set":
            return M(name, lambda it, a, k: self.put(it, [("one", a[0])]))
        if name in ("extend", "extendleft") and self.kind != "set" or name == "update" and self.kind == "set":
            return M(name, lambda it, a, k: self.put(it, it.iter_segs(a[0])))
        return None

    # effects of an inner loop
    def apply_loop(self, it, b, a, ys, gz, T, V):
        for op in a[0][len(b[0]):]:
            if op[0] == "one":
                self.ops = self.ops + [("coll", Coll(list(ys), gz, SV(T(op[1]), "obj", NODE), None, False, None, False, "put"))]
            elif op[0] == "coll":
                c = V(op[1])
                self.ops = self.ops + [("coll", Coll(list(ys) + list(c.xs), it.conj([gz, c.mem]), c.elem, c.facts, False, None, False, "put"))]
            else:
                raise Unsupported("an inner loop takes from the worklist")

    def apply_one(self, it, b, a):
        self.ops = self.ops + a[0][len(b[0]):]


def locate(env, cls):
    found = []
    for n, v in env.vars.items():
        if isinstance(v, cls):
            found.append(n)
    return found


def visited_of(it, v):
    """Membership in a set or in the keys of a dict."""
    from ..models import dict_contains_f, set_contains_term

    if isinstance(v, SetV):
        return lambda x: as_z3(set_contains_term(it, v, x))
    return lambda x: as_z3(dict_contains_f(it, v, SV(x, "obj", NODE)))


def worklist_loop(it, inv, progress, t):
    """Contract for a while loop over one set (visited) and one list or deque (frontier): inv(V, F) -> [(text, formula)]."""
    ctx = it.ctx

    def contract(it_, st, env):
        if not isinstance(st, ast.While):
            return None
        used = {x.id for part in [st.test] + st.body for x in _names(part)}
        sets, lists = [n for n in locate(env, SetV) if n in used], [n for n in locate(env, ListV) if n in used]
        tested = [n for n in lists + sets if any(x.id == n for x in _names(st.test))] or lists
        if len(tested) != 1:
            return None
        fn = tested[0]
        rest = [n for n in sets if n != fn]
        if len(rest) != 1:
            return None
        vn = rest[0]

        def handler():
            vis, fr = env.vars[vn], env.vars[fn]
            x = z3.Const("wx", Obj)
            V0 = visited_of(it, vis)
            segs = it.iter_segs(fr)
            F0 = lambda y: z3.Or([z3.BoolVal(False)] + [as_z3(it.eq(s, SV(y, "obj", NODE))) if k == "one" else as_z3(coll_has(it, s, y)) for k, s in segs])
            forms = inv(V0, F0)
            which = None
            for n, form in enumerate(forms):
                if all(ctx._check(z3.Not(f), timeout=3000) == z3.unsat for _, f in form):
                    which = n
                    break
            if which is None:
                which = 0
            for text, f in forms[which]:
                ctx.prove(t(f"{text}, initially"), f)
            V, F = ctx.fresh_fn("visited", Obj, B), ctx.fresh_fn("frontier", Obj, B)
            vis.ops = [("pred", lambda y: V(y))]
            bag = Bag(ctx, F, fr.kind)
            env.vars[fn] = bag
            for n in assigned_names(st.body):
                if n not in (vn, fn) and n in env.vars:
                    from ..core import Poison

                    env.vars[n] = Poison(n)
            for _, f in inv(lambda y: V(y), lambda y: F(y))[which]:
                ctx.assume(f)
            if ctx.branch(it.truth_f(it.eval(st.test, env))):
                ctx.cover("iteration")
                try:
                    it.exec_block(st.body, env)
                except Continue:
                    pass
                except Break:
                    return
                if env.vars.get(fn) is not bag or env.vars.get(vn) is not vis:
                    raise Unsupported("a worklist is replaced in the loop")
                V2, F2 = visited_of(it, vis), lambda y: bag.mem(it, y)
                for text, f in inv(V2, F2)[which]:
                    ctx.prove(t(f"{text}, after an iteration"), f)
                pops = [op for op in bag.ops if op[0] == "pop"]
                ctx.prove(t("an iteration visits no node twice"), z3.ForAll([x], z3.Implies(V(x), V2(x))))
                if not bag.added():
                    grows = False
                    ctx.prove(t("an iteration takes something from the worklist or visits a new node"), bool(pops) or z3.Exists([x], z3.And(V2(x), z3.Not(V(x)))))
                else:
                    some = z3.Or([z3.BoolVal(True) if op[0] == "one" else z3.Exists([x], as_z3(coll_has(it, op[1], x))) for op in bag.added()])
                    ctx.prove(t("the worklist grows only when a node is visited for the first time"), z3.Implies(some, z3.Exists([x], z3.And(V2(x), z3.Not(V(x))))))
                    ctx.prove(t("an iteration takes something from the worklist or visits a new node"), z3.Or(z3.BoolVal(bool(pops)), z3.Exists([x], z3.And(V2(x), z3.Not(V(x))))))
                if progress is not None:
                    progress(V2)
                raise PathEnd()
            ctx.cover("end of the loop")
            it.exec_block(st.orelse, env)

        return handler

    it.loop_contracts.append(contract)


def _names(e):


    return [n for n in ast.walk(e) if isinstance(n, ast.Name)]
