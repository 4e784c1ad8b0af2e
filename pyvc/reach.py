"""Which values are reachable from given roots, and under which conditions: strong references along the heap of the interpreted program."""
import ast

import z3

from .core import Obj, IteV, Opaque, Poison, SV, Unsupported
from .interp import Tmpl
from .values import BoundMethod, BuiltinCls, ClsV, Coll, DictV, Env, ExtCls, Fam, FamRef, GenV, Inst, ListV, Model, ModuleV, PyFunc, SetV, TypeOf, subst, subst_f

LIMIT = 400


def free_names(f):
    """The names a function takes from its surroundings (an over-approximation: every name it or a nested function mentions)."""
    return {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}


class Reach:
    """Enumerates the references from the roots to leaves: (conditions, objects on the way, leaf)."""

    def __init__(self, it):
        self.it, self.ctx = it, it.ctx
        self.out, self.steps = [], 0

    def fresh(self, coll):
        sub = [(x, self.ctx.fresh("r", x.sort())) for x in coll.xs]
        return sub

    def walk(self, v, conds=(), via=(), seen=()):
        self.steps += 1
        if self.steps > LIMIT:
            raise Unsupported("too many references")
        if any(c is False for c in conds):
            return
        go = lambda x, c=(), t=(), s=None: self.walk(x, conds + tuple(y for y in c if y is not True), via + tuple(t), seen if s is None else seen + (s,))
        if isinstance(v, IteV):
            before = []
            for g, x in v.cases:
                go(x, [g] + [self.it.neg(b) for b in before])
                before.append(g)
        elif isinstance(v, Poison):
            raise Unsupported("use of a variable assigned in a summarised loop")
        elif isinstance(v, Tmpl):
            go(v.instantiate(self.it))
        elif isinstance(v, tuple):
            for x in v:
                go(x)
        elif isinstance(v, SV):
            self.out.append((conds, via, v))
        elif isinstance(v, FamRef):
            key = (v.fam.oid, tuple(t.get_id() for t in v.ts))
            if key in seen:
                return
            if sum(1 for s in seen if isinstance(s, tuple) and s[0] == v.fam.oid) > 3:
                raise Unsupported("references between the objects of a family")
            for name, entries in v.fam.attrs.items():
                prev = []
                for xs, guard, val in reversed(entries):
                    sub = list(zip(xs, v.ts))
                    g = subst_f(guard, sub)
                    go(subst(val, sub), [g] + [self.it.neg(p) for p in prev], v.ts, key)
                    prev.append(g)
                    if g is True:
                        break
        elif isinstance(v, Coll):
            sub = self.fresh(v)
            ts = [b for _, b in sub]
            m, e, _ = v.at(ts)
            go(e, [m], ts)
        elif isinstance(v, ListV):
            if v.oid in seen:
                return
            for kind, x in v.segs:
                go(x, s=v.oid)
        elif isinstance(v, DictV):
            if v.oid in seen:
                return
            for i, op in enumerate(v.ops):
                later = v.ops[i + 1:]
                if op[0] == "set":
                    go(op[2], [self.it.neg(self.it.eq(op[1], l[1])) for l in later if l[0] in ("set", "del")], [], v.oid)
                elif op[0] == "coll":
                    c = op[1]
                    sub = self.fresh(c)
                    ts = [b for _, b in sub]
                    m, e, _ = c.at(ts)
                    go(e, [m] + [self.it.neg(self.it.eq(e[0], l[1])) for l in later if l[0] in ("set", "del")], ts, v.oid)
                elif op[0] != "del":
                    raise Unsupported("references of a dict")
        elif isinstance(v, SetV):
            if v.oid in seen:
                return
            for op in v.ops:
                if op[0] in ("add", "coll"):
                    go(op[1], s=v.oid)
                elif op[0] not in ("del", "pred"):
                    raise Unsupported("references of a set")
        elif isinstance(v, Inst):
            if v.oid in seen or getattr(v, "ext", None) is not None:
                return
            for x in v.attrs.values():
                go(x, s=v.oid)
        elif isinstance(v, PyFunc):
            if id(v) in seen:
                return
            for d in list(v.defaults or ()) + list((v.kwdefaults or {}).values() if isinstance(v.kwdefaults, dict) else v.kwdefaults or ()):
                if not isinstance(d, ast.AST) and d is not None:
                    go(d, s=id(v))
            names, e = free_names(v), v.env
            while e is not None and e.func is not None:
                for n in sorted(names & set(e.vars)):
                    go(e.vars[n], s=id(v))
                e = e.parent
        elif isinstance(v, BoundMethod):
            go(v.self_)
            go(v.fn)
        elif isinstance(v, TypeOf):
            go(v.v)
        elif isinstance(v, (GenV,)):
            raise Unsupported("references of a generator")


def frame_locals(it, qual):
    """The local variables of the frame of a function that is being executed."""
    envs = [o for o in it.ctx.heap if isinstance(o, Env) and o.func is not None and o.func.qual == qual]
    if not envs:
        raise Unsupported(f"no frame of {qual}")
    return list(envs[-1].vars.values())
