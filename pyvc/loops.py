"""Loops over symbolic collections: one generic iteration, then its effects for every element (no bound)."""
import ast
import re

import z3

from .core import B, HeapObj, I, IteV, Obj, Opaque, PathEnd, Poison, PyRaise, SV, Unsupported, Value
from .interp import Break, Continue, GenExit, Return, Tmpl, assigned_names
from .values import BoundMethod, Coll, DictV, Env, Fam, FamRef, Inst, ListV, PyFunc, SetV, TypeOf, subst, subst_f

SKIP = object()


def name_index(name):
    if name.startswith("b:"):
        return 0
    m = re.search(r"!(\d+)$", name)
    return int(m.group(1)) if m else 0


class Lift:
    """Turns what one generic iteration made into functions of the element."""

    def __init__(self, it, xs, names0, heap0, also=()):
        self.it, self.xs, self.names0, self.heap0 = it, list(xs), names0, heap0
        self.also = set(also)
        self.map = {}
        self.sub = []
        self.fams = {}
        self.xnames = {str(x) for x in xs}
        self.tcache = {}

    def term(self, t):
        if isinstance(t, bool):
            return t
        key = t.get_id()
        if key in self.tcache:
            return self.tcache[key][1]
        todo, seen = [t], set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
                continue
            if not z3.is_app(e):
                continue
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if (name_index(n) > self.names0 or n in self.also) and n not in self.xnames and n not in self.map:
                    if e.num_args() > 0:
                        if n.startswith("fam!") or "_inv" in n or n.startswith("sk:"):
                            continue
                        raise Unsupported(f"a function symbol made in a loop body ({n})")
                    self.add(e)
            todo.extend(e.children())
        r = z3.substitute(t, *self.sub) if self.sub else t
        self.tcache[key] = (t, r)
        return r

    def add(self, const):
        n = const.decl().name()
        f = z3.Function(f"sk:{n}", *[x.sort() for x in self.xs], const.sort()) if self.xs else None
        app = f(*self.xs) if f is not None else const
        self.map[n] = f
        self.sub.append((const, app))
        self.tcache.clear()
        return app

    def value(self, v):
        if isinstance(v, SV):
            return SV(self.term(v.t), v.kind, v.tag)
        if isinstance(v, tuple):
            return tuple(self.value(x) for x in v)
        if isinstance(v, IteV):
            return IteV([(self.term(g), self.value(x)) for g, x in v.cases])
        if isinstance(v, FamRef):
            if v.fam.oid >= self.heap0:
                raise Unsupported("nested families of objects")
            return FamRef(v.fam, [self.term(t) for t in v.ts])
        if isinstance(v, TypeOf):
            return TypeOf(self.value(v.v))
        if isinstance(v, BoundMethod):
            return BoundMethod(self.value(v.self_), self.value(v.fn))
        if isinstance(v, Coll):
            # the bound variables of the collection stay bound: they are renamed out of the way of the lifting
            bs = [x if str(x).startswith("b:") else z3.Const(f"b:{x}", x.sort()) for x in v.xs]
            m, e, f = v.at(bs)
            return Coll(bs, self.term(m), self.value(e), self.term(f) if f is not None else None, v.ordered,
                        self.term(v.n) if v.n is not None else None, v.distinct, v.name)
        if isinstance(v, Tmpl):
            raise Unsupported("nested containers made in a loop")
        if isinstance(v, Inst) and v.oid >= self.heap0:
            return self.fam(v)
        if isinstance(v, (ListV, SetV, DictV)) and v.oid >= self.heap0:
            return self.tmpl(v)
        if isinstance(v, PyFunc) and v.env is not None and v.env.oid >= self.heap0 and v.env.func is not None:
            return Poison("a closure made in a loop body")
        if isinstance(v, HeapObj) and v.oid >= self.heap0:
            return Poison("an object made in a loop body")
        return v

    def tmpl(self, v):
        key = ("t", v.oid)
        if key not in self.fams:
            if isinstance(v, ListV):
                o = ListV(self.it.ctx, [], v.kind)
                o.segs = [(k, self.value(x)) for k, x in v.segs]
            elif isinstance(v, SetV):
                o = SetV(self.it.ctx, [(op[0],) + tuple(self.value(x) for x in op[1:]) for op in v.ops])
            else:
                o = DictV(self.it.ctx, [(op[0],) + tuple(self.value(x) for x in op[1:]) for op in v.ops])
            self.fams[key] = Tmpl(o, [], {})
        return self.fams[key]

    def fam(self, inst):
        if inst.oid in self.fams:
            return self.fams[inst.oid]
        if not self.xs:
            return inst
        fam = Fam(self.it.ctx, inst.cls, self.xs, {})
        ref = FamRef(fam, self.xs)
        self.fams[inst.oid] = ref
        if inst.term is not None:
            self.term(inst.term)
            fam.term = self.map[inst.term.decl().name()]
            self.it._fam_axioms(fam)
        else:
            fam.term = None
        for k, v in inst.attrs.items():
            fam.attrs[k] = [(self.xs, True, self.value(v))]
        return ref


class PathResult:
    pass


def run_generic(it, coll, thunk, also=()):
    """Explore thunk(elem) for a generic element; returns (xs, mem, [PathResult])."""
    ctx = it.ctx
    xs = [ctx.fresh(f"x_{coll.name}", x.sort()) for x in coll.xs]
    mem, elem, facts = coll.at(xs)
    names0, heap0 = ctx.names, len(ctx.heap)
    all_reads = []

    def go():
        if mem is not True and mem is not None:
            ctx.assume(mem)
        if facts is not None:
            ctx.assume(facts)
        saved = it.reads
        it.reads = []
        try:
            try:
                return thunk(elem, xs)
            except PyRaise:
                raise
        finally:
            all_reads.append(it.reads)
            if saved is not None:
                saved.extend(it.reads)
            it.reads = saved

    raw = ctx.explore(go)
    out = []
    for guards, outcome, changed, events, gchanged in raw:
        p = PathResult()
        p.lift = Lift(it, xs, names0, heap0, also)
        p.dec = [g for g, d in guards if d]
        p.facts = [g for g, d in guards if not d]
        p.kind, p.value = outcome
        p.changed, p.events, p.gchanged = changed, events, gchanged
        out.append(p)
    # skolem functions are shared between the paths only where the constants are, which is sound: names are unique
    for p in out:
        p.guard = it.conj([p.lift.term(g) for g in p.dec])
        skip = {mem.get_id()} if not isinstance(mem, bool) and mem is not None else set()
        if facts is not None:
            skip.add(facts.get_id())
        p.lfacts = []
        for g in p.facts:
            if isinstance(g, bool) or g.get_id() in skip or g.get_id() in ctx.entailed:
                continue
            p.lfacts.append(g)
    return xs, mem if mem is not None else True, out, all_reads, names0, heap0


def assume_facts(it, xs, mem, paths):
    ctx = it.ctx
    for p in paths:
        fs = []
        for g in p.lfacts:
            lg = p.lift.term(g)
            if lg.eq(g) and not mentions(g, p.lift.xnames):
                # a fact about things made before or constants: holds anyway
                ctx.assume(g)
                continue
            fs.append(lg)
        if fs:
            body = z3.And(*fs) if len(fs) > 1 else fs[0]
            pre = it.conj([mem, p.guard])
            f = body if pre is True else z3.Implies(pre, body)
            ctx.assume(z3.ForAll(xs, f) if xs else f)


def mentions(t, names):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
        elif z3.is_app(e):
            if e.decl().name() in names:
                return True
            todo.extend(e.children())
    return False


# ---------------------------------------------------------------- comprehensions


def comp_segs(it, node, env, first=None):
    gens = node.generators
    cenv = Env(it.ctx, env, env.module)
    cenv.ctxglobals = "comp"

    def rec(i, e, first=None):
        if i == len(gens):
            if isinstance(node, ast.DictComp):
                return [("one", (it.eval(node.key, e), it.eval(node.value, e)))]
            return [("one", it.eval(node.elt, e))]
        g = gens[i]
        segs = it.iter_segs(first if first is not None else it.eval(g.iter, e))
        out = []
        for kind, s in segs:
            if kind == "one":
                it.assign(g.target, s, e)
                if all_true(g.ifs, e):
                    out.extend(rec(i + 1, e))
            else:
                def thunk(elem, xs):
                    e2 = Env(it.ctx, e, e.module)
                    e2.ctxglobals = "comp"
                    it.assign(g.target, elem, e2)
                    if not all_true(g.ifs, e2):
                        return []
                    return rec(i + 1, e2)

                out.extend(coll_comp(it, s, thunk))
        return out

    def all_true(ifs, e):
        for c in ifs:
            if not it.truth(it.eval(c, e)):
                return False
        return True

    if isinstance(node, ast.DictComp) or True:
        return rec(0, cenv, first)


def coll_comp(it, coll, thunk):
    """Segments produced by thunk(elem, xs) -> segments, over all elements of coll."""
    xs, mem, paths, _, _, _ = run_generic(it, coll, thunk)
    for p in paths:
        for oid, (o, b, a) in p.changed.items():
            if isinstance(o, Env):
                continue
            raise Unsupported("a comprehension over a symbolic collection has side effects")
        if p.gchanged or p.events:
            raise Unsupported("a comprehension over a symbolic collection has ghost effects")
    ok = [p for p in paths if p.kind == "ok"]
    bad = [p for p in paths if p.kind == "raise"]
    if bad:
        early_raise(it, coll, xs, mem, bad)
    assume_facts(it, xs, mem, ok)
    single = all(len(p.value) <= 1 and all(s[0] == "one" for s in p.value) for p in ok)
    if single:
        yes = [p for p in ok if p.value]
        if not yes:
            return []
        vals = [(p.guard, p.lift.value(p.value[0][1])) for p in yes]
        if len(yes) == len(ok):
            m, n, ordered = mem, coll.n, coll.ordered
        else:
            m, n, ordered = it.conj([mem, it.disj([g for g, _ in vals])]), None, coll.ordered
        elem = merge(it, vals)
        return [("coll", Coll(xs, m if not isinstance(m, bool) else z3.BoolVal(m), elem, None, ordered, n, coll.distinct, "c"))]
    out = []
    for p in ok:
        for kind, s in p.value:
            g = it.conj([mem, p.guard])
            if kind == "one":
                out.append(("coll", Coll(xs, g if not isinstance(g, bool) else z3.BoolVal(g), p.lift.value(s), None, False, None, False, "c")))
            else:
                c = p.lift.value(s)
                m = it.conj([g, c.mem])
                out.append(("coll", Coll(list(xs) + list(c.xs), m, c.elem, c.facts, False, None, False, "c")))
    return out


def merge(it, vals):
    first = vals[0][1]
    if all(equal_value(first, v) for _, v in vals):
        return first
    # tuples are merged component by component
    if all(isinstance(v, tuple) and len(v) == len(first) for _, v in vals) if isinstance(first, tuple) else False:
        return tuple(merge(it, [(g, v[i]) for g, v in vals]) for i in range(len(first)))
    return IteV([(g if not isinstance(g, bool) else z3.BoolVal(g), v) for g, v in vals])


def equal_value(a, b):
    if a is b:
        return True
    if isinstance(a, SV) and isinstance(b, SV):
        return a.t.eq(b.t)
    if isinstance(a, (int, str, float, bytes, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(equal_value, a, b))
    if isinstance(a, FamRef) and isinstance(b, FamRef):
        return a.fam is b.fam and all(x.eq(y) for x, y in zip(a.ts, b.ts))
    return False


def early_raise(it, coll, xs, mem, bad):
    ctx = it.ctx
    k = ctx.choose(len(bad) + 1, "early raise")
    if k == 0:
        for p in bad:
            no_exit(it, xs, mem, p)
        return
    p = bad[k - 1]
    instantiate_exit(it, xs, mem, p)
    raise PyRaise(p.value)


def no_exit(it, xs, mem, p):
    g = it.conj([mem, p.guard] + [p.lift.term(f) for f in p.lfacts])
    if g is True:
        if xs:
            raise PathEnd()
        raise PathEnd()
    it.ctx.assume(z3.ForAll(xs, z3.Not(g)) if xs else z3.Not(g))


def instantiate_exit(it, xs, mem, p):
    """Assume that the element xs (the constants themselves) takes the exit path."""
    ctx = it.ctx
    if mem is not True:
        ctx.assume(mem)
    for g in p.facts:
        ctx.assume(g)
    for g in p.dec:
        ctx.assume(g)
    if ctx._check(timeout=700) == z3.unsat:
        raise PathEnd()


# ---------------------------------------------------------------- for statements


def for_segs(it, segs, st, env, live=None):
    """Execute a for statement over segments."""
    for kind, s in segs:
        if kind == "one":
            it.assign(st.target, s, env)
            try:
                it.exec_block(st.body, env)
            except Break:
                return
            except Continue:
                pass
        else:
            def body(elem, xs):
                it.assign(st.target, elem, env)
                try:
                    it.exec_block(st.body, env)
                except Continue:
                    pass
                except Break:
                    return ("break", None)
                except Return as r:
                    return ("return", r.v)
                return ("next", None)

            names = assigned_names(st.body) | assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0), lineno=0)])
            sig = summarise(it, s, body, env, names, live)
            if sig == "break":
                return
    it.exec_block(st.orelse, env)


def is_intlike(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, SV) and v.kind == "int")


def summarise(it, coll, body, env, names, live=None):
    ctx = it.ctx
    havoc = {}  # (oid, name) -> (obj, before, havoc value)
    for n in names:
        e = it.find_env(n, env)
        havoc[(e.oid, n)] = (e, e.vars.get(n), None)
    moving = set()  # ghost counters that the body changes
    for attempt in range(6):
        saved = {}
        for (oid, n), (o, before, _) in list(havoc.items()):
            d = o.vars if isinstance(o, Env) else o.attrs
            saved[(oid, n)] = (n in d, d.get(n))
            if is_intlike(before):
                h = SV(ctx.fresh(f"h_{n}", I))
            else:
                h = Poison(n)
            havoc[(oid, n)] = (o, before, h)
            if n in d or not isinstance(o, Env):
                d[n] = h
        ghosts = {}
        for gname, gv in list(ctx.ghost.items()):
            if gname not in moving:
                continue
            if isinstance(gv, z3.ArithRef) or (isinstance(gv, int) and not isinstance(gv, bool)):
                h = ctx.fresh(f"g_{gname}", I)
                ghosts[gname] = (gv, h)
                ctx.ghost[gname] = h
        try:
            also = [str(h.t) for _, _, h in havoc.values() if isinstance(h, SV)] + [str(h) for _, h in ghosts.values()]
            xs, mem, paths, all_reads, names0, heap0 = run_generic(it, coll, body, also)
        finally:
            for (oid, n), (had, val) in saved.items():
                o = havoc[(oid, n)][0]
                d = o.vars if isinstance(o, Env) else o.attrs
                if had:
                    d[n] = val
                else:
                    d.pop(n, None)
            for gname, (gv, h) in ghosts.items():
                ctx.ghost[gname] = gv
        more = False
        for p in paths:
            for gname in p.gchanged:
                gv = ctx.ghost.get(gname)
                if gname not in moving and (isinstance(gv, z3.ArithRef) or (isinstance(gv, int) and not isinstance(gv, bool))):
                    moving.add(gname)
                    more = True
            for oid, (o, b, a) in p.changed.items():
                if isinstance(o, (Env, Inst)):
                    for n in set(b[0]) | set(a[0]):
                        x, y = b[0].get(n, SKIP), a[0].get(n, SKIP)
                        if x is not y and not equal_value(x, y) and (oid, n) not in havoc:
                            havoc[(oid, n)] = (o, x if x is not SKIP else None, None)
                            more = True
        if not more:
            break
    else:
        raise Unsupported("loop effects do not stabilise")
    ok = [p for p in paths if p.kind == "ok" and p.value[0] == "next"]
    exits = [p for p in paths if not (p.kind == "ok" and p.value[0] == "next")]
    check_independence(it, xs, mem, ok + exits, all_reads, havoc)
    if live is not None:
        for p in ok:
            for oid, (o, b, a) in p.changed.items():
                if o is live[0] and o.live_conflict(it, live, b, a):
                    raise Unsupported("a loop changes what it iterates over")
    inductive(it, coll, xs, mem, ok, havoc, ghosts)
    k = 0
    if exits:
        k = ctx.choose(len(exits) + 1, "loop exit")
    done = mem
    if k == 0:
        for p in exits:
            no_exit(it, xs, mem, p)
        assume_facts(it, xs, mem, ok)
        apply_effects(it, coll, xs, mem, ok, havoc, ghosts, coll.n)
        return None
    p = exits[k - 1]
    # elements processed before the one that exits
    ws = xs
    ys = [ctx.fresh("y", x.sort()) for x in xs]
    if coll.ordered and len(xs) == 1 and xs[0].sort() == I:
        done_y = it.conj([subst_f(mem, list(zip(xs, ys))), ys[0] < xs[0]])
        if coll.n is not None:
            cnt = xs[0]
        else:
            cnt = ctx.fresh("done_n", I)
            ctx.assume(z3.And(cnt >= 0, cnt <= xs[0]))
    else:
        f = z3.Function(f"done!{ctx.names}", *[x.sort() for x in xs], B)
        ctx.names += 1
        cnt = ctx.fresh("done_n", I)
        ctx.assume(cnt >= 0)
        if coll.n is not None:
            ctx.assume(cnt < coll.n)
        ne = z3.Not(z3.And(*[y == x for x, y in zip(xs, ys)])) if xs else False
        done_y = it.conj([f(*ys), subst_f(mem, list(zip(xs, ys))), ne])
    # rename the generic element of the normal paths to ys by substitution after lifting
    instantiate = p
    lifted = []
    for q in ok:
        lifted.append(q)
    sub = list(zip(xs, ys))
    for q in exits:
        g = it.conj([q.guard] + [q.lift.term(f_) for f_ in q.lfacts])
        g = subst_f(g, sub)
        if done_y is True and g is True:
            raise PathEnd()
        ctx.assume(z3.ForAll(ys, z3.Not(it_conj_z3(it, [done_y, g]))))
    # effects of the elements done before
    apply_effects(it, coll, xs, mem, ok, havoc, ghosts, cnt, done=(ys, done_y))
    instantiate_exit(it, xs, mem, p)
    # effects of the exiting element itself
    for oid, (o, b, a) in p.changed.items():
        apply_one(it, o, b, a, havoc, oid)
    for gname, v in p.gchanged.items():
        if gname in ghosts:
            gv, h = ghosts[gname]
            d = z3.simplify(v - h)
            ctx.ghost[gname] = z3.simplify(ctx.ghost[gname] + d)
        else:
            ctx.ghost[gname] = v
    ctx.events.extend(p.events)
    if p.kind == "raise":
        raise PyRaise(p.value)
    if p.value[0] == "break":
        return "break"
    raise Return(p.value[1])


def inductive(it, coll, xs, mem, ok, havoc, ghosts):
    """A counter which every iteration of an ordered loop changes by the same d is before + d*x when element x is reached."""
    if not (coll.ordered and coll.n is not None and len(xs) == 1 and xs[0].sort() == I and ok):
        return
    ctx = it.ctx

    def fact(before, h, afters):
        ds = set()
        for a in afters:
            d = z3.simplify(a - h)
            if not z3.is_int_value(d):
                return
            ds.add(d.as_long())
        if len(ds) != 1:
            return
        d = ds.pop()
        b = it.num(before)
        ctx.assume(h == b + d * xs[0])
        f = z3.Function(f"sk:{h}", I, I)
        f_ = f(xs[0]) == b + d * xs[0]
        ctx.assume(z3.ForAll(xs, f_ if mem is True else z3.Implies(mem, f_), patterns=[f(xs[0])]))
        ctx.linear[f"sk:{h}"] = (b, d, xs[0], mem)

    for (oid, n), (o, before, h) in havoc.items():
        if not isinstance(h, SV):
            continue
        afters = []
        for p in ok:
            now = h
            if oid in p.changed:
                now = p.changed[oid][2][0].get(n, h)
            afters.append(now)
        if all(is_intlike(a) for a in afters):
            fact(before, h.t, [it.num(a) for a in afters])
    for gname, (gv, h) in ghosts.items():
        fact(gv if isinstance(gv, int) else SV(gv), h, [p.gchanged.get(gname, h) for p in ok])


def it_conj_z3(it, fs):
    f = it.conj(fs)
    return z3.BoolVal(f) if isinstance(f, bool) else f


def apply_one(it, o, b, a, havoc, oid):
    """Apply the change of a single (exiting) iteration on top of the current state."""
    if isinstance(o, Env):
        for n, v in a[0].items():
            h = havoc.get((oid, n))
            if h is not None and h[2] is not None and v is h[2]:
                continue
            if n in b[0] and equal_value(b[0][n], v):
                continue
            if h is not None and isinstance(h[2], SV) and is_intlike(v):
                cur = o.vars.get(n)
                d = z3.simplify(it.num(v) - h[2].t)
                if z3.is_int_value(d) and is_intlike(cur):
                    o.vars[n] = SV(z3.simplify(it.num(cur) + d))
                    continue
            o.vars[n] = v
    elif isinstance(o, Inst):
        for n, v in a[0].items():
            if n in b[0] and equal_value(b[0][n], v):
                continue
            o.attrs[n] = v
    elif isinstance(o, ListV):
        o.segs = o.segs + a[0][len(b[0]):]
    elif isinstance(o, (SetV, DictV)):
        o.ops = o.ops + a[0][len(b[0]):]
    elif isinstance(o, Fam):
        for n in a[0]:
            bl = b[0].get(n, [])
            o.attrs[n] = o.attrs.get(n, []) + a[0][n][len(bl):]
    elif hasattr(o, "apply_one"):
        o.apply_one(it, b, a)
    else:
        raise Unsupported(f"effect on {type(o).__name__} in an exiting iteration")


def prefix_of(b, a):
    return len(a) >= len(b) and all(x is y or x == y for x, y in zip(b, a)) if not any(isinstance(x, z3.ExprRef) for x in b) else len(a) >= len(b)


def new_tail(b, a):
    if len(a) < len(b):
        raise Unsupported("a loop removes from a sequence")
    for x, y in zip(b, a):
        if x is not y and not (isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(p is q or equal_value(p, q) for p, q in zip(x, y))):
            raise Unsupported("a loop rewrites a sequence")
    return a[len(b):]


def apply_effects(it, coll, xs, mem, ok, havoc, ghosts, count, done=None):
    """Effects of the normal paths for all elements (or those in done = (ys, formula))."""
    ctx = it.ctx
    if done is not None:
        ys, dmem = done
        sub = list(zip(xs, ys))
    else:
        ys, dmem, sub = xs, mem, []

    def T(p, t):
        return subst_f(p.lift.term(t) if not isinstance(t, bool) else t, sub)

    def V(p, v):
        return subst(p.lift.value(v), sub)

    if len(ok) == 1 and ok[0].guard is not True:
        # every element that does not leave the loop takes the only path that does not
        p, g = ok[0], T(ok[0], ok[0].guard)
        if ys:
            ctx.assume(z3.ForAll(ys, g if dmem is True else z3.Implies(dmem, g)))
        p.guard = True
    if count is None:
        count = it.models.coll_len(it, Coll(ys, dmem if not isinstance(dmem, bool) else z3.BoolVal(dmem), None))
    scal = {}
    whole_lists = set()

    def cases():
        """The guards of the paths; every element that does not leave the loop takes one of them."""
        gs = [subst_f(p.guard, sub) for p in ok]
        every = it.disj(gs)
        if every is not True:
            ctx.assume(z3.ForAll(ys, it.disj([it.neg(dmem), every])) if ys else it.disj([it.neg(dmem), every]))
        return gs

    if len(ok) > 1:
        for oid, (o, b, a) in ok[0].changed.items():
            if not isinstance(o, (ListV, DictV)) or not all(oid in p.changed for p in ok):
                continue
            tails = [new_tail(p.changed[oid][1][0], p.changed[oid][2][0]) for p in ok]
            if all(len(tail) == 1 and tail[0][0] == "set" for tail in tails):
                # every element sets exactly one item
                keys = [V(p, tail[0][1]) for p, tail in zip(ok, tails)]
                if not all(equal_value(keys[0], k) for k in keys):
                    continue
                whole_lists.add(oid)
                gs = cases()
                mem_ = z3.BoolVal(dmem) if isinstance(dmem, bool) else dmem
                value = IteV([(g, V(p, tail[0][2])) for g, p, tail in zip(gs, ok, tails)])
                o.ops = o.ops + [("coll", Coll(ys, mem_, (keys[0], value), None, coll.ordered, count, coll.distinct, "d"))]
            elif all(len(tail) == 1 and tail[0][0] == "one" for tail in tails):
                # every element appends exactly one item, whichever path it takes
                whole_lists.add(oid)
                gs = cases()
                elem = IteV([(g, V(p, tail[0][1])) for g, p, tail in zip(gs, ok, tails)])
                mem_ = z3.BoolVal(dmem) if isinstance(dmem, bool) else dmem
                o.segs = o.segs + [("coll", Coll(ys, mem_, elem, None, coll.ordered, count, False, "l"))]
    for p in ok:
        g = it.conj([dmem, subst_f(p.guard, sub)])
        gz = z3.BoolVal(g) if isinstance(g, bool) else g
        for oid, (o, b, a) in p.changed.items():
            if oid in whole_lists:
                continue
            if isinstance(o, (Env, Inst)):
                for n in set(a[0]) | set(b[0]):
                    x, y = b[0].get(n, SKIP), a[0].get(n, SKIP)
                    if x is y or equal_value(x, y):
                        continue
                    scal.setdefault((oid, n), []).append((p, gz, y))
            elif isinstance(o, ListV):
                tail = new_tail(b[0], a[0])
                if any(s[0] == "put" for s in tail) and any(s[0] != "put" for q in ok if oid in q.changed for s in q.changed[oid][2][0][len(b[0]):]):
                    raise Unsupported("a loop assigns elements by index and changes the length")
                for kind, v in tail:
                    if kind in ("put", "puts"):
                        c = Coll([], True, v) if kind == "put" else v
                        c = V(p, c)
                        o.segs = o.segs + [("puts", Coll(list(ys) + list(c.xs), it.conj([g, c.mem]), c.elem, None, False, None, True, "p"))]
                    elif kind == "one":
                        whole = len(ok) == 1 and len(tail) == 1
                        o.segs = o.segs + [("coll", Coll(ys, gz, V(p, v), None, coll.ordered and whole, count if whole and p.guard is True else None, coll.distinct, "l"))]
                    else:
                        c = V(p, v)
                        o.segs = o.segs + [("coll", Coll(list(ys) + list(c.xs), it.conj([g, c.mem]), c.elem, c.facts, False, None, False, "l"))]
            elif isinstance(o, SetV):
                for op in new_tail(b[0], a[0]):
                    if op[0] == "add":
                        o.ops = o.ops + [("coll", Coll(ys, gz, V(p, op[1]), None, False, None, coll.distinct, "s"))]
                    elif op[0] == "del":
                        o.ops = o.ops + [("delcoll", Coll(ys, gz, V(p, op[1]), None, False, None, coll.distinct, "s"))]
                    elif op[0] == "coll":
                        c = V(p, op[1])
                        o.ops = o.ops + [("coll", Coll(list(ys) + list(c.xs), it.conj([g, c.mem]), c.elem, c.facts, False, None, False, "s"))]
                    else:
                        raise Unsupported("set operation in a loop")
            elif isinstance(o, DictV):
                for op in new_tail(b[0], a[0]):
                    if op[0] == "set":
                        whole = len(ok) == 1
                        o.ops = o.ops + [("coll", Coll(ys, gz, (V(p, op[1]), V(p, op[2])), None, coll.ordered and whole, count if whole and p.guard is True else None, coll.distinct, "d"))]
                    else:
                        raise Unsupported("dict operation in a loop")
            elif isinstance(o, Fam):
                for n in a[0]:
                    bl = b[0].get(n, [])
                    for (fxs, guard, val) in a[0][n][len(bl):]:
                        # written at key terms: guard is conj(fx == term)
                        lg = subst_f(p.lift.term(guard), sub) if not isinstance(guard, bool) else guard
                        own = own_key(it, fxs, lg, ys)
                        if own is None:
                            raise Unsupported("a loop writes an attribute of an object of another element")
                        s2 = list(zip(ys, own))
                        o.attrs[n] = o.attrs.get(n, []) + [(fxs, subst_f(gz, s2), subst(V(p, val), s2))]
            elif hasattr(o, "apply_loop"):
                o.apply_loop(it, b, a, ys, gz, lambda t, p=p: T(p, t), lambda v, p=p: V(p, v))
            else:
                raise Unsupported(f"effect on {type(o).__name__} in a loop")
        if p.events:
            ctx.events.append(("forall", ys, gz, [e for e in p.events], p))
    for (oid, n), writes in scal.items():
        o, before, h = havoc[(oid, n)]
        d = o.vars if isinstance(o, Env) else o.attrs
        if isinstance(h, SV):
            deltas = []
            for p, gz, y in writes:
                if not is_intlike(y):
                    deltas = None
                    break
                dd = z3.simplify(it.num(y) - h.t)
                if not z3.is_int_value(dd):
                    deltas = None
                    break
                deltas.append((gz, dd.as_long(), p))
            if deltas:
                d[n] = add_counts(it, before, deltas, ok, ys, count)
                continue
        vals = [y for _, _, y in writes]
        if vals and all(y is not SKIP and not isinstance(y, Value) and equal_value(vals[0], y) for y in vals):
            cond = it.disj([z3.Exists(ys, gz) if ys else gz for _, gz, _ in writes])
            if before is None and isinstance(o, Env) and n not in d:
                d[n] = Poison(n)
            else:
                d[n] = IteV([(cond, vals[0]), (z3.Not(cond), before)]) if not isinstance(cond, bool) else vals[0]
            continue
        d[n] = Poison(n)
    for (oid, n), (o, before, h) in havoc.items():
        pass
    for gname, (gv, h) in ghosts.items():
        deltas = []
        for p in ok:
            if gname in p.gchanged:
                dd = z3.simplify(p.gchanged[gname] - h)
                if not z3.is_int_value(dd):
                    raise Unsupported(f"ghost {gname} changes by a non-constant in a loop")
                g = it.conj([dmem, subst_f(p.guard, sub)])
                deltas.append((z3.BoolVal(g) if isinstance(g, bool) else g, dd.as_long(), p))
        if deltas:
            r = add_counts(it, gv if isinstance(gv, int) else SV(gv), deltas, ok, ys, count)
            ctx.ghost[gname] = it.num(r)
    for p in ok:
        for gname in p.gchanged:
            if gname not in ghosts:
                raise Unsupported(f"ghost {gname} changes in a loop")


def add_counts(it, before, deltas, ok, ys, count):
    ctx = it.ctx
    b = it.num(before)
    ds = {d for _, d, _ in deltas}
    if len(deltas) == len(ok) and len(ds) == 1:
        c = ds.pop()
        return SV(z3.simplify(b + (count if isinstance(count, z3.ExprRef) else z3.IntVal(count)) * c))
    total = b
    for g, dlt, _ in deltas:
        k = ctx.fresh("cnt", I)
        ctx.assume(k >= 0)
        ctx.assume(k <= count)
        ctx.assume((k == 0) == z3.Not(z3.Exists(ys, g) if ys else g))
        total = total + dlt * k
    return SV(total)


def own_key(it, fxs, guard, ys):
    """guard is And(fx_i == t_i): if it fixes ys as a function of fxs, return terms for ys in fxs."""
    eqs = {}
    todo = [guard] if not isinstance(guard, bool) else []
    while todo:
        g = todo.pop()
        if z3.is_and(g):
            todo.extend(g.children())
        elif z3.is_eq(g):
            a, b = g.children()
            eqs[str(b)] = a
            eqs[str(a)] = b
    out = []
    for y in ys:
        if str(y) in eqs and any(eqs[str(y)].eq(f) for f in fxs):
            out.append(eqs[str(y)])
        else:
            return None
    return out


def check_independence(it, xs, mem, paths, all_reads, havoc):
    """No iteration reads what another one writes."""
    ctx = it.ctx
    written = {}
    for p in paths:
        for oid, (o, b, a) in p.changed.items():
            if isinstance(o, (Env, Inst)):
                continue
            written.setdefault(oid, []).append((p, o, b, a))
    if not written:
        return
    for reads in all_reads:
        for r in reads:
            if r[0] not in written:
                continue
            for p, o, b, a in written[r[0]]:
                if isinstance(o, Fam):
                    name, ts = r[1], r[2]
                    if len(a[0].get(name, [])) == len(b[0].get(name, [])):
                        continue
                    if all(any(t.eq(x) for x in xs) for t in ts):
                        continue
                    raise Unsupported("a loop reads attributes of other elements that it writes")
                wk = write_keys(it, o, b, a)
                rk = r[1]
                if rk is None or wk is None:
                    raise Unsupported(f"a loop reads a {type(o).__name__} that it changes")
                for k in wk:
                    if not disjoint(it, xs, mem, p, rk, k):
                        raise Unsupported(f"a loop reads parts of a {type(o).__name__} that other iterations change")


def write_keys(it, o, b, a):
    out = []
    if isinstance(o, (SetV, DictV)):
        for op in a[0][len(b[0]):]:
            if op[0] in ("add", "set", "del"):
                out.append((it.term(op[1]),))
            else:
                return None
        return out
    if hasattr(o, "write_keys"):
        return o.write_keys(b, a)
    return None


def disjoint(it, xs, mem, p, rk, wk):
    """A read at key rk by the element xs cannot meet a write at key wk by another element."""
    ctx = it.ctx
    if len(rk) != len(wk):
        return True
    ys = [ctx.fresh("z", x.sort()) for x in xs]
    sub = list(zip(xs, ys))
    conds = [z3.Not(z3.And(*[x == y for x, y in zip(xs, ys)]))] if xs else [z3.BoolVal(False)]
    if not isinstance(mem, bool):
        conds += [mem, z3.substitute(mem, *sub)]
    for r, w in zip(rk, wk):
        if r is None or w is None:
            continue
        if isinstance(r, str) or isinstance(w, str):
            if r != w:
                return True
            continue
        w = z3.substitute(p.lift.term(w), *sub)
        if r.sort() != w.sort():
            return True
        conds.append(r == w)
    return ctx._check(*conds, timeout=3000) == z3.unsat
