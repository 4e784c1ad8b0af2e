"""Models of Python's built-in types and functions, and assumed contracts of the standard library."""
import ast
import builtins as _bi

import z3

from .core import B, HeapObj, I, IteV, Obj, Opaque, PathEnd, Poison, PyRaise, R, SV, Unsupported, Value
from .interp import GenExpV, SliceV, Star, STARKW, SuperV, Tmpl, strlen, truthy, unbox_int, box_int
from .values import (BoundMethod, BuiltinCls, ClsV, CM, Coll, DictV, Env, ExtCls, Fam, FamRef, GenV, Inst, ListV, Model, ModuleV, PyFunc, Schema,
                     SetV, TypeOf, subst, subst_f)


class Extern(Value):
    """Something from a module outside the repository that has no model (calling it is unsupported)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<Extern {self.name}>"


class DictView(Value):
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class Traceback:
    """exception.__traceback__: arbitrary; tb_next is again a traceback."""

    def getattr(self, it, inst, name):
        if name in ("tb_next",):
            if name not in inst.attrs:
                tb = Inst(it.ctx, Opaque("traceback"), {})
                tb.ext = Traceback()
                inst.attrs[name] = tb
            return inst.attrs[name]
        return Opaque("tb." + name)

    def setattr(self, it, inst, name, value):
        return False


class StrSchema(Schema):
    name = "str"

    def type_is(self, it, sv, cls):
        return isinstance(cls, BuiltinCls) and cls.cls is str

    def isinstance(self, it, sv, cls):
        return isinstance(cls, BuiltinCls) and cls.cls in (str, object)

    def truth(self, it, sv):
        return truthy(sv.t)

    def getattr(self, it, sv, name):
        if hasattr(str, name):
            def m(it, args, kwargs):
                if name in ("startswith", "endswith", "isdigit", "isspace"):
                    return SV(z3.Function(f"str.{name}{len(args)}", *([Obj] * (len(args) + 1)), B)(sv.t, *[it.term(a) for a in args]))
                if name in ("replace", "rjust", "ljust", "strip", "lower", "upper", "join", "format", "lstrip", "rstrip", "title"):
                    return pure(it, f"str.{name}", [sv] + list(args), STR)
                if name == "encode":
                    return it.ext_call("str.encode", [sv] + list(args), kwargs)
                raise Unsupported(f"str.{name} on a symbolic string")
            return Model(f"str.{name}", m)
        it.raise_(AttributeError, name)

    def iterate(self, it, sv):
        raise Unsupported("iteration over a symbolic string")


STR = StrSchema()


def pure(it, name, args, tag=None):
    ts = [it.term(a) for a in args]
    f = z3.Function(f"pure:{name}{len(ts)}", *[t.sort() for t in ts], Obj)
    return SV(f(*ts) if ts else z3.Const(f"pure:{name}", Obj), "obj", tag)


def install(it):
    it.externs = {}
    it.ext_call = lambda name, args, kwargs: _ext_call(it, name, args, kwargs)


def _ext_call(it, name, args, kwargs):
    if name in it.externs:
        return it.call(it.externs[name], args, kwargs)
    raise Unsupported(f"no model of {name}")


# ---------------------------------------------------------------- names


def builtin(it, name):
    key = "builtins." + name
    if key in it.externs:
        return it.externs[key]
    if name in BUILTINS:
        return Model(name, BUILTINS[name])
    v = getattr(_bi, name, None)
    if isinstance(v, type):
        return BuiltinCls(v)
    if name == "NotImplemented":
        return Opaque("NotImplemented")
    if v is not None:
        return Extern("builtins." + name)
    return None


def module_attr(it, mod, name):
    key = f"{mod}.{name}"
    if key in it.externs:
        v = it.externs[key]
        return v(it) if callable(v) and not isinstance(v, Value) else v
    if key in MODULE_FUNCS:
        return Model(key, MODULE_FUNCS[key])
    if mod == "builtins":
        return builtin(it, name)
    if mod in ("typing", "collections.abc", "abc", "types"):
        return Opaque(key)
    if key in ("os.path", "collections.abc", "datetime.timezone", "concurrent.futures"):
        if key == "datetime.timezone":
            import datetime

            return BuiltinCls(datetime.timezone)
        return ModuleV(key)
    if mod == "datetime" and name in ("datetime", "timedelta", "date", "time"):
        import datetime

        return BuiltinCls(getattr(datetime, name))
    if key == "contextlib.suppress":
        return ExtCls("contextlib.suppress", _make_suppress)
    if key in ("contextlib.nullcontext",):
        return ExtCls("contextlib.nullcontext", _make_nullcontext)
    if key in ("collections.deque",):
        def deque(it, a, k):
            if len(a) > 1 and a[1] is not None or k:
                raise Unsupported("a bounded deque")
            return ListV(it.ctx, it.iter_segs(a[0]) if a else [], "deque")
        return Model("deque", deque)
    if key == "collections.defaultdict":
        def dd(it, a, k):
            d = DictV(it.ctx)
            d.default_factory = a[0] if a else None
            return d
        return Model("defaultdict", dd)
    if key == "collections.OrderedDict":
        return BuiltinCls(dict)
    if key == "pathlib.Path":
        import pathlib

        return BuiltinCls(pathlib.Path)
    if key == "networkx.HasACycle":
        return HASACYCLE
    if key == "operator.getitem":
        return Model(key, lambda it, a, k: it.getitem(a[0], a[1]))
    return Extern(key)


class _HasACycle(Exception):
    pass


HASACYCLE = BuiltinCls(_HasACycle, "HasACycle")


def _make_suppress(it, c, args, kwargs):
    i = Inst(it.ctx, c, {"excs": tuple(args)})
    return i


def _make_nullcontext(it, c, args, kwargs):
    return Inst(it.ctx, c, {"value": args[0] if args else None})


def with_cm(it, cm, inner):
    if isinstance(cm, Inst) and isinstance(cm.cls, ExtCls):
        if cm.cls.name == "contextlib.suppress":
            try:
                inner(None)
            except PyRaise as pe:
                if not it.exc_matches(pe.exc, cm.attrs["excs"]):
                    raise
            return None
        if cm.cls.name == "contextlib.nullcontext":
            inner(cm.attrs["value"])
            return None
    return NotImplemented


def exc_type(it, exc):
    if isinstance(exc, Inst):
        return exc.cls
    return TypeOf(exc)


# ---------------------------------------------------------------- strings


def str_(it, v):
    v = it.resolve(v)
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return str(v)
    if isinstance(v, SV):
        if v.tag is STR:
            return v
        hook = getattr(v.tag, "str", None)
        if hook is not None:
            return hook(it, v)
        may_not_show(it, v)
        return pure(it, "str", [v], STR)
    if isinstance(v, Opaque):
        return SV(it.ctx.fresh("str"), "obj", STR)
    if isinstance(v, Inst) and it.find_method(v.cls, "__str__") is not None:
        return it.call(BoundMethod(v, it.find_method(v.cls, "__str__")), [], {})
    if isinstance(v, (ListV, SetV, DictV, tuple, Inst, FamRef, ClsV, BuiltinCls, TypeOf, BoundMethod, PyFunc)):
        return SV(it.ctx.fresh("str"), "obj", STR)
    raise Unsupported(f"str of {v!r}")


def repr_(it, v):
    v = it.resolve(v)
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return repr(v)
    may_not_show(it, v)
    if isinstance(v, Inst) and isinstance(v.cls, ClsV) and it.find_method(v.cls, "__repr__") is not None:
        return it.call(BoundMethod(v, it.find_method(v.cls, "__repr__")), [], {})
    return SV(it.ctx.fresh("repr"), "obj", STR)


def may_not_show(it, v):
    """__repr__ and __str__ of a user's class may raise."""
    if it.user(v) and not it.ctx.extra.get("shows") and it.ctx.choose(2, "shown"):
        it.raise_(ValueError, "its __repr__ fails")


def format_(it, v, spec):
    v = it.resolve(v)
    if isinstance(v, (str, int, float, bool)) and isinstance(spec, str):
        try:
            return format(v, spec)
        except Exception as e:
            raise PyRaise(it.exc(type(e), e.args))
    return SV(it.ctx.fresh("fmt"), "obj", STR)


def concat(it, parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    flat = []
    for p in parts:
        known = it.ctx.extra.get("concatenated", {}).get(p.t.get_id()) if isinstance(p, SV) else None
        flat.extend(known[1] if known is not None else [p])
    template, args = "", []
    for p in flat:
        if isinstance(p, str):
            template += p.replace("{", "{{")
        else:
            template += "{}"
            args.append(p)
    if template == "{}" and isinstance(args[0], SV):
        return args[0]
    r = pure(it, "fmt:" + template, args, STR)
    it.ctx.extra.setdefault("concatenated", {})[r.t.get_id()] = (r.t, flat)
    lens = [strlen(it.term(a)) for a in args]
    it.ctx.assume(z3.And(*[x >= 0 for x in lens]))
    it.ctx.assume(strlen(r.t) == z3.Sum(*lens, z3.IntVal(len(template.replace("{}", "").replace("{{", "{")))))
    return r


# ---------------------------------------------------------------- collections


def note(it, o, key=None):
    if isinstance(o, ListV):
        settle(it, o)
    if it.reads is not None:
        it.reads.append((o.oid, key))


def reversed_coll(c):
    if not (c.ordered and c.n is not None and len(c.xs) == 1 and c.xs[0].sort() == I):
        return unordered(c)
    i = c.xs[0]
    m, e, f = c.at([c.n - 1 - i])
    return Coll([i], z3.And(0 <= i, i < c.n), e, f, True, c.n, c.distinct, c.name)


def settle(it, o):
    """A list whose elements were assigned by symbolic index ('put', (index, value)) becomes a collection over its indices."""
    if not any(s[0] in ("put", "puts") for s in o.segs):
        return
    ctx = it.ctx
    base = [s for s in o.segs if s[0] not in ("put", "puts")]
    puts = [([], z3.BoolVal(True)) + s[1] if s[0] == "put" else (list(s[1].xs), as_z3(s[1].mem)) + s[1].elem for s in o.segs[len(base):]]
    if o.segs[: len(base)] != base or not base:
        raise Unsupported("a list changes its length after elements were assigned by index")
    init = base[0][1].elem if base[0][0] == "coll" else base[0][1]
    for k, s in base:
        v = s.elem if k == "coll" else s
        if v is not init and not (isinstance(v, (int, bool, str)) and v == init):
            raise Unsupported("elements are assigned by index in a list of different elements")
    if isinstance(init, Value):
        raise Unsupported("elements are assigned by index in a list of objects")
    n = as_num(it, seq_len(it, base))
    width = {len(v) if isinstance(v, tuple) else None for _, _, _, v in puts}
    if len(width) != 1:
        raise Unsupported("values of different shapes are assigned by index")
    w = width.pop()
    parts = [(xs, g, it.num(i), [it.term(x) for x in v] if w is not None else [it.term(v)], v) for xs, g, i, v in puts]
    # no element is assigned twice, or it gets the same value
    for a, (xs, g, i, ts, _) in enumerate(parts):
        for xs2, g2, i2, ts2, _ in parts[a:]:
            ys = [ctx.fresh("w", x.sort()) for x in xs2]
            sub = list(zip(xs2, ys))
            S = (lambda t: z3.substitute(t, *sub)) if sub else (lambda t: t)
            if ctx._check(g, S(g2), i == S(i2), z3.Or([t != S(t2) for t, t2 in zip(ts, ts2)]), timeout=4000) != z3.unsat:
                raise Unsupported("an element may be assigned twice")
    j = ctx.fresh("j", I)
    for h in ctx.extra.get("index_hints", []):
        h(j)
    inside = z3.And(0 <= j, j < n)
    wrote = z3.Or([z3.Exists(xs, z3.And(g, i == j)) if xs else z3.And(g, i == j) for xs, g, i, _, _ in parts])
    full = ctx._check(inside, z3.Not(wrote), timeout=5000) == z3.unsat
    if w is not None and not full:
        raise Unsupported("not every element is known to be assigned")
    fs = [ctx.fresh_fn("item", I, Obj) for _ in range(w or 1)]
    for xs, g, i, ts, _ in parts:
        f = z3.Implies(g, z3.And([fn(i) == t for fn, t in zip(fs, ts)]))
        ctx.assume(z3.ForAll(xs, f) if xs else f)
    if not full:
        ctx.assume(z3.ForAll([j], z3.Implies(z3.Not(wrote), fs[0](j) == it.term(init)), patterns=[fs[0](j)]))
    tags = [getattr(x, "tag", None) for x in (parts[0][4] if w is not None else [parts[0][4]])]
    elem = [SV(fn(j), "obj", t if full else None) for fn, t in zip(fs, tags)]
    o.segs = [("coll", Coll([j], inside, tuple(elem) if w is not None else elem[0], None, True, n, True, "items"))]


def as_num(it, n):
    return z3.IntVal(n) if isinstance(n, int) else n.t


def coll_len(it, c):
    if c.n is not None:
        return c.n
    for h in it.ctx.extra.get("card_hooks", []):
        n = h(it, c)
        if n is not None:
            return n
    if not c.distinct:
        pass
    ctx = it.ctx
    mem = c.mem if not isinstance(c.mem, bool) else z3.BoolVal(c.mem)
    norm = z3.substitute(mem, *[(x, z3.Const(f"norm{i}", x.sort())) for i, x in enumerate(c.xs)]) if c.xs else mem
    key = ("card", tuple(str(x.sort()) for x in c.xs), norm.get_id())
    if key not in ctx.extra:
        n = ctx.fresh("card", I)
        ctx.extra[key] = (n, norm)
        ctx.assume(n >= 0)
        ctx.assume((n == 0) == z3.Not(z3.Exists(c.xs, mem) if c.xs else mem))
    return ctx.extra[key][0]


def seq_len(it, segs):
    total = None
    k = 0
    for s in segs:
        if s[0] == "one":
            k += 1
        else:
            n = coll_len(it, s[1])
            total = n if total is None else total + n
    if total is None:
        return k
    return SV(z3.simplify(total + k))


def iter_segs(it, v):
    ctx = it.ctx
    if isinstance(v, tuple):
        return [("one", x) for x in v]
    if isinstance(v, ListV):
        note(it, v)
        return list(v.segs)
    if isinstance(v, str):
        return [("one", c) for c in v]
    if isinstance(v, GenExpV):
        return v.segs()
    if isinstance(v, SegsV):
        return list(v.segs)
    if isinstance(v, Coll):
        return [("coll", v)]
    if isinstance(v, SetV):
        note(it, v)
        return set_segs(it, v)
    if isinstance(v, DictV):
        note(it, v)
        return [(k, s[0] if k == "one" else Coll(s.xs, s.mem, s.elem[0], s.facts, s.ordered, s.n, s.distinct, s.name)) for k, s in dict_items(it, v)]
    if isinstance(v, DictView):
        note(it, v.d)
        items = dict_items(it, v.d)
        if v.kind == "items":
            return items
        j = 0 if v.kind == "keys" else 1
        return [(k, s[j] if k == "one" else Coll(s.xs, s.mem, s.elem[j], s.facts, s.ordered, s.n, s.distinct, s.name)) for k, s in items]
    if isinstance(v, GenV):
        acc = ListV(ctx, [])
        it.run_gen(v, lambda x: acc.segs.append(("one", x)))
        return list(acc.segs)
    if isinstance(v, SV) and v.tag is not None:
        return it.iter_segs(v.tag.iterate(it, v)) if not isinstance(r := v.tag.iterate(it, v), list) else r
    if isinstance(v, Inst):
        if isinstance(v.cls, ClsV) and v.cls.fields is not None:
            return [("one", v.attrs[k]) for k in v.cls.fields]
        if v.ext is not None and hasattr(v.ext, "iterate"):
            return v.ext.iterate(it, v)
        m = it.find_method(v.cls, "__iter__")
        if m is not None:
            return it.iter_segs(it.call(BoundMethod(v, m), [], {}))
        if v.ext is None and isinstance(v.cls, ClsV) and all(isinstance(c, ClsV) or isinstance(c, BuiltinCls) and c.cls is object for c in it.mro(v.cls)) and it.find_method(v.cls, "__getitem__") is None:
            it.raise_(TypeError, "object is not iterable")
    if isinstance(v, HeapObj) and hasattr(v, "iterate"):
        return v.iterate(it)
    if v is None or isinstance(v, (int, float, bool)):
        it.raise_(TypeError, "object is not iterable")
    if isinstance(v, Opaque):
        raise Unsupported(f"iteration over {v!r}")
    raise Unsupported(f"iteration over {v!r}")


class SegsV(Value):
    """An iterator given by segments."""

    def __init__(self, segs, live=None):
        self.segs = segs
        self.live = live


def set_segs(it, s):
    ops = s.ops
    if not ops:
        return []
    if all(op[0] == "add" for op in ops):
        out = []
        for op in ops:
            dup = it.disj([it.eq(op[1], x) for x in out])
            if not it.ctx.branch(dup):
                out.append(op[1])
        return [("one", x) for x in out]
    if len(ops) == 1 and ops[0][0] == "coll" and ops[0][1].distinct and keyed_by_self(ops[0][1].elem, ops[0][1].xs):
        return [("coll", ops[0][1])]
    if all(op[0] == "coll" and own_family(op[1]) for op in ops) and len({op[1].elem.fam.oid for op in ops}) == len(ops):
        return [("coll", op[1]) for op in ops]
    tags = set()
    for op in ops:
        if op[0] in ("add",):
            tags.add(getattr(op[1], "tag", None))
        elif op[0] in ("coll",):
            tags.add(getattr(op[1].elem, "tag", None))
        elif op[0] == "pred":
            tags.add(op[2] if len(op) > 2 else None)
    tags.discard(None)
    if len(tags) == 1:
        x = it.ctx.fresh("e", Obj)
        return [("coll", Coll([x], as_z3(set_contains_term(it, s, x)), SV(x, "obj", tags.pop())))]
    raise Unsupported("iteration over a mixed set")


def keyed_by_self(elem, xs):
    return isinstance(elem, SV) and len(xs) == 1 and elem.t.eq(xs[0])


def own_family(c):
    """The elements are objects of one family, each once."""
    return isinstance(c.elem, FamRef) and len(c.elem.ts) == len(c.xs) and all(t.eq(x) for t, x in zip(c.elem.ts, c.xs))


def as_z3(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


def coll_has(it, c, t):
    """Formula: some element of c equals term t (terms)."""
    e = c.elem
    if keyed_by_self(e, c.xs):
        if t.sort() != c.xs[0].sort():
            return False
        return subst_f(c.mem, [(c.xs[0], t)])
    et = it.term(e)
    if et.sort() != t.sort():
        return False
    if own_family(c) and z3.is_app(t) and t.decl().eq(et.decl()):
        return c.at(list(t.children()))[0]
    # the element determines itself: elem == t with one variable directly
    f = z3.And(as_z3(c.mem), et == t)
    return z3.Exists(c.xs, f) if c.xs else f


def set_contains_term(it, s, t):
    f = False
    for op in s.ops:
        if op[0] == "add":
            a = it.term(op[1])
            f = it.disj([f, a == t]) if a.sort() == t.sort() else f
        elif op[0] == "coll":
            f = it.disj([f, coll_has(it, op[1], t)])
        elif op[0] == "del":
            a = it.term(op[1])
            f = it.conj([f, a != t]) if a.sort() == t.sort() else f
        elif op[0] == "delcoll":
            f = it.conj([f, it.neg(coll_has(it, op[1], t))])
        elif op[0] == "pred":
            f = it.disj([f, op[1](t)])
        elif op[0] == "filter":
            f = it.conj([f, op[1](t)])
        else:
            raise Unsupported("set operation")
    return f


def set_contains(it, s, v):
    v = it.resolve(v)
    it.no_user_key(v)
    if all(op[0] in ("add", "del") for op in s.ops):
        f = False
        for op in s.ops:
            e = it.eq(op[1], v)
            f = it.disj([f, e]) if op[0] == "add" else it.conj([f, it.neg(e)])
        return f
    t = it.term(v)
    note(it, s, (t,))
    return set_contains_term(it, s, t)


def set_nonempty(it, s):
    if not s.ops:
        return False
    note(it, s)
    if s.ops[-1][0] == "add":
        return True
    if all(op[0] in ("add", "coll") for op in s.ops):
        return it.disj([True if op[0] == "add" else it.coll_nonempty(op[1]) for op in s.ops])
    x = z3.Const("sx", Obj)
    return z3.Exists([x], as_z3(set_contains_term(it, s, x)))


def dict_items(it, d):
    """Segments of (key, value)."""
    ops = list(d.ops)
    if not ops:
        return []
    if all(op[0] == "set" for op in ops):
        keys = []
        for op in ops:
            hit = None
            for i, (k, v) in enumerate(keys):
                if it.ctx.branch(it.eq(k, op[1])):
                    hit = i
                    break
            if hit is None:
                keys.append((op[1], op[2]))
            else:
                keys[hit] = (keys[hit][0], op[2])
        return [("one", kv) for kv in keys]
    if len(ops) == 1 and ops[0][0] == "base":
        x = it.ctx.fresh("key")
        return [("coll", Coll([x], as_z3(ops[0][1](x)), (SV(x, "obj", ops[0][3] if len(ops[0]) > 3 else None), ops[0][2](x)), None, False, None, True, "item"))]
    if all(op[0] in ("coll", "set") for op in ops):
        colls = [op for op in ops if op[0] == "coll"]
        if len(ops) == 1:
            return [("coll", distinct_keys(it, ops[0][1]))]
        if len(colls) == len(ops) and all_disjoint(it, [c[1] for c in colls]):
            return [("coll", op[1]) for op in ops]
    raise Unsupported("iteration over a dict built in several ways")


def distinct_keys(it, c):
    """The items of a dict made from c: where several elements have the same key, the last one counts."""
    if not c.xs or c.unique_keys or keyed_by_self(c.elem[0], c.xs) or own_family(Coll(c.xs, c.mem, c.elem[0])):
        return c
    xs = [it.ctx.fresh("k", x.sort()) for x in c.xs]
    ys = [it.ctx.fresh("k", x.sort()) for x in c.xs]
    mx, ex, fx = c.at(xs)
    my, ey, fy = c.at(ys)
    kx, ky = it.resolve(ex[0]), it.resolve(ey[0])
    same = it.eq(kx, ky)
    differ = z3.Or(*[x != y for x, y in zip(xs, ys)])
    facts = [as_z3(f) for f in (mx, my, fx, fy, same) if f is not None]
    if it.ctx._check(*facts, differ, timeout=2000) == z3.unsat:
        return c
    keep = it.ctx.fresh_fn("keep", *[x.sort() for x in xs], B)
    reps = [it.ctx.fresh_fn("rep", *[x.sort() for x in xs], x.sort()) for x in xs]
    rs = [r(*xs) for r in reps]
    mr, er, fr = c.at(rs)
    it.ctx.assume(z3.ForAll(xs, z3.Implies(as_z3(mx), z3.And(as_z3(mr), keep(*rs), as_z3(it.eq(kx, it.resolve(er[0])))))))
    it.ctx.assume(z3.ForAll(xs + ys, z3.Implies(z3.And(as_z3(mx), as_z3(my), keep(*xs), keep(*ys), as_z3(same)), z3.Not(differ))))
    return Coll(c.xs, z3.And(as_z3(c.mem), keep(*c.xs)), c.elem, c.facts, False, None, True, c.name)


def all_disjoint(it, colls):
    for i, a in enumerate(colls):
        for b in colls[:i]:
            if not (keyed_by_self(a.elem[0], a.xs) and keyed_by_self(b.elem[0], b.xs)):
                return False
            x = it.ctx.fresh("dj", a.xs[0].sort())
            if it.ctx._check(as_z3(subst_f(a.mem, [(a.xs[0], x)])), as_z3(subst_f(b.mem, [(b.xs[0], x)])), timeout=2000) != z3.unsat:
                return False
    return True


def dict_ops(it, d):
    if isinstance(d, DictV):
        note(it, d)
        return list(d.ops)
    if isinstance(d, SV) and d.tag is not None and hasattr(d.tag, "dict_ops"):
        return d.tag.dict_ops(it, d)
    raise Unsupported(f"mapping expected, got {d!r}")


def dict_nonempty(it, d):
    note(it, d)
    fs = []
    for op in d.ops:
        if op[0] == "set":
            fs.append(True)
        elif op[0] == "coll":
            fs.append(it.coll_nonempty(op[1]))
        elif op[0] == "base":
            x = z3.Const("dx", Obj)
            fs.append(z3.Exists([x], as_z3(op[1](x))))
        else:
            raise Unsupported("truth of a dict with deletions")
    return it.disj(fs)


def same_term(a, b):
    """a == b, without the boxes around numbers."""
    if z3.is_app(a) and z3.is_app(b) and a.num_args() == 1 and b.num_args() == 1 and a.decl().eq(b.decl()) and a.decl().name() == "box_int":
        return a.arg(0) == b.arg(0)
    return a == b


def dict_find(it, d, key):
    """(found, value); branches on where the key is."""
    key = it.resolve(key)
    kt = None
    if not all(op[0] in ("set", "del") for op in d.ops):
        kt = it.term(key)
        if isinstance(key, SV) and key.kind == "int":
            for h in it.ctx.extra.get("index_hints", []):
                h(key.t)
    note(it, d, (kt,) if kt is not None else None)
    for op in reversed(d.ops):
        if op[0] == "set":
            if it.ctx.branch(it.eq(op[1], key)):
                return True, op[2]
        elif op[0] == "del":
            if it.ctx.branch(it.eq(op[1], key)):
                return False, None
        elif op[0] == "coll":
            c = op[1]
            k, v = c.elem
            if keyed_by_self(k, c.xs):
                if kt.sort() != c.xs[0].sort():
                    continue
                m, e, f = c.at([kt])
                if it.ctx.branch(m):
                    return True, e[1]
                continue
            kterm = it.term(k)
            if kterm.sort() != kt.sort():
                continue
            same = same_term(kterm, kt)
            cond = z3.Exists(c.xs, z3.And(as_z3(c.mem), same)) if c.xs else z3.And(as_z3(c.mem), same)
            if it.ctx.branch(cond):
                ws = [it.ctx.fresh("w", x.sort()) for x in c.xs]
                m, e, f = c.at(ws)
                it.ctx.assume(m)
                it.ctx.assume(same_term(it.term(e[0]), kt))
                return True, e[1]
        elif op[0] == "base":
            if it.ctx.branch(op[1](kt)):
                return True, op[2](kt)
        else:
            raise Unsupported("dict operation")
    return False, None


def dict_contains_f(it, d, key):
    key = it.resolve(key)
    it.no_user_key(key)
    f = False
    if all(op[0] in ("set", "del") for op in d.ops):
        for op in d.ops:
            e = it.eq(op[1], key)
            f = it.disj([f, e]) if op[0] == "set" else it.conj([f, it.neg(e)])
        return f
    kt = it.term(key)
    note(it, d, (kt,))
    for op in d.ops:
        if op[0] == "set":
            f = it.disj([f, it.eq(op[1], key)])
        elif op[0] == "del":
            f = it.conj([f, it.neg(it.eq(op[1], key))])
        elif op[0] == "coll":
            c = op[1]
            f = it.disj([f, coll_has(it, Coll(c.xs, c.mem, c.elem[0]), kt)])
        elif op[0] == "base":
            f = it.disj([f, op[1](kt)])
    return f


def contains(it, c, v):
    if isinstance(c, tuple):
        return it.disj([it.same(x, v) for x in c])
    if isinstance(c, ListV):
        note(it, c)
        fs = []
        for kind, s in c.segs:
            if kind != "one":
                it.no_user_key(v)
            fs.append(it.same(s, v) if kind == "one" else coll_has(it, s, it.term(it.resolve(v))))
        return it.disj(fs)
    if isinstance(c, SetV):
        return set_contains(it, c, v)
    if isinstance(c, DictV):
        return dict_contains_f(it, c, v)
    if isinstance(c, DictView):
        if c.kind == "keys":
            return dict_contains_f(it, c.d, v)
        return it.disj([it.eq(s, v) if k == "one" else coll_has(it, s, it.term(it.resolve(v))) for k, s in iter_segs(it, c)])
    if isinstance(c, str):
        v = it.resolve(v)
        if isinstance(v, str):
            return v in c
        return z3.Function("str.contains", Obj, Obj, B)(it.term(c), it.term(v))
    if isinstance(c, SV) and c.tag is STR:
        return z3.Function("str.contains", Obj, Obj, B)(c.t, it.term(v))
    if isinstance(c, SV) and c.tag is not None and hasattr(c.tag, "contains"):
        return c.tag.contains(it, c, v)
    if isinstance(c, Inst):
        if c.ext is not None and hasattr(c.ext, "contains"):
            return c.ext.contains(it, c, v)
        m = it.find_method(c.cls, "__contains__")
        if m is not None:
            return it.truth_f(it.call(BoundMethod(c, m), [v], {}))
    if isinstance(c, HeapObj) and hasattr(c, "contains"):
        return c.contains(it, v)
    if isinstance(c, (GenExpV, Coll, SegsV)):
        return it.disj([it.eq(s, v) if k == "one" else coll_has(it, s, it.term(it.resolve(v))) for k, s in iter_segs(it, c)])
    raise Unsupported(f"in {c!r}")


def index_of(it, k, n):
    """Concrete index or None."""
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, int):
        return k
    return None


def slice_of(it, o, lo, hi, step):
    if o.concrete() and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
        return ListV(it.ctx, o.segs[slice(lo, hi, step)], o.kind)
    if lo is None and hi is None and step in (None, 1):
        return ListV(it.ctx, list(o.segs), o.kind)
    if lo is None and hi is None and step == -1:
        return ListV(it.ctx, [(k, reversed_coll(x) if k == "coll" else x) for k, x in reversed(o.segs)], o.kind)
    if step not in (None, 1) or len(o.segs) != 1:
        raise Unsupported("slice of a symbolic sequence")
    c = o.segs[0][1]
    if not (c.ordered and c.n is not None and len(c.xs) == 1 and c.xs[0].sort() == I):
        raise Unsupported("slice of a symbolic sequence")
    n = c.n if isinstance(c.n, z3.ExprRef) else z3.IntVal(c.n)

    def bound(x, default):
        if x is None:
            return default
        x = it.num(x)
        x = z3.If(x < 0, x + n, x)
        return z3.simplify(z3.If(x < 0, 0, z3.If(x > n, n, x)))

    a, b = bound(lo, z3.IntVal(0)), bound(hi, n)
    i = it.ctx.fresh("sl", I)
    m, e, f = c.at([i + a])
    size = z3.If(b > a, b - a, 0)
    return ListV(it.ctx, [("coll", Coll([i], z3.And(i >= 0, i < size, as_z3(m)), e, f, True, size, c.distinct, c.name))], o.kind)


def getitem(it, o, k):
    k = it.resolve(k)
    if isinstance(o, (tuple, str, bytes)):
        if isinstance(k, SliceV):
            parts = [it.resolve(x) for x in (k.lo, k.hi, k.step)]
            if not all(x is None or isinstance(x, int) for x in parts):
                raise Unsupported("symbolic slice")
            return o[slice(*parts)]
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError as e:
                raise PyRaise(it.exc(IndexError, e.args))
        raise Unsupported("symbolic index into a tuple")
    if isinstance(o, ListV):
        note(it, o)
        if isinstance(k, SliceV):
            return slice_of(it, o, *[it.resolve(x) for x in (k.lo, k.hi, k.step)])
        if isinstance(k, int):
            if o.concrete():
                try:
                    return o.segs[k][1]
                except IndexError as e:
                    raise PyRaise(it.exc(IndexError, e.args))
            if k < 0 and len(o.segs) >= -k and all(s[0] == "one" for s in o.segs[k:]):
                return o.segs[k][1]
            if k >= 0 and len(o.segs) > k and all(s[0] == "one" for s in o.segs[: k + 1]):
                return o.segs[k][1]
        if len(o.segs) == 1 and o.segs[0][0] == "coll" and o.segs[0][1].ordered and len(o.segs[0][1].xs) == 1 and o.segs[0][1].xs[0].sort() == I:
            c = o.segs[0][1]
            kk = it.num(k)
            if it.ctx.branch(z3.Or(kk < -c.n, kk >= c.n)):
                it.raise_(IndexError)
            m, e, f = c.at([z3.If(kk < 0, kk + c.n, kk) if not z3.is_int_value(kk) or kk.as_long() < 0 else kk])
            it.ctx.assume(m)
            return e
        raise Unsupported("index into a symbolic sequence")
    if isinstance(o, DictV):
        if it.ctx.conc is not None and o.shared:
            return it.ctx.conc.dict_get(it, o, k)
        found, v = dict_find(it, o, k)
        if not found:
            if o.default_factory is not None:
                v = it.call(o.default_factory, [], {})
                o.ops = o.ops + [("set", k, v)]
                return v
            it.raise_(KeyError, k)
        return it.check_poison(v, "dict value")
    if isinstance(o, SV) and o.tag is not None and hasattr(o.tag, "getitem"):
        return o.tag.getitem(it, o, k)
    if isinstance(o, Inst):
        if o.ext is not None and hasattr(o.ext, "getitem"):
            return o.ext.getitem(it, o, k)
        m = it.find_method(o.cls, "__getitem__")
        if m is not None:
            return it.call(BoundMethod(o, m), [k], {})
        if isinstance(o.cls, ClsV) and o.cls.fields is not None and isinstance(k, int):
            return o.attrs[o.cls.fields[k]]
    if isinstance(o, HeapObj) and hasattr(o, "getitem"):
        return o.getitem(it, k)
    if isinstance(o, (Extern, Opaque)):
        return o
    raise Unsupported(f"subscript of {o!r}")


def setitem(it, o, k, v):
    k = it.resolve(k)
    if isinstance(o, HeapObj) and it.ctx.tracker is not None:
        it.ctx.tracker(it, o, ("item", k), v)
    if isinstance(o, DictV):
        if it.ctx.conc is not None and o.shared:
            return it.ctx.conc.dict_set(it, o, k, v)
        o.ops = o.ops + [("set", k, v)]
        return
    if isinstance(o, ListV):
        if isinstance(k, int) and o.concrete():
            segs = list(o.segs)
            try:
                segs[k] = ("one", v)
            except IndexError as e:
                raise PyRaise(it.exc(IndexError, e.args))
            o.segs = segs
            return
        if isinstance(k, int) and not isinstance(k, bool):
            k = SV(z3.IntVal(k))
        if isinstance(k, SV) and k.kind == "int" and o.kind == "list" and all(s[0] != "puts" for s in o.segs):
            n = as_num(it, seq_len(it, [s for s in o.segs if s[0] != "put"]))
            if it.ctx.branch(z3.Or(k.t >= n, k.t < -n)):
                it.raise_(IndexError, "list assignment index out of range")
            o.segs = o.segs + [("put", (SV(z3.simplify(k.t + n)) if it.ctx.branch(k.t < 0) else k, v))]
            return
        raise Unsupported("assignment to an element of a symbolic sequence")
    if isinstance(o, Inst):
        if o.ext is not None and hasattr(o.ext, "setitem"):
            return o.ext.setitem(it, o, k, v)
        m = it.find_method(o.cls, "__setitem__")
        if m is not None:
            return it.call(BoundMethod(o, m), [k, v], {})
    if isinstance(o, HeapObj) and hasattr(o, "setitem"):
        return o.setitem(it, k, v)
    raise Unsupported(f"item assignment to {o!r}")


def delitem(it, o, k):
    o = it.resolve(o)
    if isinstance(o, DictV):
        if not it.ctx.branch(dict_contains_f(it, o, k)):
            it.raise_(KeyError, k)
        if it.ctx.tracker is not None:
            it.ctx.tracker(it, o, ("del", k), None)
        o.ops = o.ops + [("del", k)]
        return
    raise Unsupported("del item")


def binop(it, op, a, b):
    if isinstance(op, ast.Add):
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
            sa, sb = it.iter_segs(a), it.iter_segs(b)
            segs = sa + sb
            kind = a.kind if isinstance(a, ListV) else "tuple"
            if kind == "tuple" and all(s[0] == "one" for s in segs):
                return tuple(s[1] for s in segs)
            return ListV(it.ctx, segs, kind)
        for x in (a, b):
            if isinstance(x, SV) and x.tag is STR:
                return concat(it, [a, b])
        if isinstance(a, SV) and a.tag is not None and hasattr(a.tag, "add"):
            return a.tag.add(it, a, b)
        if isinstance(b, SV) and b.tag is not None and hasattr(b.tag, "radd"):
            return b.tag.radd(it, a, b)
    if isinstance(op, ast.Mod) and (isinstance(a, str) or (isinstance(a, SV) and a.tag is STR)):
        return SV(it.ctx.fresh("fmt"), "obj", STR)
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str,)) and isinstance(y, SV):
                return SV(it.ctx.fresh("rep"), "obj", STR)
            if isinstance(x, ListV) and isinstance(y, int):
                return ListV(it.ctx, list(x.segs) * y, x.kind)
            if isinstance(x, ListV) and isinstance(y, SV) and len(x.segs) == 1 and x.segs[0][0] == "one":
                i = it.ctx.fresh("i", I)
                return ListV(it.ctx, [("coll", Coll([i], z3.And(i >= 0, i < y.t), x.segs[0][1], None, True, y.t))], x.kind)
    if isinstance(a, DictView):
        a = as_set(it, a)
    if isinstance(b, DictView):
        b = as_set(it, b)
    if isinstance(a, SetV) and isinstance(b, SetV):
        note(it, a)
        note(it, b)
        if isinstance(op, ast.Sub):
            bops = SetV(it.ctx, b.ops)
            return SetV(it.ctx, list(a.ops) + [("filter", lambda t: it.neg(set_contains_term(it, bops, t)))])
        if isinstance(op, ast.BitOr):
            aops = SetV(it.ctx, a.ops)
            bops = SetV(it.ctx, b.ops)
            return SetV(it.ctx, list(a.ops) + [("pred", lambda t: set_contains_term(it, bops, t), set_tag(b))])
        if isinstance(op, ast.BitAnd):
            bops = SetV(it.ctx, b.ops)
            return SetV(it.ctx, list(a.ops) + [("filter", lambda t: set_contains_term(it, bops, t))])
    if isinstance(a, DictV) and isinstance(b, DictV) and isinstance(op, ast.BitOr):
        return DictV(it.ctx, list(a.ops) + list(b.ops))
    return NotImplemented


def set_tag(s):
    for op in s.ops:
        if op[0] == "add" and isinstance(op[1], SV) and op[1].tag is not None:
            return op[1].tag
        if op[0] == "coll" and isinstance(op[1].elem, SV) and op[1].elem.tag is not None:
            return op[1].elem.tag
        if op[0] == "pred" and len(op) > 2 and op[2] is not None:
            return op[2]
    return None


def as_set(it, v):
    segs = it.iter_segs(v)
    return SetV(it.ctx, [("add" if k == "one" else "coll", s) for k, s in segs])


def inplace(it, op, a, b):
    b = it.resolve(b)
    if it.ctx.tracker is not None:
        it.ctx.tracker(it, a, ("inplace",), b)
    if isinstance(a, ListV) and isinstance(op, ast.Add):
        a.segs = a.segs + it.iter_segs(b)
        return a
    if isinstance(a, SetV) and isinstance(b, (SetV, DictView)):
        r = binop(it, op, a, b)
        if r is NotImplemented:
            return None
        a.ops = r.ops
        return a
    if isinstance(a, DictV) and isinstance(op, ast.BitOr):
        a.ops = a.ops + dict_ops(it, b)
        return a
    return None


def order(it, op, a, b):
    if isinstance(a, FamRef):
        m = it.find_method(a.fam.cls, {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)])
        if m is not None:
            return it.truth_f(it.call(BoundMethod(a, m), [b], {}))
    if isinstance(a, SV) and a.tag is not None and hasattr(a.tag, "order"):
        return a.tag.order(it, op, a, b)
    if isinstance(b, SV) and b.tag is not None and hasattr(b.tag, "order"):
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(op)]()
        return b.tag.order(it, flip, b, a)
    if isinstance(a, (Inst,)):
        name = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)]
        m = it.find_method(a.cls, name)
        if m is not None:
            return it.truth_f(it.call(BoundMethod(a, m), [b], {}))
        raise Unsupported("ordering of objects")
    if isinstance(a, SetV) and isinstance(b, SetV):
        raise Unsupported("set comparison")
    return NotImplemented


# ---------------------------------------------------------------- attributes of built-in values


def get_attr(it, v, name):
    if isinstance(v, SuperV):
        return super_attr(it, v, name)
    if isinstance(v, ListV):
        f = LIST_METHODS.get(name)
        if f is not None:
            return Model(f"list.{name}", lambda it, a, k: f(it, v, a, k))
        if v.kind == "tuple" and name in ("count", "index"):
            return None
        it.raise_(AttributeError, name)
    if isinstance(v, SetV):
        f = SET_METHODS.get(name)
        if f is not None:
            return Model(f"set.{name}", lambda it, a, k: f(it, v, a, k))
        return None
    if isinstance(v, DictV):
        f = DICT_METHODS.get(name)
        if f is not None:
            return Model(f"dict.{name}", lambda it, a, k: f(it, v, a, k))
        return None
    if isinstance(v, str):
        if hasattr(v, name):
            return Model(f"str.{name}", lambda it, a, k: str_method(it, v, name, a, k))
        it.raise_(AttributeError, name)
    if isinstance(v, tuple):
        if name == "index" or name == "count":
            return Model(name, lambda it, a, k: getattr(v, name)(*a))
        it.raise_(AttributeError, name)
    if isinstance(v, BuiltinCls):
        key = f"{v.cls.__module__}.{v.cls.__qualname__}.{name}"
        if key in it.externs:
            return it.externs[key]
        if v.cls is dict and name == "fromkeys":
            def fromkeys(it, a, k):
                val = a[1] if len(a) > 1 else None
                return DictV(it.ctx, [("set", s, val) if kk == "one" else ("coll", Coll(s.xs, s.mem, (s.elem, val), s.facts, s.ordered, s.n, s.distinct))
                                      for kk, s in it.iter_segs(a[0])])
            return Model("dict.fromkeys", fromkeys)
        if name in ("__name__", "__qualname__"):
            return v.cls.__name__
        if name == "__module__":
            return v.cls.__module__
        if name == "utc" and v.cls.__name__ == "timezone":
            return UTC
        return Model(key, MODULE_FUNCS[key]) if key in MODULE_FUNCS else Extern(key)
    if isinstance(v, PyFunc):
        if name in ("__name__", "__qualname__"):
            return v.name
        if name == "__module__":
            return v.module.name
        it.raise_(AttributeError, name)
    if isinstance(v, (Model,)):
        if name in ("__name__", "__qualname__"):
            return v.name
        return None
    if isinstance(v, BoundMethod):
        if name == "__func__":
            return v.fn
        if name == "__self__":
            return v.self_
        return get_attr(it, v.fn, name)
    if isinstance(v, Extern):
        key = f"{v.name}.{name}"
        if key in it.externs:
            return it.externs[key]
        return Model(key, MODULE_FUNCS[key]) if key in MODULE_FUNCS else Extern(key)
    if isinstance(v, ExtCls):
        m = v.methods.get(name)
        if m is not None:
            return m
        return None
    if isinstance(v, Inst):
        return None
    if isinstance(v, HeapObj) and hasattr(v, "getattr"):
        return v.getattr(it, name)
    if v is None or isinstance(v, (bool, int, float)):
        if name in ("bit_length", "real", "is_integer"):
            return None
        it.raise_(AttributeError, name)
    return None


UTC = Opaque("timezone.utc")


def set_attr(it, v, name, value):
    if isinstance(v, HeapObj) and hasattr(v, "setattr_"):
        v.setattr_(it, name, value)
        return True
    return False


def type_attr(it, v, name):
    sv = it.resolve(v.v)
    if isinstance(sv, SV) and sv.tag is not None and hasattr(sv.tag, "class_attr"):
        return sv.tag.class_attr(it, sv, name)
    if name in ("__name__", "__qualname__"):
        return SV(z3.Function("type_name", Obj, Obj)(it.term(sv)), "obj", STR)
    raise Unsupported(f"attribute {name} of a type")


def super_attr(it, v, name):
    obj = it.resolve(v.obj)
    mro = it.mro(obj.cls)
    idx = next(i for i, c in enumerate(mro) if isinstance(c, ClsV) and c.qual == v.cls.qual)
    for c in mro[idx + 1:]:
        if isinstance(c, ClsV) and name in c.attrs:
            return BoundMethod(obj, c.attrs[name])
        if isinstance(c, ExtCls) and name in c.methods:
            return BoundMethod(obj, c.methods[name])
        if isinstance(c, ExtCls) and name == "__init__":
            return Model("ext.__init__", lambda it, a, k: c.make(it, c, a, {**k, "__inst__": obj}))
    if name == "__init__":
        def init(it, a, k):
            if "args" in obj.attrs:
                obj.attrs["args"] = tuple(a)
            return None
        return Model("object.__init__", init)
    if name == "__repr__":
        return Model("object.__repr__", lambda it, a, k: SV(it.ctx.fresh("repr"), "obj", STR))
    if name in ("__init_subclass__", "__enter__", "__exit__"):
        return Model("object." + name, lambda it, a, k: None)
    raise Unsupported(f"super().{name}")


def format_fields(it, s, a, k):
    """str.format with plain fields."""
    import string

    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(s))
    except ValueError as e:
        raise PyRaise(it.exc(ValueError, e.args))
    for lit, field, spec, conv in fields:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "":
            field, auto = str(auto), auto + 1
        if field.isdigit():
            if int(field) >= len(a):
                it.raise_(IndexError, "Replacement index out of range")
            v = a[int(field)]
        elif field.isidentifier():
            if field not in k:
                it.raise_(KeyError, field)
            v = k[field]
        else:
            return SV(it.ctx.fresh("format"), "obj", STR)
        parts.append(repr_(it, v) if conv == "r" else format_(it, v, spec) if spec else str_(it, v))
    return concat(it, parts)


def str_method(it, s, name, a, k):
    a = [it.resolve(x) for x in a]
    conc = (str, int, float, bool, type(None), tuple, bytes)
    if name == "join":
        segs = it.iter_segs(a[0])
        if all(kk == "one" and isinstance(x, str) for kk, x in segs):
            return s.join(x for _, x in segs)
        # a non-string element raises TypeError
        for kk, x in segs:
            y = x if kk == "one" else x.elem
            if isinstance(y, (int, float, bool, type(None), tuple)) and not isinstance(y, str):
                it.raise_(TypeError, "sequence item: expected str instance")
            if isinstance(y, SV) and y.kind == "obj" and getattr(y.tag, "name", None) == "value" and it.ctx.branch(it.ctx.fresh("not_a_string", B)):
                it.raise_(TypeError, "sequence item: expected str instance")
        if all(kk == "one" and isinstance(x, (str, SV)) and (isinstance(x, str) or x.tag is STR) for kk, x in segs):
            return concat(it, [y for i, (_, x) in enumerate(segs) for y in (([s] if i and s else []) + [x])])
        r = SV(it.ctx.fresh("join"), "obj", STR)
        it.ctx.extra.setdefault("joined", {})[r.t.get_id()] = (r.t, segs)
        return r
    if name == "format":
        if all(isinstance(x, conc) for x in a) and all(isinstance(x, conc) for x in k.values()):
            try:
                return s.format(*a, **k)
            except Exception as e:
                raise PyRaise(it.exc(type(e), e.args))
        return format_fields(it, s, a, k)
    if all(isinstance(x, conc) for x in a) and all(isinstance(x, conc) for x in k.values()):
        try:
            r = getattr(s, name)(*a, **k)
        except Exception as e:
            raise PyRaise(it.exc(type(e), e.args))
        if isinstance(r, list):
            return ListV(it.ctx, [("one", x) for x in r])
        return r
    if name in ("startswith", "endswith"):
        return SV(it.ctx.fresh("b", B))
    return SV(it.ctx.fresh("str"), "obj", STR)


def mut(it, o, what, *vals):
    if it.ctx.tracker is not None:
        it.ctx.tracker(it, o, what, vals[0] if vals else None)
    if it.ctx.conc is not None and o.shared:
        it.ctx.conc.container_mutation(it, o, what, vals)


def l_append(it, o, a, k):
    mut(it, o, ("append",), a[0])
    o.segs = o.segs + [("one", a[0])]


def l_appendleft(it, o, a, k):
    mut(it, o, ("append",), a[0])
    o.segs = [("one", a[0])] + o.segs


def l_extend(it, o, a, k):
    segs = it.iter_segs(a[0])
    mut(it, o, ("extend",))
    o.segs = o.segs + segs


def l_pop(it, o, a, k):
    mut(it, o, ("pop",))
    if o.concrete():
        i = a[0] if a else -1
        if not o.segs:
            it.raise_(IndexError, "pop from empty list")
        segs = list(o.segs)
        try:
            s = segs.pop(i)
        except IndexError as e:
            raise PyRaise(it.exc(IndexError, e.args))
        o.segs = segs
        return s[1]
    if not a and o.segs and o.segs[-1][0] == "one":
        s = o.segs[-1]
        o.segs = o.segs[:-1]
        return s[1]
    raise Unsupported("pop from a symbolic list")


def l_popleft(it, o, a, k):
    return l_pop(it, o, [0], {})


def l_copy(it, o, a, k):
    note(it, o)
    return ListV(it.ctx, o.segs, o.kind)


def l_clear(it, o, a, k):
    mut(it, o, ("clear",))
    o.segs = []


def l_reverse(it, o, a, k):
    mut(it, o, ("reverse",))
    o.segs = [s if s[0] == "one" else ("coll", unordered(s[1])) for s in reversed(o.segs)]


def unordered(c):
    return Coll(c.xs, c.mem, c.elem, c.facts, False, c.n, c.distinct, c.name)


def l_insert(it, o, a, k):
    mut(it, o, ("insert",), a[1])
    if not isinstance(a[0], int) or not o.concrete():
        raise Unsupported("insert")
    segs = list(o.segs)
    segs.insert(a[0], ("one", a[1]))
    o.segs = segs


def l_sort(it, o, a, k):
    mut(it, o, ("sort",))
    r = b_sorted(it, [o], k)
    o.segs = r.segs


LIST_METHODS = {"append": l_append, "extend": l_extend, "pop": l_pop, "popleft": l_popleft, "copy": l_copy, "clear": l_clear, "reverse": l_reverse,
                "insert": l_insert, "appendleft": l_appendleft, "sort": l_sort}


def s_add(it, o, a, k):
    mut(it, o, ("add",), a[0])
    o.ops = o.ops + [("add", it.resolve(a[0]))]


def s_discard(it, o, a, k):
    mut(it, o, ("discard",), a[0])
    o.ops = o.ops + [("del", it.resolve(a[0]))]


def s_remove(it, o, a, k):
    v = it.resolve(a[0])
    if not it.ctx.branch(set_contains(it, o, v)):
        it.raise_(KeyError, v)
    mut(it, o, ("remove",), v)
    o.ops = o.ops + [("del", v)]


def s_update(it, o, a, k):
    for x in a:
        segs = it.iter_segs(x)
        mut(it, o, ("update",))
        o.ops = o.ops + [("add" if kk == "one" else "coll", s) for kk, s in segs]


def s_difference_update(it, o, a, k):
    for x in a:
        segs = it.iter_segs(x)
        mut(it, o, ("update",))
        o.ops = o.ops + [("del" if kk == "one" else "delcoll", s) for kk, s in segs]


def s_copy(it, o, a, k):
    note(it, o)
    return SetV(it.ctx, o.ops)


def s_union(it, o, a, k):
    r = SetV(it.ctx, o.ops)
    s_update(it, r, a, k)
    return r


def s_difference(it, o, a, k):
    r = SetV(it.ctx, o.ops)
    s_difference_update(it, r, a, k)
    return r


def s_intersection(it, o, a, k):
    return binop(it, ast.BitAnd(), o, as_set(it, a[0]))


def s_isdisjoint(it, o, a, k):
    other = as_set(it, a[0])
    x = z3.Const("dj", Obj)
    return SV(z3.Not(z3.Exists([x], z3.And(as_z3(set_contains_term(it, o, x)), as_z3(set_contains_term(it, other, x))))))


SET_METHODS = {"add": s_add, "discard": s_discard, "remove": s_remove, "update": s_update, "difference_update": s_difference_update, "copy": s_copy,
               "union": s_union, "difference": s_difference, "intersection": s_intersection, "isdisjoint": s_isdisjoint,
               "__contains__": lambda it, o, a, k: wrapb(set_contains(it, o, a[0]))}


def wrapb(f):
    return f if isinstance(f, bool) else SV(f)


def d_get(it, o, a, k):
    if it.ctx.conc is not None and o.shared:
        r = it.ctx.conc.dict_get(it, o, it.resolve(a[0]), default=(a[1] if len(a) > 1 else None,))
        return r
    found, v = dict_find(it, o, a[0])
    if found:
        return it.check_poison(v, "dict value")
    return a[1] if len(a) > 1 else k.get("default")


def d_setdefault(it, o, a, k):
    found, v = dict_find(it, o, a[0])
    if found:
        return v
    v = a[1] if len(a) > 1 else None
    mut(it, o, ("set",), v)
    o.ops = o.ops + [("set", it.resolve(a[0]), v)]
    return v


def d_pop(it, o, a, k):
    found, v = dict_find(it, o, a[0])
    if found:
        mut(it, o, ("pop",))
        o.ops = o.ops + [("del", it.resolve(a[0]))]
        return v
    if len(a) > 1:
        return a[1]
    it.raise_(KeyError, a[0])


def d_update(it, o, a, k):
    mut(it, o, ("update",))
    for x in a:
        x = it.resolve(x)
        if isinstance(x, DictV):
            o.ops = o.ops + dict_ops(it, x)
        else:
            for kk, s in it.iter_segs(x):
                if kk == "one":
                    p = it.unpack(s, 2, [None, None])
                    o.ops = o.ops + [("set", it.resolve(p[0]), p[1])]
                else:
                    if not (isinstance(s.elem, tuple) and len(s.elem) == 2):
                        raise Unsupported("dict.update from a collection of non-pairs")
                    o.ops = o.ops + [("coll", s)]
    for kk, v in k.items():
        o.ops = o.ops + [("set", kk, v)]


def d_copy(it, o, a, k):
    note(it, o)
    return DictV(it.ctx, o.ops)


def d_clear(it, o, a, k):
    mut(it, o, ("clear",))
    o.ops = []


DICT_METHODS = {"get": d_get, "setdefault": d_setdefault, "pop": d_pop, "update": d_update, "copy": d_copy, "clear": d_clear,
                "keys": lambda it, o, a, k: DictView(o, "keys"), "values": lambda it, o, a, k: DictView(o, "values"),
                "items": lambda it, o, a, k: DictView(o, "items"),
                "__contains__": lambda it, o, a, k: wrapb(dict_contains_f(it, o, a[0])),
                "__getitem__": lambda it, o, a, k: getitem(it, o, a[0])}


# ---------------------------------------------------------------- built-in functions


def construct_builtin(it, c, args, kwargs):
    cls = c.cls
    if isinstance(cls, type) and issubclass(cls, BaseException):
        e = Inst(it.ctx, c, {"args": tuple(a for a in args if not isinstance(a, Star)), "__cause__": None, "__context__": None})
        return e
    key = f"construct.{cls.__name__}"
    if key in it.externs:
        return it.call(it.externs[key], args, kwargs)
    a = [x if isinstance(x, Star) else it.resolve(x) for x in args]
    if any(isinstance(x, Star) for x in a):
        raise Unsupported("construction with a symbolic number of arguments")
    if cls is list or cls is tuple:
        segs = it.iter_segs(a[0]) if a else []
        if cls is tuple and all(s[0] == "one" for s in segs):
            return tuple(s[1] for s in segs)
        return ListV(it.ctx, segs, cls.__name__)
    if cls in (set, frozenset):
        if not a:
            return SetV(it.ctx)
        if isinstance(a[0], SetV):
            note(it, a[0])
            return SetV(it.ctx, a[0].ops)
        return SetV(it.ctx, [("add" if k == "one" else "coll", s) for k, s in it.iter_segs(a[0])])
    if cls is dict:
        d = DictV(it.ctx)
        if STARKW in kwargs:
            raise Unsupported("dict(**symbolic)")
        d_update(it, d, a, kwargs)
        return d
    if cls is bool:
        return wrapb(it.truth_f(a[0])) if a else False
    if cls is int:
        if not a:
            return 0
        if isinstance(a[0], SV):
            if a[0].kind == "int":
                return a[0]
            if a[0].kind == "real":
                return SV(z3.If(a[0].t >= 0, z3.ToInt(a[0].t), -z3.ToInt(-a[0].t)))
            if a[0].kind == "bool":
                return SV(it.num(a[0]))
            if a[0].tag is not None and hasattr(a[0].tag, "int"):
                return a[0].tag.int(it, a[0])
            raise Unsupported("int of a symbolic object")
        try:
            return int(*a)
        except (TypeError, ValueError) as e:
            raise PyRaise(it.exc(type(e), e.args))
    if cls is float:
        if isinstance(a[0], SV):
            return SV(z3.ToReal(a[0].t)) if a[0].kind == "int" else a[0]
        return float(*a)
    if cls is str:
        return str_(it, a[0]) if a else ""
    if cls is type:
        return type_of(it, a[0])
    if cls is object:
        o = Inst(it.ctx, c)
        return o
    if cls is range:
        return range_segs(it, a)
    if cls is enumerate:
        return SegsV(enumerate_segs(it, it.iter_segs(a[0]), a[1] if len(a) > 1 else kwargs.get("start", 0)))
    if cls is zip:
        return SegsV(zip_segs(it, [it.iter_segs(x) for x in a]))
    if cls is reversed:
        return SegsV([s if s[0] == "one" else ("coll", reversed_coll(s[1])) for s in reversed(it.iter_segs(a[0]))])
    if cls is map:
        return SegsV(map_segs(it, a[0], [it.iter_segs(x) for x in a[1:]]))
    if cls is filter:
        return SegsV(filter_segs(it, a[0], it.iter_segs(a[1])))
    if cls is super:
        raise Unsupported("super with arguments")
    if cls.__name__ in ("Path", "PosixPath") and cls.__module__.startswith("pathlib"):
        return pure(it, "Path", a, None)
    raise Unsupported(f"construction of {cls.__name__}")


def type_of(it, v):
    v = it.resolve(v)
    if isinstance(v, SV) and v.kind == "obj":
        return TypeOf(v)
    return it.class_of(v)


def range_segs(it, a):
    a = [it.resolve(x) for x in a]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 200:
            raise Unsupported("long concrete range")
        if it.ctx.conc is not None and len(r) > 2 and r.step == 1:
            # not unrolled: threads are started in such loops
            i = it.ctx.fresh("i", I)
            return SegsV([("coll", Coll([i], z3.And(i >= 0, i < len(r)), SV(i + r.start) if r.start else SV(i), None, True, z3.IntVal(len(r)), True, "range"))])
        return SegsV([("one", i) for i in r])
    if len(a) == 1:
        lo, hi = z3.IntVal(0), it.num(a[0])
    elif len(a) == 2:
        lo, hi = it.num(a[0]), it.num(a[1])
    else:
        raise Unsupported("range with a step")
    i = it.ctx.fresh("i", I)
    n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    if z3.is_int_value(lo) and lo.as_long() == 0:
        return SegsV([("coll", Coll([i], z3.And(i >= 0, i < hi), SV(i), None, True, z3.If(hi > 0, hi, z3.IntVal(0)), True, "range"))])
    return SegsV([("coll", Coll([i], z3.And(i >= 0, i < n), SV(i + lo), None, True, n, True, "range"))])


def enumerate_segs(it, segs, start):
    out, base = [], start
    for k, s in segs:
        if k == "one":
            out.append(("one", (base, s)))
            base = it.binop(ast.Add(), base, 1)
        else:
            if s.ordered and len(s.xs) == 1 and s.xs[0].sort() == I:
                idx = SV(s.xs[0] + it.num(base)) if not (isinstance(base, int) and base == 0) else SV(s.xs[0])
                facts = s.facts
            else:
                f = z3.Function(f"enum!{it.ctx.names}", *[x.sort() for x in s.xs], I)
                it.ctx.names += 1
                idx = SV(f(*s.xs))
                facts = z3.And(f(*s.xs) >= it.num(base), *([s.facts] if s.facts is not None else []))
            out.append(("coll", Coll(s.xs, s.mem, (idx, s.elem), facts, s.ordered, s.n, s.distinct, s.name)))
            base = it.binop(ast.Add(), base, SV(coll_len(it, s)))
    return out


def zip_segs(it, lists):
    if all(all(k == "one" for k, _ in l) for l in lists):
        n = min(len(l) for l in lists)
        return [("one", tuple(l[i][1] for l in lists)) for i in range(n)]
    if all(len(l) == 1 and l[0][0] == "coll" for l in lists):
        cs = [l[0][1] for l in lists]
        first = cs[0]
        if all(len(c.xs) == len(first.xs) for c in cs):
            same = True
            elems = []
            for c in cs:
                m, e, f = c.at(first.xs)
                if not (isinstance(m, bool) or (not isinstance(first.mem, bool) and z3.simplify(m).eq(z3.simplify(first.mem)))):
                    same = False
                elems.append(e)
            if same:
                return [("coll", Coll(first.xs, first.mem, tuple(elems), first.facts, first.ordered, first.n, first.distinct, first.name))]
    raise Unsupported("zip of symbolic sequences")


def map_segs(it, fn, lists):
    from .loops import coll_comp

    segs = lists[0] if len(lists) == 1 else zip_segs(it, lists)
    out = []
    for k, s in segs:
        if k == "one":
            out.append(("one", it.call(fn, [s] if len(lists) == 1 else list(s), {})))
        else:
            out.extend(coll_comp(it, s, lambda e, xs: [("one", it.call(fn, [e] if len(lists) == 1 else list(e), {}))]))
    return out


def filter_segs(it, fn, segs):
    from .loops import coll_comp

    out = []
    for k, s in segs:
        if k == "one":
            if it.truth(s if fn is None else it.call(fn, [s], {})):
                out.append(("one", s))
        else:
            out.extend(coll_comp(it, s, lambda e, xs: [("one", e)] if it.truth(e if fn is None else it.call(fn, [e], {})) else []))
    return out


def truth_formula(it, v):
    """Truth without branching."""
    if isinstance(v, IteV):
        return it.disj([it.conj([g, truth_formula(it, x)]) for g, x in v.cases])
    if isinstance(v, SV) and v.kind == "bool":
        return v.t
    if isinstance(v, SV) and v.kind in ("int", "real") and v.tag is None:
        return v.t != 0
    if v is None or isinstance(v, (bool, int, str, float, tuple, bytes)):
        return bool(v)
    return it.truth_f(v)


def b_any(it, a, k):
    fs = []
    for kk, s in it.iter_segs(a[0]):
        if kk == "one":
            fs.append(truth_formula(it, s))
        else:
            f = it.conj([s.mem, truth_formula(it, s.elem)])
            if f is True:
                f = it.coll_nonempty(s)
                fs.append(f)
            elif f is not False:
                fs.append(z3.Exists(s.xs, f) if s.xs else f)
    return wrapb(it.disj(fs))


def b_all(it, a, k):
    fs = []
    for kk, s in it.iter_segs(a[0]):
        if kk == "one":
            fs.append(truth_formula(it, s))
        else:
            f = it.disj([it.neg(s.mem), truth_formula(it, s.elem)])
            if isinstance(f, bool):
                fs.append(f if f else it.neg(it.coll_nonempty(s)))
            else:
                fs.append(z3.ForAll(s.xs, f) if s.xs else f)
    return wrapb(it.conj(fs))


def b_len(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, (tuple, str, bytes)):
        return len(v)
    if isinstance(v, ListV):
        note(it, v)
        return seq_len(it, v.segs)
    if isinstance(v, (DictV, DictView, SetV)):
        if isinstance(v, DictView):
            v = v.d
        note(it, v)
        if isinstance(v, SetV) and v.ops and not all(o[0] == "add" for o in v.ops) and len(v.ops) > 1:
            x = it.ctx.fresh("e", Obj)
            return SV(coll_len(it, Coll([x], as_z3(set_contains_term(it, v, x)), SV(x))))
        segs = set_segs(it, v) if isinstance(v, SetV) else dict_items(it, v)
        return seq_len(it, segs)
    if isinstance(v, SV) and v.tag is not None and hasattr(v.tag, "len"):
        return v.tag.len(it, v)
    if isinstance(v, SV) and v.tag is STR:
        return SV(strlen(v.t))
    if isinstance(v, Inst):
        if v.ext is not None and hasattr(v.ext, "len"):
            return v.ext.len(it, v)
        m = it.find_method(v.cls, "__len__")
        if m is not None:
            return it.call(BoundMethod(v, m), [], {})
        if isinstance(v.cls, ClsV) and v.cls.fields is not None:
            return len(v.cls.fields)
    if isinstance(v, HeapObj) and hasattr(v, "len"):
        return v.len(it)
    if v is None or isinstance(v, (int, float)):
        it.raise_(TypeError, "object has no len()")
    raise Unsupported(f"len of {v!r}")


def elem_num(it, c):
    """Numeric term of a collection's elements; TypeError if one may be None."""
    def conv(v):
        if isinstance(v, IteV):
            out = None
            for g, x in v.cases:
                if x is None or not (isinstance(x, (int, float)) or (isinstance(x, SV) and x.kind in ("int", "real"))):
                    if x is None:
                        f = z3.And(as_z3(c.mem), g)
                        if it.ctx._check(f, timeout=2000) != z3.unsat:
                            if it.ctx.branch(z3.Exists(c.xs, f) if c.xs else f):
                                it.raise_(TypeError, "ordering with None")
                        continue
                    raise Unsupported("max of non-numbers")
                t = it.num(x)
                out = t if out is None else z3.If(g, t, out)
            return out if out is not None else z3.RealVal(0)
        return it.num(v)
    if isinstance(c.elem, SV) and c.elem.tag is not None and hasattr(c.elem.tag, "as_num"):
        return c.elem.tag.as_num(it, c.elem)
    return conv(c.elem)


def real_cases(v):
    """The numbers among the alternatives of a value."""
    if isinstance(v, IteV):
        return [y for _, x in v.cases for y in real_cases(x)]
    return [v] if isinstance(v, SV) else [SV(z3.IntVal(0))] if v is not None else []


def b_extreme(it, a, k, sign):
    a = [it.resolve(x) for x in a]
    segs = it.iter_segs(a[0]) if len(a) == 1 else [("one", x) for x in a]
    key = k.get("key")
    if not segs:
        if "default" in k:
            return k["default"]
        it.raise_(ValueError, "max() arg is an empty sequence")
    if key is not None:
        if all(s[0] == "one" for s in segs) and len(segs) == 1:
            return segs[0][1]
        raise Unsupported("max with a key")
    if all(s[0] == "one" for s in segs):
        cur = segs[0][1]
        for _, x in segs[1:]:
            if it.ctx.branch(it.compare(ast.Gt() if sign > 0 else ast.Lt(), x, cur)):
                cur = x
        return cur
    ctx = it.ctx
    nonempty = it.disj([True if kk == "one" else it.coll_nonempty(s) for kk, s in segs])
    if not ctx.branch(nonempty):
        if "default" in k:
            return k["default"]
        it.raise_(ValueError, "max() arg is an empty sequence")
    terms = []
    for kk, s in segs:
        if kk == "one":
            if it.resolve(s) is None:
                it.raise_(TypeError, "ordering with None")
            terms.append((None, it.num(s)))
        else:
            if isinstance(s.elem, SV) and s.elem.tag is STR:
                return SV(ctx.fresh("max"), "obj", STR)
            terms.append((s, elem_num(it, s)))
    sort = R if any(t.sort() == R for _, t in terms) else I
    m = ctx.fresh("max", sort)
    hits = []
    for s, t in terms:
        if t.sort() != sort:
            t = z3.ToReal(t)
        if s is None:
            ctx.assume(t <= m if sign > 0 else t >= m)
            hits.append(t == m)
        else:
            body = z3.Implies(as_z3(s.mem), t <= m if sign > 0 else t >= m)
            ctx.assume(z3.ForAll(s.xs, body) if s.xs else body)
            h = z3.And(as_z3(s.mem), t == m)
            hits.append(z3.Exists(s.xs, h) if s.xs else h)
    ctx.assume(z3.Or(*hits))
    tags = {id(x.tag): x.tag for x in [s.elem if kk == "coll" else s for kk, s in segs] for x in real_cases(x)}
    return SV(m, None, list(tags.values())[0] if len(tags) == 1 else None)


def b_sum(it, a, k):
    segs = it.iter_segs(a[0])
    total = a[1] if len(a) > 1 else k.get("start", 0)
    for kk, s in segs:
        if kk != "one":
            if isinstance(s.elem, int) and not isinstance(s.elem, bool):
                total = it.binop(ast.Add(), total, SV(coll_len(it, s) * s.elem))
                continue
            hook = it.externs.get("sum_hook")
            if hook is not None:
                total = it.binop(ast.Add(), total, hook(it, s))
                continue
            raise Unsupported("sum over a symbolic collection")
        total = it.binop(ast.Add(), total, s)
    return total


def b_sorted(it, a, k):
    segs = it.iter_segs(a[0])
    hook = it.externs.get("sorted_hook")
    if hook is not None:
        r = hook(it, segs, k)
        if r is not NotImplemented:
            return r
    if all(s[0] == "one" for s in segs):
        vals = [s[1] for s in segs]
        keys = [it.call(k["key"], [v], {}) for v in vals] if k.get("key") is not None else vals
        if all(isinstance(x, (int, str, float)) for x in keys):
            idx = sorted(range(len(vals)), key=lambda i: keys[i], reverse=bool(k.get("reverse", False)))
            return ListV(it.ctx, [("one", vals[i]) for i in idx])
        if len(vals) <= 1:
            return ListV(it.ctx, segs)
    raise Unsupported("sorted of symbolic values")


def b_isinstance(it, a, k):
    return wrapb(it.isinstance_f(a[0], it.resolve(a[1])))


def b_issubclass(it, a, k):
    return it.issub(it.resolve(a[0]), it.resolve(a[1]))


def b_callable(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, (PyFunc, Model, BoundMethod, ClsV, BuiltinCls, ExtCls)):
        return True
    if v is None or isinstance(v, (int, str, float, tuple, ListV, SetV, DictV)):
        return False
    if isinstance(v, SV):
        if v.kind != "obj":
            return False
        if v.tag is not None and hasattr(v.tag, "callable"):
            return wrapb(v.tag.callable(it, v))
        return SV(z3.Function("callable", Obj, B)(v.t))
    if isinstance(v, Inst):
        return it.find_method(v.cls, "__call__") is not None
    raise Unsupported(f"callable of {v!r}")


def b_getattr(it, a, k):
    name = it.resolve(a[1])
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    if len(a) > 2:
        try:
            return it.getattr(a[0], name)
        except PyRaise as pe:
            if it.exc_matches(pe.exc, BuiltinCls(AttributeError)):
                return a[2]
            raise
    return it.getattr(a[0], name)


def b_hasattr(it, a, k):
    try:
        it.getattr(a[0], it.resolve(a[1]))
        return True
    except PyRaise as pe:
        if it.exc_matches(pe.exc, BuiltinCls(AttributeError)):
            return False
        raise


def b_setattr(it, a, k):
    it.setattr(a[0], it.resolve(a[1]), a[2])


def b_iter(it, a, k):
    return SegsV(it.iter_segs(a[0]))


def b_next(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, SegsV):
        while v.segs:
            kk, s = v.segs[0]
            if kk == "one":
                v.segs = v.segs[1:]
                return s
            if it.ctx.branch(it.coll_nonempty(s)):
                ws = [it.ctx.fresh("nx", x.sort()) for x in s.xs]
                m, e, f = s.at(ws)
                it.ctx.assume(m)
                ne = z3.Not(z3.And(*[x == w for x, w in zip(s.xs, ws)]))
                v.segs = [("coll", Coll(s.xs, z3.And(as_z3(s.mem), ne), s.elem, s.facts, False, None, s.distinct))] + v.segs[1:]
                return e
            v.segs = v.segs[1:]
        if len(a) > 1:
            return a[1]
        it.raise_(StopIteration)
    if isinstance(v, GenExpV):
        sv = SegsV(v.segs())
        return b_next(it, [sv] + list(a[1:]), k)
    raise Unsupported("next")


def b_id(it, a, k):
    return SV(z3.Function("id", Obj, I)(it.term(a[0])))


def b_hash(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, Inst):
        m = it.find_method(v.cls, "__hash__")
        if m is not None:
            return it.call(BoundMethod(v, m), [], {})
    return SV(z3.Function("hash", Obj, I)(it.term(v)))


def b_abs(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    t = it.num(v)
    return SV(z3.If(t >= 0, t, -t))


def b_print(it, a, k):
    key = "builtins.print_hook"
    if key in it.externs:
        return it.externs[key](it, a, k)
    raise Unsupported("print")


def b_divmod(it, a, k):
    return (it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1]))


BUILTINS = {
    "any": b_any, "all": b_all, "len": b_len, "max": lambda it, a, k: b_extreme(it, a, k, 1), "min": lambda it, a, k: b_extreme(it, a, k, -1),
    "sum": b_sum, "sorted": b_sorted, "isinstance": b_isinstance, "issubclass": b_issubclass, "callable": b_callable, "getattr": b_getattr,
    "hasattr": b_hasattr, "setattr": b_setattr, "iter": b_iter, "next": b_next, "id": b_id, "hash": b_hash, "abs": b_abs, "repr": lambda it, a, k: repr_(it, a[0]),
    "print": b_print, "divmod": b_divmod, "format": lambda it, a, k: format_(it, a[0], a[1] if len(a) > 1 else ""),
}


def m_product(it, a, k):
    lists = [it.iter_segs(x) for x in a]

    def rec(i, prefix):
        if i == len(lists):
            return [prefix]
        out = []
        for s in lists[i]:
            out += rec(i + 1, prefix + [s])
        return out

    segs = []
    for combo in rec(0, []):
        if all(s[0] == "one" for s in combo):
            segs.append(("one", tuple(s[1] for s in combo)))
            continue
        xs, mems, elems, facts = [], [], [], []
        for kk, s in combo:
            if kk == "one":
                elems.append(s)
                continue
            ws = [it.ctx.fresh("p", x.sort()) for x in s.xs]
            m, e, f = s.at(ws)
            xs += ws
            mems.append(m)
            elems.append(e)
            if f is not None:
                facts.append(f)
        segs.append(("coll", Coll(xs, as_z3(it.conj(mems)), tuple(elems), z3.And(*facts) if facts else None, False, None, True, "prod")))
    return SegsV(segs)


def m_chain(it, a, k):
    out = []
    for x in a:
        out += it.iter_segs(x)
    return SegsV(out)


def m_partial(it, a, k):
    fn, rest = a[0], list(a[1:])
    return Model("partial", lambda it, b, kk: it.call(fn, rest + list(b), {**k, **kk}))


def m_wraps(it, a, k):
    """functools.wraps: copies the names of the function, which may be anything if it is the user's."""
    if it.user(it.resolve(a[0])) and it.ctx.choose(2, "names are strings"):
        it.raise_(TypeError, "__name__ must be set to a string object")
    return Model("wraps", lambda it, b, kk: b[0])


def cached(it, f, typed):
    """functools.lru_cache: the arguments are hashed, which a user's class may refuse; the result is that for equal
    arguments (of the same class, if typed), which were given earlier.  That f depends on its arguments only is assumed."""
    it.ctx.x.assumed.add("a function under lru_cache depends on its arguments only")

    def one(v):
        v = it.resolve(v)
        if isinstance(v, (ListV, DictV, SetV)) and getattr(v, "kind", "") != "tuple":
            it.raise_(TypeError, "unhashable type")
        if not it.user(v):
            return v
        if not isinstance(v, SV):
            raise Unsupported("lru_cache of a user's object")
        if it.ctx.choose(2, "hashable"):
            it.raise_(TypeError, "unhashable type")
        if it.ctx.choose(2, "cached") == 0:
            return v
        y = SV(it.ctx.fresh("equal"), v.kind, v.tag)
        it.ctx.assume(z3.Function("user_eq", Obj, Obj, B)(y.t, v.t))
        if typed:
            cls = z3.Function("class_of", Obj, Obj)
            it.ctx.assume(cls(y.t) == cls(v.t))
        return y

    return Model("lru_cache", lambda it, a, k: it.call(f, [one(v) for v in a], {n: one(v) for n, v in k.items()}))


def m_lru_cache(it, a, k):
    fns = (PyFunc, Model, BoundMethod)
    if len(a) == 1 and isinstance(it.resolve(a[0]), fns):
        return cached(it, it.resolve(a[0]), False)
    typed = k.get("typed", a[1] if len(a) > 1 else False)
    return Model("lru_cache", lambda it, b, kk: cached(it, it.resolve(b[0]), it.truth(typed)))


class ReprExt:
    """An instance of reprlib.Repr: its limits can be set; repr raises for some objects (assumed: with an Exception)."""

    def truth(self, it, inst):
        return True

    def setattr(self, it, inst, name, value):
        return name.startswith("max") or name in ("fillvalue", "indent")

    def getattr(self, it, inst, name):
        if name in ("repr", "repr1"):
            return Model("Repr.repr", self.repr)
        return None

    def repr(self, it, a, k):
        v = it.resolve(a[0])
        if not isinstance(v, (str, int, float, bool, type(None), bytes)) and it.ctx.choose(2, "shown"):
            it.raise_(ValueError, "its __repr__ fails")
        return SV(it.ctx.fresh("repr"), "obj", STR)


def m_repr_class(it, a, k):
    r = Inst(it.ctx, Opaque("Repr"))
    r.ext = ReprExt()
    return r


def m_counter(it, a, k):
    """collections.Counter(iterable): key -> number of elements with that key (kept as the collection itself)."""
    segs = it.iter_segs(a[0]) if a else []
    return CounterV(it.ctx, segs)


class CounterV(HeapObj):
    FIELDS = ("segs",)
    __slots__ = ("segs",)

    def __init__(self, ctx, segs):
        self.init_heap(ctx)
        self.segs = list(segs)

    def getattr(self, it, name):
        if name == "items":
            def items(it, a, k):
                hook = it.externs.get("counter_items")
                if hook is None:
                    raise Unsupported("Counter.items")
                return hook(it, self)
            return Model("Counter.items", items)
        return None

    def iterate(self, it):
        raise Unsupported("iteration over a Counter")


MODULE_FUNCS = {
    "itertools.product": m_product, "itertools.chain": m_chain, "functools.partial": m_partial, "functools.wraps": m_wraps, "functools.lru_cache": m_lru_cache, "reprlib.Repr": m_repr_class,
    "builtins.object.__repr__": lambda it, a, k: SV(it.ctx.fresh("repr"), "obj", STR), "functools.cache": m_lru_cache,
    "collections.Counter": m_counter,
}
