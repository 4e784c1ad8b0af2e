"""Heap objects and collections of the interpreted program."""
import z3

from .core import B, HeapObj, I, IteV, Obj, Opaque, Poison, PyRaise, R, SV, Unsupported, Value


class Coll(Value):
    """A symbolic finite collection: elem(xs) for every xs with mem(xs)."""

    __slots__ = ("xs", "mem", "elem", "facts", "ordered", "n", "distinct", "name", "unique_keys")

    def __init__(self, xs, mem, elem, facts=None, ordered=False, n=None, distinct=True, name="coll", unique_keys=False):
        self.unique_keys = unique_keys  # the items of a dict that was one from the start
        self.xs, self.mem, self.elem, self.facts = list(xs), mem, elem, facts
        self.ordered, self.n, self.distinct, self.name = ordered, n, distinct, name

    def at(self, ts):
        sub = list(zip(self.xs, ts))
        return subst_f(self.mem, sub), subst(self.elem, sub), subst_f(self.facts, sub) if self.facts is not None else None


class Env(HeapObj):
    FIELDS = ("vars",)
    __slots__ = ("vars", "parent", "module", "func", "nonlocals", "globals_", "locals_", "ctxglobals")

    def __init__(self, ctx, parent, module, func=None, locals_=(), nonlocals=(), globals_=()):
        self.init_heap(ctx)
        self.vars = {}
        self.parent, self.module, self.func = parent, module, func
        self.locals_, self.nonlocals, self.globals_ = locals_, nonlocals, globals_


class PyFunc(Value):
    __slots__ = ("node", "module", "env", "name", "cls", "defaults", "kwdefaults", "decorators", "is_gen", "qual", "info")

    def __repr__(self):
        return f"<PyFunc {self.qual}>"


class BoundMethod(Value):
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Model(Value):
    """A function modelled by the verifier: call(interp, args, kwargs)."""

    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<Model {self.name}>"


class UserModel(Model):
    """Something callable that the user gives: nothing is known about its truth."""

    __slots__ = ()


class ModuleV(Value):
    """A standard or third-party module, by name."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class ClsV(Value):
    __slots__ = ("name", "module", "node", "bases", "attrs", "qual", "fields", "env")

    def __repr__(self):
        return f"<ClsV {self.qual}>"


class BuiltinCls(Value):
    __slots__ = ("cls", "name")

    def __init__(self, cls, name=None):
        self.cls = cls
        self.name = name or cls.__name__

    def __repr__(self):
        return f"<BuiltinCls {self.name}>"


class ExtCls(Value):
    """A class outside the repository with modelled construction (e.g. threading.Thread)."""

    __slots__ = ("name", "make", "methods")

    def __init__(self, name, make, methods=None):
        self.name, self.make, self.methods = name, make, methods or {}


class Inst(HeapObj):
    FIELDS = ("attrs",)
    __slots__ = ("cls", "attrs", "ext")

    def __init__(self, ctx, cls, attrs=None):
        self.init_heap(ctx)
        self.cls = cls
        self.attrs = attrs or {}
        self.ext = None

    def __repr__(self):
        return f"<Inst {getattr(self.cls, 'name', self.cls)}#{self.oid}>"


class Fam(HeapObj):
    """One object per element of a collection. attrs: name -> list of (xs, guard, value), last match wins."""

    FIELDS = ("attrs",)
    __slots__ = ("cls", "attrs", "xs", "f")

    def __init__(self, ctx, cls, xs, attrs):
        self.init_heap(ctx)
        self.cls, self.xs, self.attrs = cls, xs, attrs


class FamRef(Value):
    __slots__ = ("fam", "ts")

    def __init__(self, fam, ts):
        self.fam, self.ts = fam, list(ts)

    def __repr__(self):
        return f"<FamRef {self.fam.cls}#{self.fam.oid}({self.ts})>"


class ListV(HeapObj):
    """list, tuple (frozen) or deque: segments ('one', v) | ('coll', Coll)."""

    FIELDS = ("segs",)
    __slots__ = ("segs", "kind")

    def __init__(self, ctx, segs=(), kind="list"):
        self.init_heap(ctx)
        self.segs = list(segs)
        self.kind = kind

    def concrete(self):
        return all(s[0] == "one" for s in self.segs)

    def items(self):
        if not self.concrete():
            raise Unsupported("a sequence of symbolic length is used element by element")
        return [s[1] for s in self.segs]


class SetV(HeapObj):
    """ops: ('add', v) | ('del', v) | ('coll', Coll) | ('delif', fn term -> Bool) | ('pred', fn term -> Bool)."""

    FIELDS = ("ops",)
    __slots__ = ("ops", "kind")

    def __init__(self, ctx, ops=()):
        self.init_heap(ctx)
        self.ops = list(ops)
        self.kind = "set"


class DictV(HeapObj):
    """ops: ('set', k, v) | ('del', k) | ('coll', Coll of (k, v) tuples) | ('base', dom, val)."""

    FIELDS = ("ops",)
    __slots__ = ("ops", "default_factory", "kind")

    def __init__(self, ctx, ops=()):
        self.init_heap(ctx)
        self.ops = list(ops)
        self.default_factory = None
        self.kind = "dict"


class GenV(Value):
    """A generator: a function body to be run with a handler for its yields."""

    __slots__ = ("fn", "env", "started")

    def __init__(self, fn, env):
        self.fn, self.env, self.started = fn, env, False


class CM(Value):
    """Context manager made by @contextmanager."""

    __slots__ = ("gen",)

    def __init__(self, gen):
        self.gen = gen


class TypeOf(Value):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Schema:
    """Behaviour of symbolic objects of a given sort of thing."""

    name = "obj"

    def getattr(self, it, sv, name):
        raise Unsupported(f"attribute {name} of a symbolic {self.name}")

    def setattr(self, it, sv, name, value):
        raise Unsupported(f"assignment to attribute {name} of a symbolic {self.name}")

    def type_is(self, it, sv, cls):
        raise Unsupported(f"type of a symbolic {self.name}")

    def isinstance(self, it, sv, cls):
        return self.type_is(it, sv, cls)

    def call(self, it, sv, args, kwargs):
        raise Unsupported(f"call of a symbolic {self.name}")

    def truth(self, it, sv):
        raise Unsupported(f"truth of a symbolic {self.name}")

    def iterate(self, it, sv):
        raise Unsupported(f"iteration over a symbolic {self.name}")


def subst_f(f, sub):
    if f is None or f is True or f is False or not sub:
        return f
    if isinstance(f, bool):
        return f
    return z3.substitute(f, *sub)


def subst(v, sub):
    """Substitute z3 constants in a value."""
    if not sub:
        return v
    if isinstance(v, SV):
        return SV(z3.substitute(v.t, *sub), v.kind, v.tag)
    if isinstance(v, tuple):
        return tuple(subst(x, sub) for x in v)
    if isinstance(v, IteV):
        return IteV([(subst_f(g, sub), subst(x, sub)) for g, x in v.cases])
    if isinstance(v, FamRef):
        return FamRef(v.fam, [z3.substitute(t, *sub) for t in v.ts])
    if isinstance(v, Coll):
        xs = {x.get_id() for x in v.xs}
        sub = [(a, b) for a, b in sub if a.get_id() not in xs]
        return Coll(v.xs, subst_f(v.mem, sub), subst(v.elem, sub), subst_f(v.facts, sub), v.ordered, subst_f(v.n, sub), v.distinct, v.name)
    if isinstance(v, TypeOf):
        return TypeOf(subst(v.v, sub))
    if isinstance(v, BoundMethod):
        return BoundMethod(subst(v.self_, sub), v.fn)
    if hasattr(v, "subst_"):
        return v.subst_(sub)
    return v


def walk(v, seen=None):
    """All values reachable inside immutable structure."""
    yield v
    if isinstance(v, tuple):
        for x in v:
            yield from walk(x)
    elif isinstance(v, IteV):
        for _, x in v.cases:
            yield from walk(x)
    elif isinstance(v, BoundMethod):
        yield from walk(v.self_)
    elif isinstance(v, Coll):
        yield from walk(v.elem)


def term_vars(t, out):
    """Collect uninterpreted constants (and applications of arity 0) in a z3 term."""
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[e.decl().name()] = e
            todo.extend(e.children())
    return out
