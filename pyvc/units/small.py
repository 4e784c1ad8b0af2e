"""Small functions other contracts rely on: sources which hold their value, argument binding, progress presets, pickled errors."""
import z3

from ..core import B, I, Obj, Opaque, PyRaise, SV, Unsupported
from ..interp import Star, truthy
from ..models import STR, as_z3
from ..values import ClsV, Coll, Inst, ListV, Model
from .base import describe_exc, returns, tag, unit
from .fs import ANY
from .graphs import NODE
from .times import TIME

ST = "uberjob.stores."


@unit("stores.sources", ["C12", "C05"], covers=("literal", "modified time"))
def sources(ctx, it):
    """LiteralSource and ModifiedTimeSource return what they were made with, every time."""
    T = ["C12", "C05"]
    which = ctx.choose(2, "which")
    none = ctx.choose(2, "time") == 1
    mt = None if none else SV(ctx.fresh("modified_time"), "obj", TIME)
    value = SV(ctx.fresh("value"), "obj", ANY)
    name = "ModifiedTimeSource" if which else "LiteralSource"
    t = lambda text: tag(T, f"{name}: {text}")
    if which:
        cls, args, want = ST + "_modified_time_source.ModifiedTimeSource", [mt], mt
    else:
        cls, args, want = ST + "_literal_source.LiteralSource", [value, mt], value
    s = returns(ctx, t("can be made"), lambda: it.call(it.glob(cls), args, {}))
    for _ in range(2):
        r = returns(ctx, t("get_modified_time does not raise"), lambda: it.call(it.getattr(s, "get_modified_time"), [], {}))
        ctx.prove(t("get_modified_time is the time it was made with"), it.is_(r, mt))
        r = returns(ctx, t("read does not raise"), lambda: it.call(it.getattr(s, "read"), [], {}))
        ctx.prove(t("read returns the value it was made with"), it.is_(r, want))
    try:
        it.call(it.getattr(s, "write"), [SV(ctx.fresh("other"), "obj", ANY)], {})
    except PyRaise:
        pass
    r = returns(ctx, t("read does not raise"), lambda: it.call(it.getattr(s, "read"), [], {}))
    ctx.prove(t("a source cannot be overwritten"), it.is_(r, want))
    ctx.cover("modified time" if which else "literal")


@unit("validation.can_bind", ["C02"], covers=("bound", "refused", "no signature"))
def can_bind(ctx, it):
    """assert_can_bind: TypeError if the signature refuses the arguments, otherwise nothing, also for callables that are
    not hashable or equal to others; the function is not called."""
    t = lambda text: tag(["C02"], "assert_can_bind: " + text)
    fn = SV(ctx.fresh("fn"), "obj", ANY)
    seen = []
    it.externs["builtins.callable"] = Model("callable", lambda it, a, k: True)
    it.call_contracts["uberjob._util.fully_qualified_name"] = lambda it, a, k: SV(ctx.fresh("name"), "obj", STR)

    def signature(it, a, k):
        """inspect.signature (assumed): a signature, or ValueError if there is none."""
        g = it.resolve(a[0])
        same = it.is_(g, fn)
        if same is not True and isinstance(g, SV):
            cls = z3.Function("class_of", Obj, Obj)
            same = z3.Or(as_z3(same), cls(g.t) == cls(fn.t))
            ctx.x.assumed.add("equal callables of one class have one signature")
        ctx.prove(t("the signature of the function itself is asked for, or of one of its class"), same)
        if k or len(a) != 1:
            raise Unsupported("inspect.signature")
        if ctx.choose(2, "signature"):
            it.raise_(ValueError, "no signature")
        sig = Inst(ctx, Opaque("Signature"))
        sig.ext = type("SigExt", (), {"truth": lambda s, it, i: True, "getattr": lambda s, it, i, n: Model("bind", bind) if n == "bind" else None})()
        return sig

    def bind(it, a, k):
        seen.append((a, k))
        if ctx.choose(2, "bind"):
            it.raise_(TypeError, "does not bind")
        return Inst(ctx, Opaque("BoundArguments"))

    it.externs["inspect.signature"] = Model("signature", signature)
    args = [SV(ctx.fresh(f"arg{i}"), "obj", ANY) for i in range(2)]
    kw = {n: SV(ctx.fresh(n), "obj", ANY) for n in ("fn", "x")}
    try:
        it.call(it.glob("uberjob._util.validation.assert_can_bind"), [fn] + args, kw)
    except PyRaise as e:
        ctx.cover("refused")
        ctx.prove(t("the arguments that are checked are those given"), len(seen) == 1 and len(seen[0][0]) == 2 and sorted(seen[0][1]) == ["fn", "x"])
        ctx.prove(t("refuses with a TypeError"), describe_exc(e.exc).startswith("TypeError"))
        return
    ctx.cover("bound" if seen else "no signature")
    if seen:
        a, k = seen[0]
        ok = len(seen) == 1 and len(a) == 2 and sorted(k) == ["fn", "x"]
        ctx.prove(t("the arguments that are checked are those given"), ok and z3.And(*[z3.BoolVal(it.is_(x, y)) if isinstance(it.is_(x, y), bool) else it.is_(x, y)
                                                                                  for x, y in [(a[0], args[0]), (a[1], args[1]), (k["fn"], kw["fn"]), (k["x"], kw["x"])]]))


class Named(type(ANY)):
    """An object with attributes __qualname__, __module__ and __class__, of which the first two may be missing."""

    name = "callable"
    user = True
    cls = z3.Function("class_of", Obj, Obj)
    missing = z3.Function("has_no_name", Obj, B)

    def truth(self, it, sv):
        return truthy(sv.t)

    def getattr(self, it, sv, name):
        if name == "__qualname__":
            if it.ctx.branch(self.missing(sv.t)):
                it.raise_(AttributeError, name)
            return SV(z3.Function("qualname_of", Obj, Obj)(sv.t), "obj", STR)
        if name == "__module__":
            return self.module(it, sv.t)
        if name == "__name__":
            raise Unsupported("__name__")
        it.raise_(AttributeError, name)

    def module(self, it, t):
        if it.ctx.branch(z3.Function("has_no_module", Obj, B)(t)):
            return None
        return SV(z3.Function("module_of", Obj, Obj)(t), "obj", STR)

    def class_attr(self, it, sv, name):
        c = self.cls(sv.t)
        if name == "__qualname__":
            r = SV(z3.Function("qualname_of", Obj, Obj)(c), "obj", STR)
            it.ctx.assume(truthy(r.t))
            return r
        if name == "__module__":
            return self.module(it, c)
        raise Unsupported(f"class attribute {name}")


NAMED = Named()


@unit("util.qualified_name", ["C02", "C15"], covers=("own name", "name of its class"))
def qualified_name(ctx, it):
    """fully_qualified_name: never raises, and depends on the callable alone: not on others that are equal to it, or were named before."""
    t = lambda text: tag(["C02", "C15"], "fully_qualified_name: " + text)
    it.externs["builtins.callable"] = Model("callable", lambda it, a, k: True)
    fn = SV(ctx.fresh("fn"), "obj", NAMED)
    other = SV(ctx.fresh("other"), "obj", NAMED)
    f = it.glob("uberjob._util.fully_qualified_name")
    first = returns(ctx, t("does not raise"), lambda: it.call(f, [fn], {}))
    returns(ctx, t("does not raise"), lambda: it.call(f, [other], {}))
    again = returns(ctx, t("does not raise"), lambda: it.call(f, [fn], {}))
    ctx.cover("name of its class" if ctx.branch(Named.missing(fn.t)) else "own name")
    ctx.prove(t("the name is always the same"), it.eq(first, again))


@unit("progress.presets", ["C15", "C20"], covers=("console_progress", "ipython_progress", "html_progress", "null_progress"))
def presets(ctx, it):
    """Every bundled Progress makes a new observer each time; two observers share no state."""
    name = ("console_progress", "ipython_progress", "html_progress", "null_progress")[ctx.choose(4, "preset")]
    t = lambda text: tag(["C15", "C20"], f"{name}: {text}")
    from .progress import clock
    clock(it)
    for n in ("threading.Lock", "threading.Event", "threading.RLock"):
        it.externs[n] = Model(n, lambda it, a, k: Inst(ctx, Opaque("Lock")))
    p = it.glob("uberjob.progress." + name)
    if name == "html_progress":
        p = returns(ctx, t("can be made"), lambda: it.call(p, [Model("output", lambda it, a, k: None)], {}))
    a, b = [returns(ctx, t("an observer can be made"), lambda: it.call(it.getattr(p, "observer"), [], {})) for _ in range(2)]
    a, b = it.resolve(a), it.resolve(b)
    ctx.cover(name)
    if not isinstance(a, Inst) or not isinstance(b, Inst):
        raise Unsupported("an observer of another kind")
    ctx.prove(t("observers are of the same class"), a.cls is b.cls)
    if name == "null_progress":
        return
    ctx.prove(t("every run has its own observer"), a is not b)
    shared = [n for n in a.attrs if mutable(it.resolve(a.attrs[n])) and n in b.attrs and it.resolve(a.attrs[n]) is it.resolve(b.attrs[n])]
    ctx.prove(t("two observers share no state"), not shared)


def mutable(v):
    from ..core import HeapObj
    return isinstance(v, HeapObj)


@unit("errors.reduce", ["C06", "C19"], covers=("CallError", "NodeError"))
def reduce_(ctx, it):
    """__reduce__ of the errors: the class and the node, from which an equal error is made."""
    name = ("CallError", "NodeError")[ctx.choose(2, "class")]
    t = lambda text: tag(["C06", "C19"], f"{name}: {text}")
    it.call_contracts["uberjob._util.fully_qualified_name"] = lambda it, a, k: SV(ctx.fresh("name"), "obj", STR)
    it.call_contracts["uberjob._util.traceback.render_symbolic_traceback"] = lambda it, a, k: SV(ctx.fresh("traceback"), "obj", STR)
    node = SV(ctx.fresh("node"), "obj", NODE)
    from .graphs import install_graph, is_call
    install_graph(it)
    ctx.assume(is_call(node.t))
    cls = it.glob("uberjob._errors." + name)
    attr = "call" if name == "CallError" else "node"
    e = returns(ctx, t("can be made"), lambda: it.call(cls, [node], {}))
    ctx.prove(t("carries the node"), it.is_(it.getattr(e, attr), node))
    r = it.resolve(returns(ctx, t("can be reduced"), lambda: it.call(it.getattr(e, "__reduce__"), [], {})))
    ctx.cover(name)
    if not isinstance(r, tuple) or len(r) < 2 or not isinstance(it.resolve(r[1]), tuple):
        raise Unsupported("__reduce__")
    again = returns(ctx, t("can be made again from what it reduces to"), lambda: it.call(r[0], list(it.resolve(r[1])), {}))
    ctx.prove(t("the class is kept"), it.resolve(again).cls is e.cls)
    ctx.prove(t("the node is kept"), it.is_(it.getattr(again, attr), node))
