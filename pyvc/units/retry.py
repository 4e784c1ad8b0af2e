"""create_retry: at most n attempts, stop at the first success, the last failure is raised (C10)."""
import z3

from ..core import B, I, Obj, Opaque, PyRaise, SV, Value
from ..interp import Star, STARKW
from ..values import BoundMethod, BuiltinCls, Coll, Inst, Model, UserModel, ModuleV
from .base import returns, tag, unit
from .fs import ANY


class ExcSchema:
    """An exception raised by user code: an arbitrary object whose class is Exception's or not."""

    name = "exception"
    user = True
    is_exception = z3.Function("is_exception", Obj, B)

    def isinstance(self, it, sv, cls):
        if isinstance(cls, BuiltinCls):
            if cls.cls in (object, BaseException):
                return True
            if cls.cls is Exception:
                return self.is_exception(sv.t)
            f = z3.Function(f"exc_is_{cls.cls.__name__}", Obj, B)
            if issubclass(cls.cls, Exception):
                it.ctx.assume(z3.Implies(f(sv.t), self.is_exception(sv.t)))
            else:
                it.ctx.assume(z3.Implies(f(sv.t), z3.Not(self.is_exception(sv.t))))
            return f(sv.t)
        return z3.Function(f"exc_is_{getattr(cls, 'qual', cls)}", Obj, B)(sv.t)

    def type_is(self, it, sv, cls):
        return self.isinstance(it, sv, cls)

    def truth(self, it, sv):
        return z3.Function("truth_of", Obj, B)(sv.t)

    def getattr(self, it, sv, name):
        from ..core import Opaque, Unsupported

        if name == "__traceback__":
            tb = Inst(it.ctx, Opaque("traceback"), {})
            tb.ext = it.models.Traceback()
            return tb
        if name in ("with_traceback",):
            return Model(name, lambda it, a, k: sv)
        if name in ("__cause__", "__context__"):
            return None
        if name == "args":
            return ()
        if name.startswith("__"):
            raise Unsupported(f"exception.{name}")
        if it.ctx.branch(z3.Not(z3.Function("exc_has_" + name, Obj, B)(sv.t))):
            it.raise_(AttributeError, name)
        return SV(z3.Function("exc_attr_" + name, Obj, Obj)(sv.t), "obj", ANY)

    def setattr(self, it, sv, name, value):
        if name in ("__traceback__", "__suppress_context__"):
            if self.user and it.ctx.branch(z3.Function("is_frozen", Obj, B)(sv.t)):
                it.raise_(AttributeError, "cannot assign to " + name)  # an exception class may refuse it: frozen dataclasses do
            return
        from ..core import Unsupported

        raise Unsupported(f"assignment to exception.{name}")


EXC = ExcSchema()
ok_at = z3.Function("ok_at", I, B)
val_at = z3.Function("val_at", I, Obj)
exc_at = z3.Function("exc_at", I, Obj)


def outcome(it, what):
    """Call number ghost['calls'] of the user's function: returns val_at or raises exc_at, whatever they are."""
    ctx = it.ctx
    i = ctx.ghost["calls"]
    ctx.ghost["calls"] = z3.simplify(i + 1)
    if ctx.branch(ok_at(i)):
        return SV(val_at(i), "obj", ANY)
    raise PyRaise(SV(exc_at(i), "obj", EXC))


def symbolic_args(it):
    ctx = it.ctx
    n = ctx.fresh("nargs", I)
    ctx.assume(n >= 0)
    i = ctx.fresh("i", I)
    f = ctx.fresh_fn("arg", I, Obj)
    rest = Coll([i], z3.And(i >= 0, i < n), SV(f(i), "obj", ANY), None, True, n, True, "args")
    return [SV(ctx.fresh("arg0"), "obj", ANY), Star([("coll", rest)])], {"self": SV(ctx.fresh("kw"), "obj", ANY), "f": SV(ctx.fresh("kw"), "obj", ANY)}


def same_args(it, a, k, args, kwargs):
    def flat(xs):
        out = []
        for x in xs:
            out.extend(x.segs if isinstance(x, Star) else [("one", x)])
        return out

    x, y = flat(a), flat(args)
    if len(x) != len(y) or list(k) != list(kwargs):
        return False
    for (p, u), (q, v) in zip(x, y):
        if p != q:
            return False
        if p == "coll":
            if not (u is v or u.mem.eq(v.mem) and u.elem.t.eq(v.elem.t)):
                return False
        elif it.is_(u, v) is not True and it.ctx._check(z3.Not(it.is_(u, v))) != z3.unsat:
            return False
    return all(it.ctx._check(z3.Not(it.is_(k[n], kwargs[n]))) == z3.unsat for n in k)


class CountedLock:
    """A lock of which only is known whether it is held."""

    def __init__(self, held):
        self.held = held

    def truth(self, it, inst):
        return True

    def getattr(self, it, inst, name):
        def change(d, r):
            def f(it, a, k):
                self.held[0] += d
                return r
            return Model(name, f)
        if name in ("__enter__", "acquire"):
            return change(1, True)
        if name in ("__exit__", "release"):
            return change(-1, None)
        return None


@unit("retry.calls", ["C10", "C04", "C02", "C07"], covers=("returns", "raises", "called before"))
def retry_calls(ctx, it):
    """create_retry with any n >= 1: a call of a wrapped function, whatever calls were made with the decorator before."""
    n = SV(ctx.fresh("attempts", I))
    ctx.assume(n.t >= 1)
    ctx.ghost["calls"] = z3.IntVal(0)
    args, kwargs = symbolic_args(it)

    held = [0]

    def lock(it, a, k):
        i = Inst(ctx, Opaque("Lock"))
        i.ext = CountedLock(held)
        return i

    it.externs["threading.Lock"] = it.externs["threading.RLock"] = Model("Lock", lock)

    def fn(it, a, k):
        ctx.prove(tag(["C10", "C07"], "retry: no lock is held during an attempt"), not held[0])
        ctx.prove(tag(["C02", "C10"], "retry: every attempt receives exactly the arguments of the call"), same_args(it, a, k, args, kwargs))
        return outcome(it, "f")

    retry = it.call(it.glob("uberjob._util.retry.create_retry"), [n], {})
    f = UserModel("f", fn)
    start = z3.IntVal(0)
    before = ctx.choose(3, "called before")
    if before:
        # the decorator is used for every call of the run: what it did before must not matter
        earlier = returns(ctx, tag(["C10"], "retry: every callable can be wrapped"), lambda: it.call(retry, [f], {}))
        try:
            it.call(earlier, args, kwargs)
        except PyRaise:
            pass
        ctx.cover("called before")
        start = ctx.ghost["calls"]
    wrapped = earlier if before == 2 else returns(ctx, tag(["C10"], "retry: every callable can be wrapped"), lambda: it.call(retry, [f], {}))
    ctx.prove(tag(["C10", "C04"], "retry: wrapping a function does not call it"), ctx.ghost["calls"] == start)
    j = ctx.fresh("j", I)
    try:
        r = it.call(wrapped, args, kwargs)
    except PyRaise as e:
        ctx.cover("raises")
        c = z3.simplify(ctx.ghost["calls"] - start)
        ctx.prove(tag(["C10", "C04"], "retry: a failing call was attempted at least once and at most n times"), z3.And(c >= 1, c <= n.t))
        ctx.prove(tag(["C10", "C06"], "retry: the exception raised is that of the last attempt"), it.is_(e.exc, SV(exc_at(start + c - 1), "obj", EXC)))
        ctx.prove(tag(["C10"], "retry: no attempt had succeeded"), z3.ForAll([j], z3.Implies(z3.And(start <= j, j < start + c), z3.Not(ok_at(j)))))
        ctx.prove(tag(["C10"], "retry: gives up only after n attempts, or on what is not an Exception"),
                  z3.Or(c == n.t, z3.Not(EXC.is_exception(exc_at(start + c - 1)))))
        return
    ctx.cover("returns")
    c = z3.simplify(ctx.ghost["calls"] - start)
    ctx.prove(tag(["C10", "C04"], "retry: a call that returns was attempted at least once and at most n times"), z3.And(c >= 1, c <= n.t))
    ctx.prove(tag(["C10", "C02"], "retry: the value returned is that of the last attempt, which succeeded"), z3.And(ok_at(start + c - 1), it.is_(r, SV(val_at(start + c - 1), "obj", ANY))))
    ctx.prove(tag(["C10", "C04"], "retry: no attempt follows a success"), z3.ForAll([j], z3.Implies(z3.And(start <= j, j < start + c - 1), z3.Not(ok_at(j)))))
