"""Stack frames: which line a symbolic call is attributed to, and how the symbolic traceback is rendered (C19)."""
import z3

from ..core import B, I, IteV, Obj, PathEnd, PyRaise, SV, Unsupported, Value
from ..models import STR, concat, pure
from ..values import Inst, Model, Opaque, Schema
from .base import returns, tag, unit
from .fs import ANY, HASHABLE
from .graphs import G, contract_names, install_graph

TB = "uberjob._util.traceback."
exists = z3.Function("frame_exists", I, B)
f_name, f_path, f_line = (z3.Function("frame_" + x, I, Obj) for x in ("name", "path", "line"))


class CodeExt:
    def __init__(self, i):
        self.i = i

    def getattr(self, it, inst, name):
        f = {"co_name": f_name, "co_filename": f_path, "co_qualname": z3.Function("frame_qualname", I, Obj)}.get(name)
        return SV(f(z3.IntVal(self.i)), "obj", STR) if f is not None else None

    def truth(self, it, inst):
        return True


class FrameExt:
    """The frame with that index: 0 is the innermost function under test, -1 its caller, and so on outward."""

    def __init__(self, i):
        self.i = i

    def truth(self, it, inst):
        return True

    def getattr(self, it, inst, name):
        if name == "f_back":
            return frame(it, self.i - 1)
        if name == "f_code":
            c = Inst(it.ctx, Opaque("code"))
            c.ext = CodeExt(self.i)
            return c
        if name == "f_lineno":
            return SV(f_line(z3.IntVal(self.i)), "obj", ANY)
        return None

    def setattr(self, it, inst, name, value):
        raise Unsupported("assignment to a frame")


def frame(it, i):
    made = it.ctx.extra.setdefault("frames", {})
    if i not in made:
        f = Inst(it.ctx, Opaque("frame"))
        f.ext = FrameExt(i)
        made[i] = f
    f = made[i]
    if i >= 0:
        return f
    it.ctx.assume(z3.Implies(exists(z3.IntVal(i)), exists(z3.IntVal(i + 1)) if i < -1 else True))
    e = exists(z3.IntVal(i))
    return IteV([(e, f), (z3.Not(e), None)])


def frames_model(it):
    it.externs["inspect.currentframe"] = Model("currentframe", lambda it, a, k: frame(it, len(it.frames) - 1))


@unit("trace.capture", ["C19"], covers=("truncated", "outermost frame reached"))
def trace_capture(ctx, it):
    """get_stack_frame: the frame that many calls up (two by default), then its callers up to the depth limit."""
    t = lambda text: tag(["C19"], "get_stack_frame: " + text)
    frames_model(it)
    d = (None, 1, 2, 3, 4)[ctx.choose(5, "depth")]
    up = 2 if d is None else d
    limit = it.resolve(it.glob(TB + "MAX_TRACEBACK_DEPTH"))
    trunc = it.glob(TB + "TruncatedStackFrame")
    for i in range(1, up + 1):
        ctx.assume(exists(z3.IntVal(-i)))
    r = returns(ctx, t("does not raise"), lambda: it.call(it.glob(TB + "get_stack_frame"), [] if d is None else [d], {}))
    i = -up
    # the function runs in frame 0, so the one that many calls up from it is frame -up
    for k in range(limit + 1):
        r = it.resolve(r)
        if not ctx.branch(exists(z3.IntVal(i))):
            ctx.cover("outermost frame reached")
            ctx.prove(t("the outermost frame has no outer frame"), r is None)
            return
        ctx.prove(t("every frame up to the limit is recorded"), isinstance(r, Inst) and r.cls is it.glob(TB + "StackFrame"))
        ctx.prove(t("with its name, path and line"), z3.And(it.term(r.attrs["name"]) == f_name(z3.IntVal(i)), it.term(r.attrs["path"]) == f_path(z3.IntVal(i)), it.term(r.attrs["line"]) == f_line(z3.IntVal(i))))
        r = r.attrs["outer"]
        i -= 1
    r = it.resolve(r)
    ctx.assume(z3.Implies(exists(z3.IntVal(i)), exists(z3.IntVal(i + 1))))
    if ctx.branch(exists(z3.IntVal(i))):
        ctx.cover("truncated")
        ctx.prove(t("beyond the limit it is marked truncated"), r is it.resolve(trunc))
    else:
        ctx.prove(t("the outermost frame has no outer frame"), r is None)


@unit("trace.render", ["C19"], covers=("rendered", "stops at IPython", "truncated"))
def trace_render(ctx, it):
    """render_symbolic_traceback: one line per frame, outermost first, then a mark if truncated."""
    t = lambda text: tag(["C19"], "render_symbolic_traceback: " + text)
    limit = it.resolve(it.glob(TB + "MAX_TRACEBACK_DEPTH"))
    trunc = it.resolve(it.glob(TB + "TruncatedStackFrame"))
    n = 1 + ctx.choose(limit + 1, "frames")
    outer = trunc if n == limit + 1 and ctx.choose(2, "truncated") else None
    frames = []
    s = outer
    cls = it.glob(TB + "StackFrame")
    for i in reversed(range(n)):
        name, path, line = SV(f_name(z3.IntVal(i)), "obj", STR), SV(f_path(z3.IntVal(i)), "obj", STR), SV(f_line(z3.IntVal(i)), "obj", HASHABLE)
        s = it.call(cls, [], {"name": name, "path": path, "line": line, "outer": s})
        frames.insert(0, (name, path, line))
    r = returns(ctx, t("does not raise"), lambda: it.call(it.glob(TB + "render_symbolic_traceback"), [s], {}))
    lines = []
    for name, path, line in frames:
        if ctx.branch(it.models.contains(it, path, "/IPython/core/")):
            ctx.cover("stops at IPython")
            outer = None
            break
        lines.insert(0, ['  File "', path, '", line ', it.models.str_(it, line), ", in ", name])
    if outer is trunc:
        ctx.cover("truncated")
        lines.insert(0, ["  ... truncated"])
    parts = ["Symbolic traceback (most recent call last):"]
    for x in lines:
        parts += ["\n"] + x
    want = concat(it, parts)
    ctx.cover("rendered")
    ctx.prove(t("the frames are listed outermost first, each with its path, line and name"), it.ident(r, want))


@unit("errors.call_error", ["C06", "C19"], covers=("end",))
def call_error(ctx, it):
    """CallError: names the call; the message ends in the rendered traceback of the call. NodeError: names the node."""
    install_graph(it)
    contract_names(it)
    t = lambda props, text: tag(props, "CallError: " + text)
    call = it.call(it.glob(G + "Call"), [SV(ctx.fresh("fn"), "obj", ANY)], {"stack_frame": SV(ctx.fresh("frame"), "obj", ANY), "scope": ()})
    cause = SV(ctx.fresh("cause"), "obj", ANY)
    e = it.resolve(returns(ctx, t(["C06"], "does not raise"), lambda: it.call(it.glob("uberjob._errors.create_chained_call_error"), [call, cause], {})))
    ctx.cover("end")
    ctx.prove(t(["C06"], "the chained error is a CallError"), isinstance(e, Inst) and getattr(e.cls, "qual", None) == "uberjob._errors.CallError")
    ctx.prove(t(["C06", "C19"], "it names the call"), it.resolve(e.attrs["call"]) is call)
    ctx.prove(t(["C06"], "its cause is the very exception"), it.is_(e.attrs["__cause__"], cause))
    args = e.attrs.get("args")
    if not isinstance(args, tuple) or len(args) != 1:
        raise Unsupported("arguments of the error")
    want = pure(it, "rendered", [call.attrs["stack_frame"]], STR)
    m = it.resolve(args[0])
    known = ctx.extra.get("concatenated", {}).get(m.t.get_id()) if isinstance(m, SV) else None
    if known is None:
        raise Unsupported("message of the error")
    ctx.prove(t(["C19"], "the message ends in the rendered symbolic traceback of the call"), isinstance(known[1][-1], SV) and known[1][-1].t == want.t)


@unit("errors.node_error", ["C06", "C15", "C19"], covers=("Call", "Literal", "scope of the user's values"))
def node_error(ctx, it):
    """NodeError can be made for every node: whatever the __repr__ of its function, value and scope does (raises an
    Exception, say), the failure is not replaced by another one."""
    t = lambda text: tag(["C06", "C15", "C19"], "NodeError: " + text)
    value = SV(ctx.fresh("value"), "obj", ANY)
    kind = ("Call", "Literal")[ctx.choose(2, "kind")]
    scoped = ctx.choose(2, "scope") == 1
    kw = {"stack_frame": None if ctx.choose(2, "frame") == 0 else SV(ctx.fresh("frame"), "obj", HASHABLE)}
    if scoped:
        ctx.cover("scope of the user's values")
        kw["scope"] = (SV(ctx.fresh("part"), "obj", ANY),)
    node = it.call(it.glob(G + kind), [value], kw)
    e = it.resolve(returns(ctx, t("can be made for every node"), lambda: it.call(it.glob("uberjob._errors.NodeError"), [node], {})))
    ctx.cover(kind)
    ctx.prove(t("carries the node"), it.is_(it.getattr(e, "node"), node))
