"""The state behind the bundled progress displays, the observer that keeps it, and composites (C15, C20)."""
import z3

from ..core import B, I, IteV, Obj, Opaque, PathEnd, PyRaise, R, SV, Unsupported, Value
from ..models import STR
from ..values import BuiltinCls, Coll, DictV, ExtCls, Fam, FamRef, Inst, ListV, Model, Schema, SetV
from .base import returns, tag, unit
from .fs import ANY, HASHABLE
from .retry import EXC

P = "uberjob.progress."
SIMPLE = P + "_simple_progress_observer."
COUNTS = ("completed", "failed", "running", "total")


class ClockExt:
    pass


def clock(it):
    """time.time(): any real number, never smaller than the reading before."""
    ctx = it.ctx

    def read(it, a, k):
        t = ctx.fresh("now", R)
        last = ctx.extra.get("clock")
        if last is not None:
            ctx.assume(t >= last)
        ctx.extra["clock"] = t
        ctx.extra["clock_reads"] = ctx.extra.get("clock_reads", 0) + 1
        return SV(t, "real")

    for n in ("time.time", "time.monotonic", "time.perf_counter"):
        it.externs[n] = Model(n, read)


def num(it, v):
    v = it.resolve(v)
    n = it.num(v)
    return z3.IntVal(n) if isinstance(n, int) else n


def real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


class Scopes:
    """The scope states of one section: any number of them, in any state."""

    def __init__(self, it, name):
        self.it, ctx = it, it.ctx
        self.section = SV(ctx.fresh("section_" + name), "obj", STR)
        x = ctx.fresh("sc")
        self.cls = it.glob(SIMPLE + "ScopeState")
        f = {c: ctx.fresh_fn(f"{name}_{c}", Obj, I) for c in COUNTS}
        w = ctx.fresh_fn(f"{name}_elapsed", Obj, R)
        self.before = dict(f, weighted_elapsed=w)
        self.dom = ctx.fresh_fn(f"{name}_known", Obj, B)
        attrs = {c: [([x], True, SV(f[c](x), "int"))] for c in COUNTS}
        attrs["weighted_elapsed"] = [([x], True, SV(w(x), "real"))]
        self.fam = Fam(ctx, self.cls, [x], attrs)
        q = z3.Const("q", Obj)
        ctx.assume(z3.ForAll([q], z3.And(*[f[c](q) >= 0 for c in COUNTS]), patterns=[self.dom(q)]))
        self.dict = DictV(ctx)
        self.dict.ops = [("base", lambda t: self.dom(t), lambda t: FamRef(self.fam, [t]))]
        y = ctx.fresh("rs")
        self.running = Coll([y], z3.And(self.dom(y), f["running"](y) > 0), FamRef(self.fam, [y]), name=name)

    def pre(self, attr, s):
        return self.before[attr](s)


def read(it, mapping, section, scope):
    """The state of a scope now, or None."""
    m = it.models
    found, d = m.dict_find(it, mapping, section)
    if not found:
        return None
    found, st = m.dict_find(it, it.resolve(d), scope)
    return it.resolve(st) if found else None


def state_world(ctx, it):
    clock(it)
    t0 = ctx.fresh("start", R)
    st = it.call(it.glob(SIMPLE + "State"), [SV(t0, "real")], {})
    for a in ("section_scope_mapping", "running_count", "_running_scope_states", "_prev_time"):
        if a not in st.attrs:
            raise Unsupported(f"State without {a}")
    if not isinstance(st.attrs["section_scope_mapping"], DictV) or not isinstance(st.attrs["_running_scope_states"], SetV):
        raise Unsupported("representation of State")
    a, b = Scopes(it, "a"), Scopes(it, "b")
    ctx.assume(z3.Not(it.ident(a.section, b.section)))
    d = DictV(ctx)
    d.ops = [("set", a.section, a.dict), ("set", b.section, b.dict)]
    s = SetV(ctx)
    s.ops = [("coll", a.running), ("coll", b.running)]
    rc, prev = ctx.fresh("running_count", I), ctx.fresh("prev", R)
    ctx.assume(z3.And(rc >= 0, prev >= t0))
    ctx.extra["clock"] = prev
    # running_count is the sum of running over all scopes: at least what any scope has
    q = z3.Const("q", Obj)
    for x in (a, b):
        ctx.assume(z3.ForAll([q], z3.Implies(x.dom(q), x.before["running"](q) <= rc), patterns=[x.dom(q)]))
    st.attrs.update(section_scope_mapping=d, running_count=SV(rc, "int"), _running_scope_states=s, _prev_time=SV(prev, "real"))
    it.any_history(st, ("section_scope_mapping", "running_count", "_running_scope_states", "_prev_time"))
    return st, a, b, rc, prev


def running_set_matches(it, t, st, a, b, changed, delta):
    """The set of running scope states is exactly those with something running."""
    ctx = it.ctx
    rs = st.attrs["_running_scope_states"]
    if not isinstance(rs, SetV):
        raise Unsupported("representation of State")
    for x in (a, b):
        q = ctx.fresh("q")
        ctx.assume(x.dom(q))
        now = x.pre("running", q)
        if x is a:
            now = z3.If(q == changed, now + delta, now)
        ctx.prove(t("the set of running scopes is exact"), it.models.set_contains_term(it, rs, it.term(FamRef(x.fam, [q]))) == (now > 0))


def attributed(it, t, st, a, b, rc, prev):
    """The time since the last update went to the running scopes in proportion, so that it adds up."""
    ctx = it.ctx
    now = real(num(it, st.attrs["_prev_time"]))
    ctx.prove(t("time moves to a later reading"), now >= prev)
    ctx.prove(t("the clock is read, so that no earlier time is attributed to what starts now"), ctx.extra.get("clock_reads", 0) > 0)
    ctx.prove(t("up to the present"), now == ctx.extra["clock"])
    for x in (a, b):
        q = ctx.fresh("q")
        ctx.assume(x.dom(q))
        got = real(num(it, it.getattr(FamRef(x.fam, [q]), "weighted_elapsed")))
        share = z3.If(rc == 0, z3.RealVal(0), z3.ToReal(x.pre("running", q)) * ((now - prev) / z3.ToReal(rc)))
        ctx.prove(t("each scope is given its share of the time: running calls there / running calls"), got == x.pre("weighted_elapsed", q) + share)


@unit("progress.state", ["C20"], covers=("running", "completed", "failed", "total", "new scope", "update"))
def progress_state(ctx, it):
    """State: exact counts per scope; time during which something runs is divided among the running scopes."""
    what = ("total", "running", "completed", "failed", "update")[ctx.choose(5, "what")]
    t = lambda text: tag(["C20"], f"State.increment_{what}: " + text)
    st, a, b, rc, prev = state_world(ctx, it)
    s = ctx.fresh("scope")
    scope = SV(s, "obj", HASHABLE)
    n = lambda f: ctx.cover(f) or f
    if what == "update":
        returns(ctx, t("does not raise"), lambda: it.call(it.getattr(st, "update_weighted_elapsed"), [], {}))
        ctx.cover("update")
        running_set_matches(it, t, st, a, b, s, 0)
        attributed(it, t, st, a, b, rc, prev)
        ctx.prove(t("the counts do not change"), num(it, st.attrs["running_count"]) == rc)
        return
    delta = dict.fromkeys(COUNTS, z3.IntVal(0))
    f = it.getattr(st, "increment_" + what)
    new = False
    if what == "total":
        amount = ctx.fresh("amount", I)
        section = a.section
        if ctx.choose(2, "new section"):
            st.attrs["section_scope_mapping"].ops = st.attrs["section_scope_mapping"].ops[1:]
            ctx.assume(z3.Not(a.dom(s)))
            new = True
        else:
            new = not ctx.branch(a.dom(s))
        returns(ctx, t("does not raise"), lambda: it.call(f, [section, scope, SV(amount, "int")], {}))
        delta["total"] = amount
    else:
        ctx.assume(a.dom(s))
        if what != "running":
            ctx.assume(a.pre("running", s) >= 1)
        returns(ctx, t("does not raise"), lambda: it.call(f, [a.section, scope], {}))
        delta["running"] = z3.IntVal(1 if what == "running" else -1)
        if what != "running":
            delta[what] = z3.IntVal(1)
    ctx.cover("new scope" if new else what)
    mapping = st.attrs["section_scope_mapping"]
    if not isinstance(mapping, DictV):
        raise Unsupported("representation of State")
    got = read(it, mapping, a.section, scope)
    ctx.prove(t("the scope is known"), got is not None)
    for c in COUNTS:
        was = z3.IntVal(0) if new else a.pre(c, s)
        ctx.prove(t(f"{c} is exact"), num(it, it.getattr(got, c)) == was + delta[c])
    if new:
        ctx.prove(t("a new scope has no time yet"), real(num(it, it.getattr(got, "weighted_elapsed"))) == 0)
    for x in (a, b):
        q = ctx.fresh("q")
        ctx.assume(x.dom(q))
        if x is a:
            ctx.assume(q != s)
        if x is b or not new:
            other = read(it, mapping, x.section, SV(q, "obj", HASHABLE))
            ctx.prove(t("the other scopes stay known"), other is not None)
            ctx.prove(t("the other scopes are not touched"), z3.And(*[num(it, it.getattr(other, c)) == x.pre(c, q) for c in COUNTS]))
    ctx.prove(t("the number of running calls is exact"), num(it, st.attrs["running_count"]) == rc + delta["running"])
    running_set_matches(it, t, st, a, b, s, delta["running"])
    if what == "total":
        for x in (a, b):
            q = ctx.fresh("q")
            ctx.assume(x.dom(q))
    else:
        attributed(it, t, st, a, b, rc, prev)


@unit("progress.shares", ["C20"], covers=("step",))
def progress_shares(ctx, it):
    """Lemma: if every scope is given running * (elapsed / sum of running), the shares add up to elapsed."""
    run = ctx.fresh_fn("run", I, I)
    sums, shares = ctx.fresh_fn("sum_running", I, I), ctx.fresh_fn("sum_shares", I, R)
    k, n = ctx.fresh("k", I), ctx.fresh("n", I)
    e, m = ctx.fresh("elapsed", R), ctx.fresh("multiplier", R)
    t = lambda text: tag(["C20"], "shares: " + text)
    ctx.assume(z3.And(sums(0) == 0, shares(0) == 0))
    ctx.prove(t("no scope has no share"), shares(0) == m * sums(0))
    ctx.assume(z3.And(sums(k + 1) == sums(k) + run(k), shares(k + 1) == shares(k) + run(k) * m))
    ctx.assume(shares(k) == m * sums(k))
    ctx.prove(t("one more scope"), shares(k + 1) == m * sums(k + 1))
    ctx.assume(z3.And(sums(n) > 0, m == e / z3.ToReal(sums(n)), shares(n) == m * sums(n)))
    ctx.cover("step")
    ctx.prove(t("the shares of all scopes add up to the time that passed"), shares(n) == e)


OBS = SIMPLE + "SimpleProgressObserver"


class PlainLock:
    def __init__(self, w):
        self.w = w

    def truth(self, it, inst):
        return True

    def acquire(self, it, a, k):
        it.ctx.prove(self.w.t("a lock is not taken twice by one thread"), not self.w.g("held"))
        self.w.set("held", True)
        if self.w.on_acquire is not None:
            self.w.on_acquire()
        return True

    def release(self, it, a, k):
        self.w.set("held", False)

    def getattr(self, it, inst, name):
        if name in ("__enter__", "acquire"):
            return Model("acquire", self.acquire)
        if name in ("__exit__", "release"):
            return Model("release", self.release)
        if name == "locked":
            return Model("locked", lambda it, a, k: self.w.g("held"))
        return None


class EventExt:
    """threading.Event: once the run is over it is set, and stays set."""

    def __init__(self, w):
        self.w = w

    def truth(self, it, inst):
        return True

    def getattr(self, it, inst, name):
        w = self.w
        if name in ("wait", "is_set"):
            def look(it, a, k):
                r = w.ctx.fresh("is_set", B)
                w.ctx.assume(z3.Implies(w.g("over"), r))
                now = w.ctx.branch(r)
                if now:
                    w.set("over", z3.BoolVal(True))
                return now
            return Model(name, look)
        if name == "set":
            return Model("set", lambda it, a, k: w.log.append("set"))
        return None


# what the units know of an observer at an arbitrary point of a run; _state is under its own contracts
KNOWN = ("_stale", "_state", "_exception_tuples", "_new_exception_index", "_max_exception_count", "_start_time", "_last_render_time", "_thread", "_lock", "_done_event")


class Display:
    """A SimpleProgressObserver in any state, seen by one thread while others notify it."""

    def __init__(self, ctx, it, t):
        self.ctx, self.it, self.t = ctx, it, t
        self.log, self.on_acquire = [], None
        self.rendering = None
        gh = ctx.ghost
        gh.update(held=False, over=z3.BoolVal(False), version=z3.IntVal(0), rendered=z3.IntVal(-1), pending=None, renders=0)
        clock(it)

        def lock(it, a, k):
            i = Inst(ctx, Opaque("Lock"))
            i.ext = PlainLock(self)
            return i

        def event(it, a, k):
            i = Inst(ctx, Opaque("Event"))
            i.ext = EventExt(self)
            return i

        it.externs["threading.Lock"] = it.externs["threading.RLock"] = Model("Lock", lock)
        it.externs["threading.Event"] = Model("Event", event)
        it.externs["threading.Thread"] = ExtCls("threading.Thread", self.make_thread, {
            "start": Model("start", lambda it, a, k: self.log.append(("start", a[0]))),
            "join": Model("join", self.join)})
        for m in ("total", "running", "completed", "failed"):
            it.call_contracts[SIMPLE + "State.increment_" + m] = self.incremented(m)
        it.call_contracts[SIMPLE + "State.update_weighted_elapsed"] = self.updated
        con = P + "_console_progress_observer.ConsoleProgressObserver"
        it.call_contracts[con + "._render"] = self.render
        it.call_contracts[con + "._output"] = self.output
        self.delay = [SV(ctx.fresh(n, R), "real") for n in ("initial", "min", "max")]
        self.obs = it.call(it.glob(con), [], dict(zip(("initial_update_delay", "min_update_interval", "max_update_interval"), self.delay)))
        for a in ("_stale", "_state", "_exception_tuples", "_new_exception_index", "_last_render_time", "_max_exception_count", "_start_time"):
            if a not in self.obs.attrs:
                raise Unsupported(f"SimpleProgressObserver without {a}")

    def g(self, n):
        return self.ctx.ghost[n]

    def set(self, n, v):
        self.ctx.ghost[n] = v

    def make_thread(self, it, c, args, kwargs):
        if args or set(kwargs) - {"target", "args", "kwargs", "name", "daemon"}:
            raise Unsupported("arguments of Thread")
        th = Inst(it.ctx, c)
        th.attrs.update(target=kwargs.get("target"), args=kwargs.get("args", ()), kwargs=kwargs.get("kwargs"))
        return th

    def join(self, it, a, k):
        if len(a) > 2 or set(k) - {"timeout"} or len(a) > 1 and k:
            raise Unsupported("join")
        # with a timeout the thread may still be running afterwards
        bounded = it.resolve(a[1] if len(a) > 1 else k.get("timeout")) is not None
        self.log.append(("join for some time" if bounded else "join", a[0]))

    def state_is(self, a):
        return a is self.it.resolve(self.obs.attrs["_state"])

    def incremented(self, what):
        def f(it, a, k):
            if not self.state_is(a[0]):
                return NotImplemented
            self.ctx.prove(self.t("the state is changed only while its lock is held"), self.g("held"))
            self.log.append((what, a[1:], k))
            self.set("version", self.g("version") + 1)
        return f

    def updated(self, it, a, k):
        if not self.state_is(a[0]):
            return NotImplemented
        self.ctx.prove(self.t("the state is changed only while its lock is held"), self.g("held"))
        self.log.append(("update", a[1:], k))

    def render(self, it, a, k):
        ctx, obs = self.ctx, self.obs
        names = ("state", "new_exception_index", "exception_tuples", "elapsed")
        vals = dict(zip(names, a[1:]), **k)
        if set(vals) != set(names):
            it.raise_(TypeError, "arguments of _render")
        ctx.prove(self.t("the state is rendered only while its lock is held"), self.g("held"))
        ctx.prove(self.t("what is rendered is the state"), it.resolve(vals["state"]) is it.resolve(obs.attrs["_state"].attrs["section_scope_mapping"]))
        ctx.prove(self.t("with the exceptions"), it.resolve(vals["exception_tuples"]) is it.resolve(obs.attrs["_exception_tuples"]))
        self.log.append(("render", self.log[-1:] and self.log[-1][0] == "update"))
        self.set("renders", self.g("renders") + 1)
        ctx.prove(self.t("every rendering is shown before the next is made"), self.g("pending") is None)
        self.set("rendered", self.g("version"))
        ctx.cover("rendered")
        if ctx.choose(2, "a value is returned"):
            v = SV(ctx.fresh("rendering"), "obj", ANY)
            ctx.assume(v.t != it.none_term())
            self.set("pending", v)
            return v
        return None

    def output(self, it, a, k):
        v = it.resolve(a[1])
        p = self.g("pending")
        self.ctx.prove(self.t("what is shown is what was rendered last"), isinstance(v, SV) and p is not None and v.t == p.t)
        self.set("pending", None)
        self.log.append(("output",))

    def any_state(self):
        """An arbitrary state in which the display is marked stale unless it shows the current state."""
        ctx, a = self.ctx, self.obs.attrs
        s = ctx.fresh("stale", B)
        a["_stale"] = SV(s, "bool")
        v, r = ctx.fresh("version", I), ctx.fresh("rendered", I)
        self.set("version", v)
        self.set("rendered", r)
        ctx.assume(z3.And(v >= 0, r <= v, z3.Implies(z3.Not(s), r == v)))
        n, idx, cap = ctx.fresh("n_exc", I), ctx.fresh("shown_exc", I), ctx.fresh("cap", I)
        ctx.assume(z3.And(0 <= idx, idx <= n))
        x = ctx.fresh("i", I)
        self.exc_n, self.cap = n, cap
        e = ListV(ctx)
        e.segs = [("coll", Coll([x], z3.And(0 <= x, x < n), SV(ctx.fresh_fn("exc", I, Obj)(x), "obj", ANY), ordered=True, n=n))]
        a["_exception_tuples"] = e
        a["_new_exception_index"] = SV(idx, "int")
        a["_max_exception_count"] = SV(cap, "int")
        a["_start_time"] = SV(ctx.fresh("start", R), "real")
        last = ctx.fresh("last", R)
        a["_last_render_time"] = None if ctx.choose(2, "rendered before") == 0 else SV(last, "real")
        self.it.any_history(self.obs, KNOWN)

    def stale(self):
        f = self.it.truth_f(self.obs.attrs["_stale"])
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def marked(self):
        return z3.Implies(z3.Not(self.stale()), self.g("rendered") == self.g("version"))


@unit("progress.notify", ["C20"], covers=("total", "running", "completed", "failed", "exception kept"))
def progress_notify(ctx, it):
    """SimpleProgressObserver.increment_*: passed on to the state once, under the lock, and the display is marked stale."""
    what = ("total", "running", "completed", "failed")[ctx.choose(4, "what")]
    t = lambda text: tag(["C20"], f"SimpleProgressObserver.increment_{what}: " + text)
    w = Display(ctx, it, t)
    w.any_state()
    kw = {"section": SV(ctx.fresh("section"), "obj", STR), "scope": SV(ctx.fresh("scope"), "obj", HASHABLE)}
    args = [kw["section"], kw["scope"]]
    if what == "total":
        kw["amount"] = SV(ctx.fresh("amount", I), "int")
        args.append(kw["amount"])
    exc = None
    if what == "failed":
        exc = it.exc(ValueError, ("x",))
        kw["exception"] = exc
    lst = w.obs.attrs["_exception_tuples"]
    before = list(lst.segs)
    returns(ctx, t("does not raise"), lambda: it.call(it.getattr(w.obs, "increment_" + what), [], kw))
    ctx.cover(what)
    got = [e for e in w.log if e[0] in ("total", "running", "completed", "failed")]
    ctx.prove(t("the state is told exactly once, and nothing else"), len(got) == 1 and got[0][0] == what)
    seen = dict(zip(("section", "scope", "amount"), got[0][1]), **got[0][2])
    ctx.prove(t("with the section, scope and amount"), set(seen) == set(kw) - {"exception"} and z3.And(*[z3.BoolVal(True)] + [e if not isinstance(e, bool) else z3.BoolVal(e) for e in (it.ident(seen[k], kw[k]) for k in seen)]))
    ctx.prove(t("the lock is released"), not w.g("held"))
    ctx.prove(t("the display is stale unless it shows the current state"), w.marked())
    if w.obs.attrs["_exception_tuples"] is not lst:
        raise Unsupported("the list of exceptions is replaced")
    added = lst.segs[len(before):]
    ctx.prove(t("the exceptions kept stay"), lst.segs[:len(before)] == before)
    if what == "failed":
        if added:
            ctx.cover("exception kept")
        ctx.prove(t("at most this exception is kept"), len(added) <= 1 and all(s[0] == "one" for s in added))
        for _, v in added:
            v = it.resolve(v)
            ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and len(v[1]) == 3
            ctx.prove(t("as (scope, (type, exception, traceback))"), ok and it.ident(v[0], kw["scope"]))
            ctx.prove(t("as (scope, (type, exception, traceback))"), it.resolve(v[1][1]) is exc)
    else:
        ctx.prove(t("no exception is kept"), not added)


@unit("progress.enter_exit", ["C20", "C15", "C06", "C07", "C17"], covers=("enter", "exit"))
def progress_enter_exit(ctx, it):
    """__enter__ starts the update thread; __exit__ tells it that the run is over, then waits for it to end."""
    t = lambda text: tag(["C20"], "SimpleProgressObserver: " + text)
    w = Display(ctx, it, t)
    ctx.prove(t("a new display is stale, so that it is rendered"), w.stale())
    ctx.prove(t("a new display has rendered no exception"), it.ident(w.obs.attrs["_new_exception_index"], 0))
    returns(ctx, t("entering does not raise"), lambda: it.call(it.getattr(w.obs, "__enter__"), [], {}))
    ctx.cover("enter")
    starts = [e[1] for e in w.log if e[0] == "start"]
    ctx.prove(t("entering starts one thread"), len(starts) == 1)
    th = starts[0]
    target = it.resolve(th.attrs["target"])
    from ..values import BoundMethod
    if not isinstance(target, BoundMethod):
        raise Unsupported("target of the update thread")
    if target.fn.name != "_run_update_thread":
        raise Unsupported("target of the update thread")
    ctx.prove(t("which runs the update loop of this observer"), target.self_ is w.obs and not it.resolve(th.attrs["args"]))
    del w.log[:]
    it.any_history(w.obs, KNOWN)
    how = ctx.choose(3, "the run")
    exc = [None, None, None]
    if how:
        cls = BuiltinCls(ValueError if how == 1 else KeyboardInterrupt)
        exc = [cls, it.exc(cls.cls, ("run",)), Opaque("traceback")]
    t = lambda text: tag(["C20", "C07", "C17"], "SimpleProgressObserver: " + text)
    r = returns(ctx, t("exiting does not raise"), lambda: it.call(it.getattr(w.obs, "__exit__"), exc, {}))
    ctx.cover("exit")
    ctx.prove(tag(["C20", "C06", "C17"], "SimpleProgressObserver: exiting does not swallow an exception of the run"), not it.truth(r))
    kinds = [e if isinstance(e, str) else e[0] for e in w.log]
    ctx.prove(t("exiting says that the run is over, then waits for the thread"), kinds.count("set") >= 1 and kinds.count("join") == 1 and kinds.index("set") < kinds.index("join"))
    ctx.prove(t("the thread waited for is the one started"), [e[1] for e in w.log if e[0] == "join"] == [th])


@unit("progress.update_loop", ["C20"], covers=("rendered", "ended", "again"))
def progress_update_loop(ctx, it):
    """_run_update_thread: when it ends, the last rendering shown is of the state at the end of the run."""
    import ast

    from ..core import Poison, RestartUnit
    from ..interp import Break, Continue, Return, assigned_names
    t = lambda text: tag(["C20"], "update thread: " + text)
    w = Display(ctx, it, t)
    w.any_state()
    refuted = ctx.x.persist.setdefault("refuted", set())
    top = OBS + "._run_update_thread"

    def others():
        # until the run is over, other threads may have changed the state before the lock is acquired
        if ctx.branch(w.g("over")):
            return
        v, s = ctx.fresh("version", I), ctx.fresh("stale", B)
        old, was = w.g("version"), w.stale()
        ctx.assume(z3.And(v >= old, z3.If(v == old, s == was, s)))
        w.set("version", v)
        w.obs.attrs["_stale"] = SV(s, "bool")

    w.on_acquire = others

    def cands(env, names):
        """Candidate invariants: a flag of the loop and whether the run was seen to be over; over, and shown since."""
        over = w.g("over")
        out = [("fresh", z3.Implies(over, z3.Not(w.stale())))]
        for n in sorted(names):
            e = it.find_env(n, env)
            v = e.vars.get(n)
            if isinstance(v, bool) or isinstance(v, SV) and v.kind == "bool":
                b = z3.BoolVal(v) if isinstance(v, bool) else v.t
                out += [((n, 0), z3.Implies(b, over)), ((n, 1), z3.Implies(over, b)), ((n, 2), z3.Implies(z3.Not(b), over)), ((n, 3), z3.Implies(over, z3.Not(b)))]
        return [(k, f) for k, f in out if k not in refuted]

    def try_all(env, names):
        if ctx.replaying:
            return
        for k, f in cands(env, names):
            if ctx._check(z3.Not(f)) != z3.unsat:
                refuted.add(k)
                raise RestartUnit()

    def loop(it, st, env):
        if not it.frames or it.frames[-1].qual != top or not isinstance(st, ast.While):
            return None

        def run():
            names = assigned_names(st.body) | assigned_names([ast.Expr(st.test)])
            ctx.prove(t("no lock is held between two updates"), not w.g("held"))
            ctx.prove(t("the display is stale unless it shows the current state"), w.marked())
            ctx.prove(t("every rendering is shown"), w.g("pending") is None)
            try_all(env, names)
            # an arbitrary iteration
            for n in names:
                e = it.find_env(n, env)
                v = e.vars.get(n)
                if isinstance(v, bool) or isinstance(v, SV) and v.kind == "bool":
                    e.vars[n] = SV(ctx.fresh(n, B), "bool")
                elif n in e.vars:
                    e.vars[n] = Poison(n)
            w.set("over", ctx.fresh("over", B))
            w.any_state()
            w.on_acquire = others
            for k, f in cands(env, names):
                ctx.assume(f)
            if not it.truth(it.eval(st.test, env)):
                it.exec_block(st.orelse, env)
                return
            try:
                it.exec_block(st.body, env)
            except Continue:
                pass
            except Break:
                return
            ctx.cover("again")
            ctx.prove(t("no lock is held between two updates"), not w.g("held"))
            ctx.prove(t("the display is stale unless it shows the current state"), w.marked())
            ctx.prove(t("every rendering is shown"), w.g("pending") is None)
            try_all(env, names)
            raise PathEnd()
        return run

    it.loop_contracts.append(loop)
    returns(ctx, t("does not raise"), lambda: it.call(it.getattr(w.obs, "_run_update_thread"), [], {}))
    ctx.cover("ended")
    over = w.g("over")
    ctx.prove(t("it ends only when the run is over"), over)
    ctx.prove(t("no lock is held at the end"), not w.g("held"))
    ctx.prove(t("every rendering is shown"), w.g("pending") is None)
    ctx.prove(t("the last rendering is of the final state"), w.g("rendered") == w.g("version"))


# ------------------------------------------------------------ composites


class MemberObserver(Schema):
    """Any progress observer; it records what it is told."""

    name = "progress observer"
    user = True

    def __init__(self, log):
        self.log = log
        self.can_enter = None

    def truth(self, it, sv):
        return z3.Function("truth_of", Obj, B)(sv.t)

    def isinstance(self, it, sv, cls):
        from ..values import ClsV
        return isinstance(cls, ClsV) and cls.qual == P + "_progress_observer.ProgressObserver"

    def type_is(self, it, sv, cls):
        return False

    def getattr(self, it, sv, name):
        want = {"total": {"section", "scope", "amount"}, "running": {"section", "scope"}, "completed": {"section", "scope"}, "failed": {"section", "scope", "exception"}}
        if name.startswith("increment_") and name[10:] in want:
            def tell(it, a, k):
                if a or set(k) != want[name[10:]]:
                    it.raise_(TypeError, "arguments of a notification")
                it.models.l_append(it, self.log, [(name[10:], sv) + tuple(k[x] for x in sorted(k))], {})
            return Model(name, tell)
        if name == "__enter__":
            def enter(it, a, k):
                if self.can_enter is not None and not it.ctx.branch(self.can_enter(sv.t)):
                    raise PyRaise(SV(it.ctx.fresh("error"), "obj", EXC))
                it.models.l_append(it, self.log, [("enter", sv)], {})
            return Model(name, enter)
        if name == "__exit__":
            return Model(name, lambda it, a, k: it.models.l_append(it, self.log, [("exit", sv)], {}))
        raise Unsupported(f"attribute {name} of an observer")


class Stack:
    """contextlib.ExitStack: what was entered is exited once, in reverse, unless it was taken over by pop_all."""

    def __init__(self, it, log, cbs=None):
        self.log, self.it = log, it
        self.cbs = ListV(it.ctx, cbs or [])

    def truth(self, it, inst):
        return True

    def exit(self, it, a, k):
        from ..models import reversed_coll
        segs = list(self.cbs.segs)
        self.cbs.segs = []
        for kind, s in reversed(segs):
            if kind == "one":
                it.call(it.getattr(s, "__exit__"), a, {})
            else:
                c = reversed_coll(s) if s.ordered else s
                self.log.segs = self.log.segs + [("coll", Coll(c.xs, c.mem, ("exit", c.elem), c.facts, c.ordered, c.n, c.distinct, c.name))]
        return None

    def getattr(self, it, inst, name):
        if name == "__enter__":
            return Model(name, lambda it, a, k: inst)
        if name in ("__exit__", "close"):
            return Model(name, lambda it, a, k: self.exit(it, a or [None, None, None], k))
        if name == "enter_context":
            def enter(it, a, k):
                v = it.call(it.getattr(a[0], "__enter__"), [], {})
                it.models.l_append(it, self.cbs, [a[0]], {})
                return v
            return Model(name, enter)
        if name == "pop_all":
            def pop(it, a, k):
                i = Inst(it.ctx, Opaque("ExitStack"))
                i.ext = Stack(it, self.log, self.cbs.segs)
                self.cbs.segs = []
                return i
            return Model(name, pop)
        return None


def told_each(it, t, log, members, n, entry, text):
    """The log is one entry per member: entry(member)."""
    ctx = it.ctx
    if len(log.segs) == 0 or any(s[0] != "coll" for s in log.segs):
        ctx.prove(t(text), z3.And(n == 0, z3.BoolVal(not log.segs)))
        return
    if len(log.segs) > 1:
        ctx.prove(t(text), n == 0)
        return
    c = log.segs[0][1]
    if len(c.xs) != 1 or not isinstance(c.elem, tuple):
        raise Unsupported("shape of the notifications")
    want = entry(None)
    ctx.prove(t(text), len(c.elem) == len(want) and c.elem[0] == want[0])
    i = ctx.fresh("i", I)
    ctx.assume(z3.And(0 <= i, i < n))
    # the entry of member i
    if c.ordered and c.xs[0].sort() == I:
        m, e, _ = c.at([i])
        for other in (i, n - 1 - i):
            m, e, _ = c.at([other])
            if it.term(e[1]).eq(members(i)) or ctx._check(it.term(e[1]) != members(i)) == z3.unsat:
                break
        want = entry(members(i))
        ctx.prove(t(text), z3.And(m if not isinstance(m, bool) else z3.BoolVal(m), *[it.term(x) == y for x, y in zip(e[1:], want[1:])]))
        ctx.prove(t(text + ", once"), z3.BoolVal(c.n is not None) if c.n is None else c.n == n)
        return
    raise Unsupported("shape of the notifications")


def composite_world(ctx, it):
    log = ListV(ctx)
    schema = MemberObserver(log)

    def stack(it, a, k):
        i = Inst(ctx, Opaque("ExitStack"))
        i.ext = Stack(it, log)
        return i

    it.externs["contextlib.ExitStack"] = Model("ExitStack", stack)
    n = ctx.fresh("n", I)
    ctx.assume(n >= 0)
    members = ctx.fresh_fn("member", I, Obj)
    x = ctx.fresh("i", I)
    coll = lambda tag_: Coll([x], z3.And(0 <= x, x < n), SV(members(x), "obj", tag_), None, True, n, True, "members")
    return log, schema, n, members, coll


@unit("progress.composite", ["C15"], covers=("total", "running", "completed", "failed", "enter", "exit"))
def composite(ctx, it):
    """CompositeProgressObserver: every notification goes to every member once, unchanged, however many members there are."""
    t = lambda text: tag(["C15"], "CompositeProgressObserver: " + text)
    log, schema, n, members, coll = composite_world(ctx, it)
    seq = ListV(ctx, [("coll", coll(schema))])
    obs = returns(ctx, t("is made of any observers"), lambda: it.call(it.glob(P + "_composite_progress_observer.CompositeProgressObserver"), [seq], {}))
    ctx.prove(t("making it tells nobody anything"), not log.segs)
    what = ("total", "running", "completed", "failed", "context")[ctx.choose(5, "what")]
    if what == "context":
        returns(ctx, t("entering does not raise"), lambda: it.call(it.getattr(obs, "__enter__"), [], {}))
        ctx.cover("enter")
        told_each(it, t, log, members, n, lambda m: ("enter", m), "every member is entered")
        log.segs = []
        r = returns(ctx, t("exiting does not raise"), lambda: it.call(it.getattr(obs, "__exit__"), [None, None, None], {}))
        ctx.cover("exit")
        told_each(it, t, log, members, n, lambda m: ("exit", m), "every member is exited")
        ctx.prove(t("exiting swallows no error"), it.neg(it.truth_f(r)))
        return
    returns(ctx, t("entering does not raise"), lambda: it.call(it.getattr(obs, "__enter__"), [], {}))
    log.segs = []
    # a notification leaves the observer as it was, so the ones before make no difference
    it.static.append((obs, obs.snap()))
    kw = {"section": SV(ctx.fresh("section"), "obj", STR), "scope": SV(ctx.fresh("scope"), "obj", HASHABLE)}
    if what == "total":
        kw["amount"] = SV(ctx.fresh("amount", I), "int")
    if what == "failed":
        kw["exception"] = SV(ctx.fresh("exception"), "obj", ANY)
    returns(ctx, t(f"increment_{what} does not raise"), lambda: it.call(it.getattr(obs, "increment_" + what), [], kw))
    ctx.cover(what)
    told_each(it, t, log, members, n, lambda m: (what, m) + tuple(it.term(kw[k]) for k in sorted(kw)), f"every member is told increment_{what}")


def as_b(m):
    return z3.BoolVal(m) if isinstance(m, bool) else m


@unit("progress.composite_enter", ["C07", "C15", "C17"], covers=("fails",))
def composite_enter(ctx, it):
    """CompositeProgressObserver.__enter__ when a member cannot be entered: the members entered before it are exited."""
    t = lambda text: tag(["C07", "C15", "C17"], "CompositeProgressObserver: " + text)
    log, schema, n, members, coll = composite_world(ctx, it)
    schema.can_enter = ctx.fresh_fn("can_enter", Obj, B)
    seq = ListV(ctx, [("coll", coll(schema))])
    obs = it.call(it.glob(P + "_composite_progress_observer.CompositeProgressObserver"), [seq], {})
    log.segs = []
    i = ctx.fresh("i", I)
    try:
        it.call(it.getattr(obs, "__enter__"), [], {})
    except PyRaise:
        ctx.cover("fails")
        entered, exited = ([s for s in log.segs if (s[1] if s[0] == "one" else s[1].elem)[0] == w] for w in ("enter", "exit"))
        text = t("when a member cannot be entered, those entered before it are exited, once each")
        if any(s[0] != "coll" for s in log.segs) or len(entered) > 1 or len(exited) > 1 or len(entered) + len(exited) != len(log.segs):
            raise Unsupported("shape of the notifications")
        count = entered[0][1].n if entered else z3.IntVal(0)
        if not exited:
            ctx.prove(text, count == 0)
            return
        out = exited[0][1]
        if out.n is None or count is None:
            raise Unsupported("shape of the notifications")
        j = ctx.fresh("j", I)
        ctx.assume(z3.And(0 <= j, j < count))
        one = entered[0][1].at([j])[1][1]
        same = [z3.And(as_b(out.at([other])[0]), it.term(out.at([other])[1][1]) == it.term(one)) for other in (j, count - 1 - j)]
        ctx.prove(text, z3.And(out.n == count, z3.Or(*same)))
        return
    ctx.prove(t("entering succeeds only if every member can be entered"), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), schema.can_enter(members(i)))))


class AProgress(Schema):
    name = "Progress"
    user = True
    made = z3.Function("observer_of", Obj, Obj)

    def __init__(self, member):
        self.member = member

    def truth(self, it, sv):
        return z3.Function("truth_of", Obj, B)(sv.t)

    def isinstance(self, it, sv, cls):
        from ..values import ClsV
        return isinstance(cls, ClsV) and cls.qual == P + "_progress.Progress"

    def getattr(self, it, sv, name):
        if name == "observer":
            return Model(name, lambda it, a, k: SV(self.made(sv.t), "obj", self.member))
        raise Unsupported(f"Progress.{name}")


@unit("progress.composite_progress", ["C15"], covers=("made",))
def composite_of(ctx, it):
    """composite_progress(*members).observer(): a composite of a new observer of every member."""
    t = lambda text: tag(["C15"], "composite_progress: " + text)
    log, schema, n, members, coll = composite_world(ctx, it)
    from ..interp import Star
    progress = returns(ctx, t("does not raise"), lambda: it.call(it.glob("uberjob.progress.composite_progress"), [Star([("coll", coll(AProgress(schema)))])], {}))
    for _ in range(2):
        # one Progress makes any number of observers
        obs = returns(ctx, t("makes an observer"), lambda: it.call(it.getattr(progress, "observer"), [], {}))
        kw = {"section": SV(ctx.fresh("section"), "obj", STR), "scope": SV(ctx.fresh("scope"), "obj", HASHABLE)}
        for _ in range(2):
            log.segs = []
            returns(ctx, t("the observer can be told"), lambda: it.call(it.getattr(obs, "increment_running"), [], kw))
            ctx.cover("made")
            told_each(it, t, log, lambda i: AProgress.made(members(i)), n, lambda m: ("running", m, it.term(kw["scope"]), it.term(kw["section"])), "every member's observer is told")


@unit("progress.null", ["C15"], covers=("end",))
def null_progress(ctx, it):
    """The null observer accepts everything."""
    t = lambda text: tag(["C15"], "NullProgressObserver: " + text)
    obs = returns(ctx, t("is made"), lambda: it.call(it.getattr(it.glob("uberjob.progress.null_progress"), "observer"), [], {}))
    kw = {"section": SV(ctx.fresh("section"), "obj", STR), "scope": SV(ctx.fresh("scope"), "obj", HASHABLE)}
    returns(ctx, t("entering does not raise"), lambda: it.call(it.getattr(obs, "__enter__"), [], {}))
    for what, more in (("total", {"amount": SV(ctx.fresh("amount", I), "int")}), ("running", {}), ("completed", {}), ("failed", {"exception": SV(ctx.fresh("e"), "obj", ANY)})):
        returns(ctx, t(f"increment_{what} does not raise"), lambda: it.call(it.getattr(obs, "increment_" + what), [], dict(kw, **more)))
    r = returns(ctx, t("exiting does not raise"), lambda: it.call(it.getattr(obs, "__exit__"), [None, None, None], {}))
    ctx.cover("end")
    ctx.prove(t("exiting swallows no error"), it.neg(it.truth_f(r)))
