"""_get_stale_nodes: what is out of date, for any plan, registry, times and schedule (C03, C05, C06, C08, C10, C14, C15, C18, C19)."""
import z3

from ..core import B, I, IteV, Obj, Opaque, PathEnd, PyRaise, R, SV, Unsupported
from ..models import as_z3, set_contains_term
from ..values import BuiltinCls, Coll, DictV, Fam, FamRef, Inst, ListV, Model, UserModel, SetV
from .base import tag, unit
from .fs import ANY, instant
from .graphs import (G, NODE, GraphV, RV, STORE, cls_name, frame_of, is_call, node_term, observer, scope_of, seq_term, symbolic_plan, symbolic_registry)
from .retry import EXC
from .times import NAIVE, TIME, install_times

CA = "uberjob._transformations.caching."
RUN = "uberjob._execution.run_function_on_graph.run_function_on_graph"
SLOT = "uberjob._util.Slot"
NODE_ERROR = "uberjob._errors.NodeError"

present = z3.Function("store_has_value", Obj, B)
mtime = z3.Function("store_modified", Obj, Obj)


class Spec:
    """The declarative out-of-date set, over the plan's graph as it was given.

    S(n): n is out of date. has_m(n), m(n): the newest stored time at or above n (through nodes without a store).
    has_a(n), a(n): the same strictly above n.
    """

    def __init__(self, it, g, inr, ent, fresh, present=present, mtime=mtime):
        ctx = it.ctx
        self.g, self.inr, self.ent = g, inr, ent
        f = ctx.fresh_fn
        S, has_m, m, has_a, a = f("out_of_date", Obj, B), f("has_time", Obj, B), f("time", Obj, R), f("has_upstream_time", Obj, B), f("upstream_time", Obj, R)
        ws, wm = f("stale_pred", Obj, Obj), f("newest_pred", Obj, Obj)
        self.S, self.has_m, self.m, self.has_a, self.a = S, has_m, m, has_a, a
        P = g.P0
        p = z3.Const("sp", Obj)
        st = lambda x: RV.store(ent(x))
        self.mt = lambda x: instant(mtime(st(x)))
        has_f, ft = fresh
        # a store is out of date by itself: missing, older than something upstream, or older than fresh_time
        self.local = lambda x: z3.And(inr(x), z3.Or(
            z3.Not(present(st(x))),
            z3.And(z3.Or(has_a(x), z3.Not(RV.source(ent(x)))), z3.Or(z3.And(has_a(x), a(x) > self.mt(x)), z3.And(has_f, ft > self.mt(x))))))

        def unfold(n):
            """The definition, for node n."""
            A = ctx.assume
            A(z3.ForAll([p], z3.Implies(z3.And(P(p, n), has_m(p)), z3.And(has_a(n), m(p) <= a(n))), patterns=[P(p, n)]))
            A(z3.Implies(has_a(n), z3.And(P(wm(n), n), has_m(wm(n)), m(wm(n)) == a(n))))
            A(has_m(n) == z3.If(inr(n), present(st(n)), has_a(n)))
            A(z3.Implies(has_m(n), m(n) == z3.If(inr(n), self.mt(n), a(n))))
            A(z3.ForAll([p], z3.Implies(z3.And(P(p, n), S(p)), S(n)), patterns=[P(p, n)]))
            A(S(n) == z3.Or(z3.And(P(ws(n), n), S(ws(n))), self.local(n)))

        self.unfold = lambda n: (unfold(n), unfold(ws(n)), unfold(wm(n)))
        ctx.x.assumed.add("spec: S(n) iff some predecessor is out of date, or n has a store whose value is missing, older than the newest stored time upstream, or older than "
                          "fresh_time (a source without stored times upstream is never older than fresh_time)")


class StaleRun:
    """_get_stale_nodes on arbitrary arguments; run_function_on_graph is replaced by its contract."""

    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        install_times(it)
        self.plan, self.g = symbolic_plan(it)
        self.reg, self.inr, self.ent = symbolic_registry(it, self.g)
        x = z3.Const("tn", Obj)
        ctx.assume(z3.ForAll([x], mtime(x) != it.none_term(), patterns=[mtime(x)]))
        self.has_f = z3.Const("has_fresh_time", B)
        ft = z3.Const("fresh_time", Obj)
        ctx.assume(ft != it.none_term())
        self.fresh = IteV([(self.has_f, SV(ft, "obj", TIME)), (z3.Not(self.has_f), None)])
        self.spec = Spec(it, self.g, self.inr, self.ent, (self.has_f, instant(ft)))
        self.log, self.queries = [], []
        self.direct = False
        self.where = None
        self.obs = observer(it, lambda it, what, k: self.log.append((what, k)))
        self.workers = SV(ctx.fresh("workers"), "obj", ANY)
        ctx.extra["store_method"] = self.store_method
        it.call_contracts[RUN] = self.run_contract
        self.raised = None
        self.error = ctx.fresh("query_error")

    def t(self, props, text):
        return tag(props, "stale check: " + text)

    # ------------------------------------------------------------ stores
    def store_method(self, it, sv, name):
        if name != "get_modified_time":
            self.ctx.prove(self.t(["C14", "C05"], "stores are asked for nothing but their modified times"), False)

        def query(it, a, k):
            self.ctx.prove(self.t(["C10"], "a modified time is asked for through retry only"), self.in_retry)
            self.ctx.prove(self.t(["C07", "C10"], "modified times are asked for by the workers only"), self.where == "node")
            self.queries.append(sv)
            self.queried = True
            return self.answer(sv)

        return Model("get_modified_time", query)

    in_retry = False

    def retry(self, it, a, k):
        def attempt(it, args, kwargs):
            if self.in_retry:
                raise Unsupported("nested retry")
            self.in_retry = True
            try:
                return it.call(a[0], args, kwargs)
            finally:
                self.in_retry = False
        return Model("retried", attempt)

    def answer(self, sv):
        ctx = self.ctx
        if ctx.choose(2, "query") == 1:
            self.raised = SV(self.error, "obj", EXC)
            raise PyRaise(self.raised)
        if ctx.branch(present(sv.t)):
            return SV(mtime(sv.t), "obj", TIME)
        return None

    # ------------------------------------------------------------ the engine's contract
    def slots(self, it):
        """The families of slots with what they mean."""
        out = []
        for o in list(self.ctx.heap):
            if not isinstance(o, Fam) or cls_name(o.cls) != SLOT:
                continue
            vals = o.attrs.get("value", [])
            if len(vals) != 1 or vals[0][1] is not True:
                raise Unsupported("slots were changed before the stale check")
            v = vals[0][2]
            if v is False:
                out.append((o, "stale"))
            elif v is None:
                out.append((o, "time"))
            else:
                raise Unsupported("a slot of unknown meaning")
        if sorted(w for _, w in out) != ["stale", "time"]:
            raise Unsupported("the stale check keeps its results in another form")
        return out

    def run_contract(self, it, a, k):
        """Contract (units pool.run.*, scheduler.*): fn is called at most once for every node, after it returned for every predecessor; if run_function_on_graph
        returns, it returned for every node, and if it raises, it raises the NodeError of a call of fn that raised it."""
        ctx, spec = self.ctx, self.spec
        names = ["graph", "fn", "worker_count", "max_errors", "scheduler"]
        args = {**dict(zip(names, a)), **k}
        g = it.resolve(args["graph"])
        if not isinstance(g, GraphV) or self.where is not None:
            raise Unsupported("run_function_on_graph in another way")
        self.where = "engine"
        ctx.prove(self.t(["C10"], "stale_check_max_workers bounds the workers"), "worker_count" in args and it.is_(args["worker_count"], self.workers))
        ctx.prove(self.t(["C06", "C07", "C19"], "the first failing query ends the stale check"), it.resolve(args.get("max_errors", 0)) == 0)
        w = ctx.fresh("w")
        ctx.prove(self.t(["C15", "C05"], "every call and every registered node is examined"),
                  z3.ForAll([w], z3.Implies(z3.And(self.g.N0(w), z3.Or(is_call(w), self.inr(w))), g.node(w))))
        ctx.prove(self.t(["C05", "C15"], "nothing else than nodes of the plan is examined"), z3.ForAll([w], z3.Implies(g.node(w), self.g.N0(w))))
        slots = self.slots(it)
        what = ctx.choose(3, "run_function_on_graph")
        if what == 0:
            self.one_node(it, g, args["fn"], slots)
            raise PathEnd()
        self.where = "after"
        if what == 1:
            self.failure = it.exc(Exception, ("NodeError",))
            raise PyRaise(self.failure)
        for fam, role in slots:
            xs = fam.xs
            fam.attrs["value"] = [(xs, True, SV(spec.S(xs[0])) if role == "stale" else self.time_value(xs[0]))]
        return None

    def time_value(self, x, has=None, val=None):
        h = self.spec.has_m(x) if has is None else has
        v = self.spec.m(x) if val is None else val
        return IteV([(h, SV(v, "real", NAIVE)), (z3.Not(h), None)])

    def one_node(self, it, g, fn, slots):
        """fn(n) for an arbitrary n whose predecessors are done: afterwards the slots of n mean what they should."""
        ctx, spec = self.ctx, self.spec
        n = SV(ctx.fresh("node"), "obj", NODE)
        ctx.assume(g.node(n.t))
        ctx.assume(z3.Not(g.pred(n.t, n.t)))
        spec.unfold(n.t)
        other = ctx.fresh_fn("any_stale", Obj, B), ctx.fresh_fn("any_has", Obj, B), ctx.fresh_fn("any_time", Obj, R)
        before = {}
        for fam, role in slots:
            x = fam.xs[0]
            done = g.pred(x, n.t)
            if role == "stale":
                # other nodes may be processed at the same time: their slots hold anything
                v = SV(z3.If(done, spec.S(x), z3.And(x != n.t, other[0](x))))
            else:
                # a predecessor which is out of date has no time, or any
                has = z3.If(done, z3.Or(z3.And(z3.Not(spec.S(x)), spec.has_m(x)), z3.And(spec.S(x), other[1](x))), z3.And(x != n.t, other[1](x)))
                val = z3.If(z3.And(done, z3.Not(spec.S(x))), spec.m(x), other[2](x))
                v = self.time_value(x, has, val)
            fam.attrs["value"] = [(list(fam.xs), True, v)]
            before[fam.oid] = len(fam.attrs["value"])
        snaps = [(o, o.snap()) for o in ctx.heap if o not in [f for f, _ in slots]]
        self.where = "node"
        err = None
        try:
            it.call(fn, [n], {})
        except PyRaise as e:
            err = e.exc
        call = ctx.branch(is_call(n.t))
        log = self.log
        kinds = [x[0] for x in log]
        ctx.prove(self.t(["C10"], "the modified time of a node is asked for at most once (per attempt)"), len(self.queries) <= 1)
        for q in self.queries:
            ctx.prove(self.t(["C05", "C19"], "the store that is asked is the store of the node"), z3.And(self.inr(n.t), q.t == RV.store(self.ent(n.t))))
        if call:
            scope = seq_term(it, it.call(it.glob(CA + "_get_stale_scope"), [n, self.reg], {}))
            same = it.conj([it.ident(x[1]["section"], "stale") for x in log] + [seq_term(it, x[1]["scope"]) == scope for x in log])
            ctx.prove(self.t(["C15"], "a call is reported in section stale and in the scope that its total was announced for"), same)
        if err is None:
            ctx.cover("examined")
            ctx.prove(self.t(["C06", "C10", "C19"], "returns normally only when the query succeeded"), self.raised is None)
            if call:
                ctx.prove(self.t(["C15"], "running is followed by exactly one completed"), kinds == ["running", "completed"])
            else:
                ctx.prove(self.t(["C15"], "only calls are reported"), kinds == [])
            for fam, role in slots:
                v = it.resolve(it.fam_read(FamRef(fam, [n.t]), "value"))
                if role == "stale":
                    now = it.truth_f(v)
                    ctx.prove(self.t(["C03", "C05", "C08", "C18"], "a node is found out of date if it is"), it.disj([z3.Not(spec.S(n.t)), now]))
                    ctx.prove(self.t(["C05", "C08", "C18"], "a node is found out of date only if it is"), it.disj([spec.S(n.t), it.neg(now)]))
                else:
                    ok = it.conj([z3.Not(spec.has_m(n.t))]) if v is None else it.conj([spec.has_m(n.t), it.num(v) == spec.m(n.t)])
                    ctx.prove(self.t(["C03", "C05", "C08", "C18"], "an up-to-date node passes on the newest time at or above it"), z3.Or(spec.S(n.t), as_z3(ok)))
            for fam, role in slots:
                m = ctx.fresh("another")
                for fxs, guard, val in fam.attrs["value"][before[fam.oid]:]:
                    gm = z3.substitute(as_z3(guard), (fxs[0], m))
                    ctx.prove(self.t(["C03", "C05", "C08"], "only the slots of the node itself are written"), z3.Implies(gm, m == n.t))
            for o, s in snaps:
                if o.snap() != s and not self.harmless(o, s):
                    raise Unsupported(f"the stale check of a node changes {o!r}")
            return
        ctx.prove(self.t(["C06"], "fails only when the query failed"), self.raised is not None)
        if ctx.branch(EXC.is_exception(self.error)):
            ctx.cover("query fails")
            ctx.prove(self.t(["C06", "C19"], "a failing query raises NodeError"), isinstance(err, Inst) and cls_name(err.cls) == NODE_ERROR)
            ctx.prove(self.t(["C06"], "the cause of the NodeError is the exception of the query"), it.is_(err.attrs.get("__cause__"), self.raised))
            if call:
                ctx.cover("query of a call fails")
                ctx.prove(self.t(["C06", "C19"], "the NodeError names the call that was examined"), it.is_(err.attrs.get("node"), n))
                ctx.prove(self.t(["C15"], "running is followed by exactly one failed"), kinds == ["running", "failed"])
                x = log[-1][1].get("exception")
                ctx.prove(self.t(["C15"], "the exception reported is caused by the exception of the query"),
                          isinstance(x, Inst) and cls_name(x.cls) == "uberjob._errors.CallError" and it.is_(x.attrs.get("__cause__"), self.raised))
                ctx.prove(self.t(["C15", "C19"], "the exception reported names the call"), it.is_(x.attrs.get("call"), n))
            else:
                ctx.cover("query of a literal fails")
                c = it.resolve(err.attrs.get("node"))
                ctx.prove(self.t(["C06", "C19"], "the NodeError of a registered literal names a call"), isinstance(c, Inst) and cls_name(c.cls) == G + "Call")
                ctx.prove(self.t(["C19"], "which is attributed to the line that created the literal"), it.is_(c.attrs.get("stack_frame"), SV(frame_of(n.t), "obj", ANY)))
                ctx.prove(self.t(["C15"], "only calls are reported"), kinds == [])
        else:
            ctx.cover("query interrupted")

    def harmless(self, o, s):
        return False

    def run(self):
        it = self.it
        self.result = it.call(it.glob(CA + "_get_stale_nodes"), [self.plan, self.reg],
                              {"retry": UserModel("retry", self.retry), "max_workers": self.workers, "fresh_time": self.fresh, "progress_observer": self.obs})
        return self.result


@unit("stale.nodes", ["C03", "C05", "C06", "C08", "C10", "C14", "C15", "C18", "C19"],
      covers=("examined", "query of a call fails", "query of a literal fails", "query interrupted", "result", "engine fails"))
def stale_nodes(ctx, it):
    """_get_stale_nodes on an arbitrary plan and registry: exactly the out-of-date nodes (by the inductive spec S), whatever the order and the failures."""
    r = StaleRun(ctx, it)
    try:
        result = it.resolve(r.run())
    except PyRaise as e:
        ctx.cover("engine fails")
        ctx.prove(r.t(["C06", "C07", "C19"], "the error of the stale check is raised as it is"), it.is_(e.exc, getattr(r, "failure", None)))
        return
    if not isinstance(result, SetV):
        raise Unsupported("the stale check returns something else than a set")
    ctx.cover("result")
    ctx.prove(r.t(["C05", "C15"], "run_function_on_graph is called"), r.where == "after")
    w = ctx.fresh("w")
    r.spec.unfold(w)
    has = as_z3(set_contains_term(it, result, w))
    ctx.prove(r.t(["C03", "C05", "C08"], "every out-of-date node is returned"), z3.Implies(z3.And(r.g.N0(w), r.spec.S(w)), has))
    ctx.prove(r.t(["C05", "C08"], "nothing but out-of-date nodes is returned"), z3.Implies(has, z3.And(r.g.N0(w), r.spec.S(w))))
    v = ctx.fresh("v")
    k = z3.Const("k", r.g.E0.domain(2))
    u = ctx.fresh("u")
    now = r.plan.attrs["graph"]
    ctx.prove(r.t(["C13", "C03"], "the plan that was passed is not changed"), z3.ForAll([u, v, k], z3.And(now.edge(u, v, k) == r.g.E0(u, v, k), now.node(u) == r.g.N0(u))))
