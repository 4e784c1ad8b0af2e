"""run: every stage gets what it should, in the right order, and nothing else happens (C02, C03, C05-C07, C10, C13-C15, C17-C19)."""
import z3

from ..core import B, I, Obj, Opaque, PathEnd, PyRaise, SV, Unsupported
from ..models import as_z3
from ..values import BuiltinCls, Coll, DictV, Inst, ListV, Model, UserModel, PyFunc
from .base import describe_exc, returns, tag, unit
from .fs import ANY
from .graphs import (G, Key, NODE, SEQ, GraphV, cls_name, is_call, node_term, observer, seq_term, symbolic_plan, symbolic_registry)
from .retry import EXC

RUN = "uberjob._run."
TF = "uberjob._transformations."
NODE_ERROR = "uberjob._errors.NodeError"
CALL_ERROR = "uberjob._errors.CallError"


def havoc(it, g, what):
    """The callee may have changed the graph in any way."""
    f = it.ctx.fresh_fn
    E, N = f("edge_" + what, Obj, Obj, Key, B), f("node_" + what, Obj, B)
    op = ("set", [], True, E, N)
    g.ops = g.ops + [op]
    return op


class Stage:
    """A plan and an output node, as one stage left them."""

    def __init__(self, plan, out):
        self.plan, self.out = plan, out
        g = plan.attrs["graph"]
        self.content = (g.E0, tuple(id(op) for op in g.ops))
        self.ops = g.ops

    def same(self, it, plan, out):
        plan = it.resolve(plan)
        if not isinstance(plan, Inst) or cls_name(plan.cls) != "uberjob._plan.Plan":
            return False
        g = plan.attrs.get("graph")
        return isinstance(g, GraphV) and (g.E0, tuple(id(op) for op in g.ops)) == self.content


class UserObject:
    """An instance of a subclass that the user made: nothing is known about its truth or ==."""

    user = True

    def truth(self, it, inst):
        return z3.Function("truth_of", Obj, B)(it.term(inst))

    def getattr(self, it, inst, name):
        return None

    def iterate(self, it, inst):
        it.raise_(TypeError, "object is not iterable")


class Orchestration:
    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        self.plan, self.g = symbolic_plan(it, "user")
        self.steps = []
        self.failure = None
        self.retries = []
        self.totals, self.counted = [], None
        self.stage = None
        self.dry = ctx.choose(2, "dry_run") == 1
        self.executed = None
        c = it.call_contracts
        c["uberjob._util.traceback.get_stack_frame"] = self.get_stack_frame
        c["uberjob._plan.Plan._gather"] = self.gather
        c[TF + "caching.plan_with_value_stores"] = self.with_stores
        c[TF + "pruning.prune_plan"] = self.prune
        c["uberjob._execution.run_physical.run_physical"] = self.physical
        c["uberjob._util.retry.create_retry"] = self.create_retry
        it.externs["counter_items"] = self.counter_items
        # the arguments
        kw = {}
        self.output = self.out_node = None
        if ctx.choose(2, "output") == 1:
            self.output = kw["output"] = SV(ctx.fresh("output_spec"), "obj", ANY)
            ctx.assume(self.output.t != it.none_term())
        self.reg = self.inr = None
        if ctx.choose(2, "registry") == 1:
            self.reg, self.inr, ent = symbolic_registry(it, self.g)
            kw["registry"] = self.reg
        if self.dry:
            kw["dry_run"] = True
        self.workers = self.stale_workers = None
        # limits: not given, or any legal number
        self.limits = ctx.choose(3, "limits")
        self.errors = 0
        if self.limits:
            self.workers = SV(ctx.fresh("max_workers", I))
            self.errors = SV(ctx.fresh("max_errors", I))
            ctx.assume(z3.And(self.workers.t >= 1, self.errors.t >= 0))
            kw["max_workers"], kw["max_errors"] = self.workers, self.errors
            self.stale_workers = self.workers
            if self.limits == 2:
                self.stale_workers = kw["stale_check_max_workers"] = SV(ctx.fresh("stale_workers", I))
                ctx.assume(self.stale_workers.t >= 1)
                self.errors = kw["max_errors"] = None
        self.retry_kind = self.limits
        if self.retry_kind == 1:
            self.attempts = kw["retry"] = SV(ctx.fresh("attempts", I))
            ctx.assume(self.attempts.t >= 1)
        elif self.retry_kind == 2:
            self.decorator = kw["retry"] = UserModel("retry decorator", self.no_call)
        self.scheduler = (None, "default", "random")[self.limits]
        if self.scheduler:
            kw["scheduler"] = self.scheduler
        self.fresh = None
        if self.reg is not None and self.limits == 2:
            self.fresh = kw["fresh_time"] = SV(ctx.fresh("fresh_time"), "obj", FRESH)
        self.transform = ctx.choose(2, "transform_physical") == 1
        if self.transform:
            kw["transform_physical"] = UserModel("transform_physical", self.transform_physical)
        self.obs = observer(it, self.notified)
        prog = Inst(ctx, it.glob("uberjob.progress._progress.Progress"))
        prog.attrs["_create_observer"] = Model("create_observer", self.create_observer)
        prog.ext = UserObject()
        kw["progress"] = prog
        self.kw = kw

    def t(self, props, text):
        return tag(props, "run: " + text)

    def no_call(self, it, a, k):
        raise Unsupported("run calls the retry decorator itself")

    def create_observer(self, it, a, k):
        self.ctx.prove(self.t(["C15"], "one observer is created"), "observer" not in self.steps)
        self.steps.append("observer")
        return self.obs

    def notified(self, it, what, k):
        ctx = self.ctx
        if what in ("enter", "exit"):
            ctx.prove(self.t(["C15"], "the observer is entered once, and exited after it was entered"), self.steps.count(what) == 0 and (what == "enter" or "enter" in self.steps))
            self.steps.append(what)
            return
        self.inside("totals")
        ctx.prove(self.t(["C15"], "run itself announces nothing but totals"), what == "total")
        self.totals.append((k, self.stage))

    def inside(self, what, before_enter=False):
        """A stage may notify the observer: it has to be entered and not exited."""
        self.ctx.prove(self.t(["C15"], "the observer is entered before every stage and exited after"), "enter" in self.steps and "exit" not in self.steps)
        self.steps.append(what)

    def get_stack_frame(self, it, a, k):
        d = it.resolve(a[0] if a else k.get("initial_depth", 2))
        if not isinstance(d, int):
            raise Unsupported("symbolic depth")
        n = len(it.frames) - d
        return SV(z3.Function("frame_at", I, Obj)(z3.IntVal(n)), "obj", ANY)

    def gather(self, it, a, k):
        """Contract (Plan._gather): adds nodes to the plan, returns the node for the value."""
        ctx = self.ctx
        plan, frame, value = it.resolve(a[0]), a[1], a[2]
        ctx.prove(self.t(["C02", "C05", "C14"], "what is gathered is the output that was asked for"), self.output is not None and it.is_(value, self.output))
        ctx.prove(self.t(["C02", "C03", "C05"], "the output is gathered once, before any other stage"), self.stage is None and self.out_node is None)
        ctx.prove(self.t(["C13"], "the output is gathered in a copy of the plan"), isinstance(plan, Inst) and plan is not self.plan and plan.attrs["graph"] is not self.plan.attrs["graph"])
        ctx.prove(self.t(["C19"], "the calls which gather the output are attributed to the line that called run"), it.is_(frame, SV(z3.Function("frame_at", I, Obj)(z3.IntVal(-1)), "obj", ANY)))
        g = plan.attrs["graph"]
        ctx.prove(self.t(["C01", "C02", "C03", "C05"], "the copy is a copy of the plan"), g.E0 is self.g.E0 and not g.ops)
        havoc(it, g, "gathered")
        self.out_node = SV(ctx.fresh("output"), "obj", NODE)
        ctx.assume(g.node(self.out_node.t))
        self.gathered = g.ops
        return self.out_node

    def start_content(self, plan):
        """The plan that the first stage gets: a copy of the user's plan, with the output gathered."""
        g = plan.attrs.get("graph") if isinstance(plan, Inst) else None
        return isinstance(g, GraphV) and g.E0 is self.g.E0 and g is not self.plan.attrs["graph"] and plan is not self.plan and (
            [id(o) for o in g.ops] == ([id(o) for o in self.gathered] if self.out_node is not None else []))

    def fail(self, name, nodes=True):
        """The stage returns, or raises: NodeError, another exception (or an interrupt)."""
        ctx, it = self.ctx, self.it
        c = ctx.choose(3 if nodes else 2, name)
        if c == 0:
            return
        if not nodes:
            c = 2
        if c == 1:
            e = Inst(ctx, it.glob(NODE_ERROR))
            self.bad = SV(ctx.fresh("failed_node"), "obj", NODE)
            ctx.assume(is_call(self.bad.t))
            self.cause = SV(ctx.fresh("cause"), "obj", EXC)
            e.attrs = {"args": (), "node": self.bad, "__cause__": self.cause, "__context__": None}
            self.failure, self.failure_kind = e, "node"
        else:
            self.failure, self.failure_kind = SV(ctx.fresh("exception"), "obj", EXC), "other"
            ctx.assume(z3.Not(EXC.isinstance(it, self.failure, it.glob(NODE_ERROR))))
        raise PyRaise(self.failure)

    def check_retry(self, r, who):
        r = self.it.resolve(r)
        ctx = self.ctx
        if self.retry_kind == 2:
            ok = r is self.decorator
        elif r is None or isinstance(r, PyFunc) and r.qual == "uberjob._util.retry.identity":
            ok = self.retry_kind == 0
        else:
            n = next((n for m, n in self.retries if m is r), None)
            ok = n is not None and self.it.ident(n, self.attempts if self.retry_kind == 1 else 1)
        ctx.prove(self.t(["C10"], f"{who} uses the retry that was asked for"), ok)

    def create_retry(self, it, a, k):
        """Contract (unit retry.calls): at most that many attempts."""
        m = Model("retry", self.no_call)
        self.retries.append((m, a[0] if a else k["attempts"]))
        return m

    def with_stores(self, it, a, k):
        """Contract (units vstores.*, stale.nodes, prune.*)."""
        ctx = self.ctx
        args = {**dict(zip(["plan", "registry"], a)), **k}
        self.inside("stores")
        p = it.resolve(args["plan"])
        P = ["C01", "C03", "C05", "C08", "C09", "C14"]
        ctx.prove(self.t(P, "the stores are added to a copy of the plan, with the output gathered"), self.stage is None and self.start_content(p))
        ctx.prove(self.t(P, "the stores are those of the registry"), self.reg is not None and it.is_(args["registry"], self.reg))
        ctx.prove(self.t(P + ["C02"], "the output is redirected with the stores"), it.is_(args.get("output_node"), self.out_node))
        ctx.prove(self.t(["C15"], "the stale check notifies the observer of the run"), it.is_(args.get("progress_observer"), self.obs))
        ctx.prove(self.t(["C10"], "the stale check is limited to stale_check_max_workers, max_workers if not given"), it.is_(args.get("max_workers"), self.stale_workers) if not isinstance(self.stale_workers, SV) else isinstance(args.get("max_workers"), SV) and args["max_workers"].t == self.stale_workers.t)
        self.check_retry(args.get("retry"), "the stale check")
        ctx.prove(self.t(["C03", "C05", "C14", "C18"], "the stale check uses fresh_time"), it.is_(args.get("fresh_time"), self.fresh))
        inplace = it.resolve(args.get("inplace", False))
        self.fail("plan_with_value_stores")
        if inplace is not True:
            new = Inst(ctx, it.glob("uberjob._plan.Plan"))
            new.attrs = dict(p.attrs, graph=GraphV(ctx, "stores", like=p.attrs["graph"]))
            p = new
        havoc(it, p.attrs["graph"], "stores")
        out = self.out_node and SV(ctx.fresh("redirected"), "obj", NODE)
        if out is not None:
            ctx.assume(p.attrs["graph"].node(out.t))
        self.stage = Stage(p, out)
        return (p, out)

    def prune(self, it, a, k):
        """Contract (unit prune.plan)."""
        ctx = self.ctx
        args = {**dict(zip(["plan"], a)), **k}
        p = it.resolve(args["plan"])
        P = ["C01", "C02", "C04", "C05", "C14"]
        if self.reg is not None:
            # an empty registry
            w = z3.Const("rw", Obj)
            ctx.prove(self.t(["C03", "C05", "C08", "C09"], "stores are left out only without registered nodes"), z3.Not(z3.Exists([w], self.inr(w))))
        ctx.prove(self.t(P, "what is not needed is pruned from a copy of the plan, with the output gathered"), self.stage is None and self.start_content(p))
        ctx.prove(self.t(P, "nothing but the output is required"), it.neg(it.truth_f(args["required_nodes"])) if not isinstance(args["required_nodes"], (tuple, list)) else not args["required_nodes"])
        ctx.prove(self.t(P, "the output is kept"), it.is_(args.get("output_node"), self.out_node))
        if it.resolve(args.get("inplace", False)) is not True:
            new = Inst(ctx, it.glob("uberjob._plan.Plan"))
            new.attrs = dict(p.attrs, graph=GraphV(ctx, "pruned", like=p.attrs["graph"]))
            p = new
        havoc(it, p.attrs["graph"], "pruned")
        if self.out_node is not None:
            ctx.assume(p.attrs["graph"].node(self.out_node.t))
        self.stage = Stage(p, self.out_node)
        self.steps.append("prune")
        return p

    def transform_physical(self, it, a, k):
        ctx = self.ctx
        ctx.prove(self.t(["C14", "C03"], "transform_physical gets the plan and the output of the stage before"),
                  len(a) == 2 and not k and self.stage is not None and self.stage.same(it, a[0], a[1]) and it.is_(a[1], self.stage.out))
        ctx.prove(self.t(["C14"], "transform_physical is called once"), "transform" not in self.steps)
        self.inside("transform")
        self.fail("transform_physical", nodes=False)
        new, g = symbolic_plan(it, "transformed")
        out = None
        if ctx.choose(2, "transform_physical leaves an output"):
            out = SV(ctx.fresh("transformed_output"), "obj", NODE)
            ctx.assume(g.N0(out.t))
        self.stage = Stage(new, out)
        return (new, out)

    def counter_items(self, it, counter):
        ctx = self.ctx
        if len(counter.segs) != 1 or counter.segs[0][0] != "coll":
            raise Unsupported("shape of the counter")
        self.counted = counter.segs[0][1]
        e, n = ctx.fresh("scope"), ctx.fresh_fn("occurrences", Obj, I)
        f = ctx.fresh_fn("counted", Obj, B)
        ctx.assume(z3.ForAll([e], z3.Implies(f(e), n(e) >= 1), patterns=[f(e)]))
        return ListV(ctx, [("coll", Coll([e], f(e), (SV(e, "obj", SEQ), SV(n(e))), None, False, None, True, "count"))])

    def at_end(self, plan, out, what):
        ctx, it = self.ctx, self.it
        want = (["stores"] if "stores" in self.steps else ["prune"]) + (["transform"] if self.transform else [])
        P = ["C01", "C02", "C03", "C04", "C05", "C08", "C09", "C14", "C15"]
        ctx.prove(self.t(P, f"every stage comes before {what}, in order"), [s for s in self.steps if s in ("stores", "prune", "transform")] == want)
        ctx.prove(self.t(P, f"{what} is the plan that the last stage left"), self.stage is not None and self.stage.same(it, plan, out))
        ctx.prove(self.t(P, f"the output of {what} is that of the last stage"), it.is_(out, self.stage.out))
        if not self.dry or self.totals:
            self.check_totals()

    def check_totals(self):
        ctx, it = self.ctx, self.it
        ctx.prove(self.t(["C15"], "the totals of the run are announced once"), len(self.totals) == 1 and self.counted is not None)
        k, stage = self.totals[0]
        c, sc = self.counted, k["scope"]
        if len(c.xs) != 1:
            raise Unsupported("shape of the counter")
        x = ctx.fresh("n")
        m, e, _ = c.at([x])
        ctx.prove(self.t(["C15"], "the totals of the run count every call that will be executed once, and nothing else"), as_z3(m) == z3.And(self.stage.plan.attrs["graph"].node(x), is_call(x)))
        ctx.prove(self.t(["C15"], "the totals are announced for section run"), it.ident(k["section"], "run"))
        ctx.prove(self.t(["C15"], "with the number of calls of the scope"), isinstance(k["amount"], SV) and isinstance(sc, SV) and k["amount"].t.decl().name().startswith("occurrences") and k["amount"].t.arg(0).eq(sc.t))
        ctx.assume(m)
        want = seq_term(it, it.call(it.glob("uberjob._graph.get_full_call_scope"), [SV(x, "obj", NODE)], {}))
        ctx.prove(self.t(["C15"], "the totals are announced for the scopes which are reported running"), seq_term(it, it.resolve(e)) == want)

    def physical(self, it, a, k):
        """Contract (units run.physical, physical.*, pool.*)."""
        ctx = self.ctx
        args = {**dict(zip(["plan"], a)), **k}
        self.inside("execute")
        ctx.prove(self.t(["C14"], "a dry run executes nothing"), not self.dry)
        ctx.prove(self.t(["C04", "C02"], "the plan is executed once"), self.executed is None)
        self.at_end(args["plan"], args.get("output_node"), "what is executed")
        ctx.prove(self.t(["C13"], "the plan that is executed is not the user's"), it.resolve(args["plan"]) is not self.plan)
        ctx.prove(self.t(["C15"], "the calls notify the observer of the run"), it.is_(args.get("progress_observer"), self.obs))
        same = lambda x, y: it.resolve(x) is None if y is None else it.ident(x, y)
        ctx.prove(self.t(["C10"], "max_workers limits the run"), same(args.get("max_workers"), self.workers))
        ctx.prove(self.t(["C10", "C06"], "max_errors limits the run"), same(args.get("max_errors", 0), self.errors))
        ctx.prove(self.t(["C01", "C02"], "the scheduler is the one that was asked for"), same(args.get("scheduler"), self.scheduler))
        self.check_retry(args.get("retry"), "the run")
        self.executed = SV(ctx.fresh("result"), "obj", ANY)
        self.fail("run_physical")
        return self.executed


class FreshSchema:
    """An arbitrary datetime."""

    name = "datetime"
    never_none = True

    def isinstance(self, it, sv, cls):
        import datetime

        return getattr(cls, "name", "") in ("datetime.datetime", "datetime", "dt.datetime") or getattr(cls, "cls", None) in (datetime.datetime, object)

    def type_is(self, it, sv, cls):
        return self.isinstance(it, sv, cls)

    def truth(self, it, sv):
        return True


FRESH = FreshSchema()


@unit("run.orchestration", ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C13", "C14", "C15", "C17", "C18", "C19"],
      covers=("dry run", "returns", "a node fails", "another exception"))
def orchestration(ctx, it):
    """run: which stage gets what, in which order, with which limits; totals; dry run; errors; the observer is exited on every path."""
    r = Orchestration(ctx, it)
    t = r.t
    snaps = [(o, o.snap()) for o in (r.plan, r.g) + ((r.reg, r.reg.attrs["mapping"]) if r.reg is not None else ())]
    try:
        result, err = it.call(it.glob(RUN + "run"), [r.plan], dict(r.kw)), None
    except PyRaise as e:
        result, err = None, e.exc
    ctx.prove(t(["C15"], "the observer is entered once and exited once, whatever happens"), r.steps.count("enter") == 1 and r.steps.count("exit") == 1)
    ctx.prove(t(["C13"], "the plan and the registry are not changed"), all(o.snap() == s for o, s in snaps))
    ctx.prove(t(["C02", "C05"], "the output is gathered"), (r.out_node is not None) == (r.output is not None))
    if r.failure is not None:
        if r.failure_kind == "node":
            ctx.cover("a node fails")
            ctx.prove(t(["C06", "C19"], "a failed node is raised as a CallError"), isinstance(err, Inst) and cls_name(err.cls) == CALL_ERROR)
            ctx.prove(t(["C06", "C19"], "the CallError names the call that failed"), it.is_(err.attrs.get("call"), r.bad))
            ctx.prove(t(["C06"], "its cause is the exception of the call"), it.is_(err.attrs.get("__cause__"), r.cause))
        else:
            ctx.cover("another exception")
            ctx.prove(t(["C06", "C17", "C07"], "another exception is raised as it is"), err is not None and it.is_(err, r.failure))
        return
    if err is not None:
        ctx.prove(t(["C02", "C06", "C10", "C14"], f"does not raise ({describe_exc(err)[:60]})"), False)
        raise PathEnd()
    if r.dry:
        ctx.cover("dry run")
        res = it.resolve(result)
        ctx.prove(t(["C14"], "a dry run executes nothing"), r.executed is None)
        ctx.prove(t(["C14"], "a dry run returns a plan and an output"), isinstance(res, tuple) and len(res) == 2)
        r.at_end(res[0], res[1], "what a dry run returns")
        ctx.prove(t(["C13"], "what is returned is not the user's plan"), it.resolve(res[0]) is not r.plan)
        return
    ctx.cover("returns")
    ctx.prove(t(["C02", "C04", "C05"], "the plan is executed"), r.executed is not None)
    ctx.prove(t(["C02"], "the result is that of the execution"), it.is_(result, r.executed))
