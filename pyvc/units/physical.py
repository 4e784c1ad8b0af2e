"""run_physical's process: arguments, retry, results, progress, errors and release of one node (C02, C04, C06, C10, C15, C16)."""
import z3

from ..core import B, I, Obj, Opaque, PathEnd, PyRaise, SV, Unsupported
from ..interp import Star, STARKW
from ..models import as_z3
from ..reach import Reach, frame_locals
from ..values import BuiltinCls, Coll, DictV, Fam, FamRef, Inst, ListV, Model, UserModel, term_vars
from .base import returns, tag, unit
from .fs import ANY
from .graphs import (G, KEY, Key, NODE, GraphV, cls_name, contract_names, fn_of, install_graph, is_call, node_term, observer, seq_term, symbolic_plan, value_of)
from .retry import EXC, ExcSchema

PH = "uberjob._execution.run_physical."


def wellformed(it, g):
    """Every call has its positional arguments at 0..npos-1 and keywords at 0..nkw-1, one node each (Plan._call's postcondition)."""
    ctx = it.ctx
    npos, nkw = ctx.fresh_fn("npos", Obj, I), ctx.fresh_fn("nkw", Obj, I)
    parg, karg, kname = ctx.fresh_fn("posarg", Obj, I, Obj), ctx.fresh_fn("kwarg", Obj, I, Obj), ctx.fresh_fn("kwname", Obj, I, Obj)
    u, v, i, n = z3.Const("wu", Obj), z3.Const("wv", Obj), z3.Const("wi", I), z3.Const("wn", Obj)
    E = g.E0
    ctx.assume(z3.ForAll([v], z3.And(npos(v) >= 0, nkw(v) >= 0), patterns=[npos(v)]))
    ctx.assume(z3.ForAll([u, v, i], z3.Implies(E(u, v, Key.kPos(i)), z3.And(0 <= i, i < npos(v), u == parg(v, i), is_call(v))), patterns=[E(u, v, Key.kPos(i))]))
    ctx.assume(z3.ForAll([v, i], z3.Implies(z3.And(0 <= i, i < npos(v), g.N0(v), is_call(v)), E(parg(v, i), v, Key.kPos(i))), patterns=[parg(v, i)]))
    ctx.assume(z3.ForAll([u, v, n, i], z3.Implies(E(u, v, Key.kKw(n, i)), z3.And(0 <= i, i < nkw(v), u == karg(v, i), n == kname(v, i), is_call(v))),
                         patterns=[E(u, v, Key.kKw(n, i))]))
    ctx.assume(z3.ForAll([v, i], z3.Implies(z3.And(0 <= i, i < nkw(v), g.N0(v), is_call(v)), E(karg(v, i), v, Key.kKw(kname(v, i), i))), patterns=[karg(v, i)]))
    # the arguments by name are a dict: each name occurs once
    kidx = ctx.fresh_fn("kwindex", Obj, Obj, I)
    ctx.assume(z3.ForAll([v, i], z3.Implies(z3.And(0 <= i, i < nkw(v)), kidx(v, kname(v, i)) == i), patterns=[kname(v, i)]))
    return npos, nkw, parg, karg, kname


def get_argument_nodes_contract(it, g, wf):
    """Contract of graph.get_argument_nodes on a well-formed graph (proved in unit args.get_argument_nodes)."""
    npos, nkw, parg, karg, kname = wf
    ctx = it.ctx

    def contract(it, a, k):
        t = node_term(it, a[1])
        i, j = ctx.fresh("i", I), ctx.fresh("j", I)
        ctx.assume(npos(t) >= 0)
        ctx.assume(nkw(t) >= 0)
        args = ListV(ctx, [("coll", Coll([i], z3.And(0 <= i, i < npos(t)), SV(parg(t, i), "obj", NODE), g.N0(parg(t, i)), True, npos(t), True, "parg"))])
        from ..models import STR

        kw = DictV(ctx, [("coll", Coll([j], z3.And(0 <= j, j < nkw(t)), (SV(kname(t, j), "obj", STR), SV(karg(t, j), "obj", NODE)), g.N0(karg(t, j)), True, nkw(t), True, "karg"))])
        return (args, kw)

    it.call_contracts["uberjob.graph.get_argument_nodes"] = contract


class FnSchema(type(ANY)):
    name = "function"

    def call(self, it, sv, args, kwargs):
        it.ctx.extra["direct"] = True
        return SV(it.ctx.fresh("direct"), "obj", ANY)

    def truth(self, it, sv):
        return z3.Function("truth_of", Obj, B)(sv.t)


FN = FnSchema()


class Setup:
    """prep_run_physical on an arbitrary well-formed plan; retry hands every call to `outcome`."""

    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        self.plan, self.g = symbolic_plan(it)
        ctx.extra["fn_tag"] = FN
        self.wf = wellformed(it, self.g)
        get_argument_nodes_contract(it, self.g, self.wf)
        self.log, self.calls = [], []
        obs = observer(it, lambda it, what, k: self.log.append((what, k)))

        def wrap(it, a, k):
            def attempt(it, args, kwargs):
                r = self.outcome(len(self.calls))
                self.calls.append((a[0], args, kwargs, len(self.log)))
                if isinstance(r, PyRaise):
                    raise r
                return r

            return Model("retried", attempt)

        self.outcome = None
        with_out = ctx.choose(2, "output") == 1
        out = SV(ctx.fresh("output"), "obj", NODE) if with_out else None
        if with_out:
            ctx.assume(self.g.N0(out.t))
        prep = it.call(it.glob(PH + "prep_run_physical"), [self.plan], {"inplace": True, "output_node": out, "retry": UserModel("retry", wrap), "progress_observer": obs})
        self.out, self.slot = out, it.getattr(prep, "output_slot")
        self.process = it.getattr(prep, "process")
        self.lookup = it.getattr(prep, "bound_call_lookup")
        self.graph = it.getattr(it.getattr(prep, "plan"), "graph")

    def node(self, name):
        n = SV(self.ctx.fresh(name), "obj", NODE)
        self.ctx.assume(self.g.N0(n.t))
        return n

    def run(self, node):
        try:
            self.it.call(self.process, [node], {})
        except PyRaise as e:
            return e.exc
        return None


@unit("physical.process", ["C01", "C02", "C04", "C06", "C10", "C14", "C15", "C19"], covers=("literal", "succeeds", "fails", "interrupted"))
def process_unit(ctx, it):
    """prep_run_physical and its process: one node of an arbitrary plan is processed; its outcome, its notifications, its result, nothing else."""
    s = Setup(ctx, it)
    g, log, calls = s.g, s.log, s.calls
    ctx.prove(tag(["C04", "C14"], "prep_run_physical executes no call and notifies nothing"), not calls and not log)
    w = ctx.fresh("w")
    ctx.prove(tag(["C01", "C02"], "prep_run_physical: the graph to run keeps every call"), z3.ForAll([w], z3.Implies(z3.And(g.N0(w), is_call(w)), s.graph.node(w))))
    result, error = ctx.fresh("result"), ctx.fresh("error")
    raised = []

    def outcome(n):
        if ctx.choose(2, "outcome") == 0:
            return SV(result, "obj", ANY)
        raised.append(1)
        return PyRaise(SV(error, "obj", EXC))

    s.outcome = outcome
    node = s.node("node")
    err = s.run(node)
    if ctx.branch(z3.Not(is_call(node.t))):
        ctx.cover("literal")
        ctx.prove(tag(["C04", "C15"], "process: a literal calls nothing, notifies nothing and does not fail"), not calls and not log and err is None)
        return
    ctx.prove(tag(["C04", "C10"], "process: the function of the call is called exactly once through retry"), len(calls) == 1)
    ctx.prove(tag(["C10"], "process: the function is never called except through retry"), not ctx.extra.get("direct"))
    f, args, kwargs, at = calls[0]
    ctx.prove(tag(["C02", "C06"], "process: what is called is the function of the node"), it.is_(f, SV(fn_of(node.t), "obj", FN)))
    scope = seq_term(it, it.call(it.glob("uberjob._graph.get_full_call_scope"), [node], {}))
    kinds = [x[0] for x in log]

    def same_scope():
        return it.conj([it.ident(x[1]["section"], "run") for x in log] + [seq_term(it, x[1]["scope"]) == scope for x in log])

    ctx.prove(tag(["C15"], "process: the call is reported running before it is executed"), at == 1 and kinds[0] == "running")
    mine = s.out is not None and ctx.branch(it.is_(s.out, node))
    if err is None:
        ctx.cover("succeeds")
        ctx.prove(tag(["C15"], "process: running is followed by exactly one completed"), kinds == ["running", "completed"])
        ctx.prove(tag(["C15"], "process: completed is reported for the section and scope of running"), same_scope())
        if mine:
            ctx.prove(tag(["C02"], "process: the value of the output call becomes the value of the output"), it.is_(it.getattr(s.slot, "value"), SV(result, "obj", ANY)))
        ctx.prove(tag(["C06", "C10"], "process: returns normally only when the call succeeded"), not raised)
        return
    ctx.prove(tag(["C06"], "process: fails only when the call failed"), bool(raised))
    if mine:
        ctx.prove(tag(["C02"], "process: a failed call has no result"), it.is_(it.getattr(s.slot, "value"), None))
    if ctx.branch(EXC.is_exception(error)):
        ctx.cover("fails")
        ctx.prove(tag(["C06"], "process: a failing call raises NodeError"), isinstance(err, Inst) and cls_name(err.cls) == "uberjob._errors.NodeError")
        ctx.prove(tag(["C06", "C19"], "process: the NodeError names the call that failed"), it.is_(err.attrs.get("node"), node))
        ctx.prove(tag(["C06"], "process: the cause of the NodeError is the very exception that the call raised"), it.is_(err.attrs.get("__cause__"), SV(error, "obj", EXC)))
        ctx.prove(tag(["C15"], "process: running is followed by exactly one failed"), kinds == ["running", "failed"])
        ctx.prove(tag(["C15"], "process: failed is reported for the section and scope of running"), same_scope())
        x = log[-1][1].get("exception")
        ctx.prove(tag(["C15", "C06"], "process: the exception reported is a CallError"), isinstance(x, Inst) and cls_name(x.cls) == "uberjob._errors.CallError")
        ctx.prove(tag(["C15", "C06"], "process: the exception reported is caused by the exception of the call"), it.is_(x.attrs.get("__cause__"), SV(error, "obj", EXC)))
        ctx.prove(tag(["C15", "C19"], "process: the exception reported names the call"), it.is_(x.attrs.get("call"), node))
    else:
        ctx.cover("interrupted")
        ctx.prove(tag(["C06"], "process: what is not an Exception propagates, itself or as the cause of a NodeError"),
                  it.is_(err, SV(error, "obj", EXC)) if not (isinstance(err, Inst) and cls_name(err.cls) == "uberjob._errors.NodeError")
                  else it.conj([it.is_(err.attrs.get("node"), node), it.is_(err.attrs.get("__cause__"), SV(error, "obj", EXC))]))


def flat(args):
    segs = []
    for a in args:
        segs += a.segs if isinstance(a, Star) else [("one", a)]
    return segs


@unit("physical.arguments", ["C01", "C02", "C16"], covers=("positional literal", "positional call", "keyword literal", "keyword call"))
def arguments_unit(ctx, it):
    """The call which produces argument i is executed, then any other call, then the consumer: it gets that result at i, and nothing more than its arguments."""
    s = Setup(ctx, it)
    g = s.g
    npos, nkw, parg, karg, kname = s.wf
    node = s.node("consumer")
    ctx.assume(is_call(node.t))
    positional = ctx.choose(2, "kind") == 0
    i = ctx.fresh("i", I)
    ctx.assume(z3.And(0 <= i, i < (npos if positional else nkw)(node.t)))
    p = SV((parg if positional else karg)(node.t, i), "obj", NODE)
    ctx.assume(g.N0(p.t))
    ctx.assume(p.t != node.t)  # the graph is acyclic
    results = [ctx.fresh(f"result{n}") for n in range(3)]
    producing = ctx.branch(is_call(p.t))
    n0 = 0 if producing else 1
    steps = []

    def outcome(n):
        what = steps[-1]
        if what == "other" and ctx.choose(2, "outcome") == 1:
            return PyRaise(SV(ctx.fresh("error"), "obj", EXC))
        return SV(results[{"producer": 0, "other": 1, "consumer": 2}[what]], "obj", ANY)

    s.outcome = outcome
    if producing:
        steps.append("producer")
        ctx.prove(tag(["C02"], "arguments: the producer succeeds"), s.run(p) is None)
    if ctx.choose(2, "another") == 1:
        other = s.node("other")
        ctx.assume(z3.And(is_call(other.t), other.t != p.t, other.t != node.t))
        steps.append("other")
        s.run(other)
    steps.append("consumer")
    before = len(s.calls)
    ctx.prove(tag(["C02"], "arguments: the consumer succeeds"), s.run(node) is None)
    if len(s.calls) <= before:
        raise Unsupported("the function is not called through retry")
    _, args, kwargs, _ = s.calls[before]
    ctx.cover(("positional " if positional else "keyword ") + ("call" if producing else "literal"))
    want = SV(results[0], "obj", ANY) if producing else SV(value_of(p.t), "obj", ANY)
    segs = flat(args)
    n = it.models.seq_len(it, segs)
    ctx.prove(tag(["C02"], "arguments: as many positional arguments as positional edges"), it.ident(n, SV(npos(node.t))))
    kops = [("set", k, v) for k, v in kwargs.items() if k is not STARKW] + list(kwargs.get(STARKW, []))
    if positional:
        if not (len(segs) == 1 and segs[0][0] == "coll" and segs[0][1].ordered and len(segs[0][1].xs) == 1):
            raise Unsupported("shape of the positional arguments")
        m, e, f = segs[0][1].at([i])
        ctx.prove(tag(["C02"], "arguments: there is an argument at every position"), it.conj([m]))
        ctx.prove(tag(["C02"], "arguments: the positional argument i is the value of the node at position i"), it.is_(e, want))
        return
    if not (len(kops) == 1 and kops[0][0] == "coll" and len(kops[0][1].xs) == 1):
        raise Unsupported("shape of the keyword arguments")
    c = kops[0][1]
    if not c.ordered:
        raise Unsupported("order of the keyword arguments")
    ctx.prove(tag(["C02"], "arguments: as many keyword arguments as keyword edges"), c.n is not None and c.n == nkw(node.t))
    m, e, f = c.at([i])
    ctx.prove(tag(["C02"], "arguments: there is an argument for every keyword"), it.conj([m]))
    ctx.prove(tag(["C02"], "arguments: keyword i has the name of edge i"), it.is_(e[0], SV(kname(node.t, i), "obj", ANY)))
    ctx.prove(tag(["C02"], "arguments: keyword i has the value of the node at edge i"), it.is_(e[1], want))


@unit("run.physical", ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C15", "C17"], covers=("returns", "fails", "interrupted"))
def run_physical_unit(ctx, it):
    """run_physical: hands the graph and process to run_function_on_graph, unchanged limits, and returns the value of the output."""
    plan, g = symbolic_plan(it)
    ctx.extra["fn_tag"] = FN
    wf = wellformed(it, g)
    get_argument_nodes_contract(it, g, wf)
    T = ["C01", "C02", "C03", "C04", "C05", "C07", "C09"]
    t = lambda props, text: tag(props, "run_physical: " + text)
    log, calls, engine = [], [], []
    obs = observer(it, lambda it, what, k: log.append((what, k)))
    results = ctx.fresh_fn("result_of", Obj, Obj)
    current = []

    def wrap(it, a, k):
        def attempt(it, args, kwargs):
            calls.append(a[0])
            if not current:
                raise Unsupported("a call is executed outside of the engine")
            return SV(results(current[-1].t), "obj", ANY)

        return Model("retried", attempt)

    out = None
    if ctx.choose(2, "output") == 1:
        out = SV(ctx.fresh("output"), "obj", NODE)
        ctx.assume(g.N0(out.t))
    inplace = ctx.choose(2, "inplace") == 1
    limited = ctx.choose(2, "limits") == 1
    workers = SV(ctx.fresh("max_workers", I)) if limited else None
    errors = SV(ctx.fresh("max_errors", I)) if limited else None
    sched = "random" if limited else None
    failure = []

    def function_on_graph(it, a, k):
        """Contract (pool units): processes every node of the graph after its predecessors, exactly once when it returns."""
        args = {**dict(zip(["graph", "fn"], a)), **k}
        ctx.prove(t(["C04"], "the graph is run once"), not engine)
        engine.append(1)
        g2 = it.resolve(args["graph"])
        if not isinstance(g2, GraphV):
            raise Unsupported("run_function_on_graph with another graph")
        a_, b_, w, k_ = ctx.fresh("u"), ctx.fresh("v"), z3.Const("pw", Obj), ctx.fresh("k", Key)
        # contract of prune.sources, which the graph that is run has to meet: only literals without predecessors are missing
        gone = lambda x: z3.And(g.N0(x), z3.Not(is_call(x)), z3.Not(z3.Exists([w], g.P0(w, x))))
        ctx.prove(t(T, "every call is run"), z3.Implies(z3.And(g.N0(a_), is_call(a_)), g2.node(a_)))
        ctx.prove(t(T, "nothing but nodes of the plan is run"), z3.Implies(g2.node(a_), g.N0(a_)))
        ctx.prove(t(T, "only literals that depend on nothing are left out"), z3.Implies(z3.And(g.N0(a_), z3.Not(g2.node(a_))), gone(a_)))
        ctx.prove(t(T, "no edge among what is run is lost"), z3.Implies(z3.And(g2.node(a_), g2.node(b_), g.E0(a_, b_, k_)), g2.edge(a_, b_, k_)))
        ctx.prove(t(["C07", "C02"], "no edge is added"), z3.Implies(g2.edge(a_, b_, k_), g.E0(a_, b_, k_)))
        same = lambda x, y: it.resolve(x) is None if y is None else it.ident(x, y)
        ctx.prove(t(["C10"], "max_workers is passed on"), same(args.get("worker_count"), workers))
        ctx.prove(t(["C10", "C06"], "max_errors is passed on"), same(args.get("max_errors", 0), errors))
        ctx.prove(t(["C01", "C02"], "the scheduler is passed on"), same(args.get("scheduler"), sched))
        what = ctx.choose(3, "engine")
        # the output node is processed, then any other node
        if out is not None and what == 0 and ctx.branch(g2.node(out.t)):
            todo = [out]
        else:
            todo = []
        if ctx.choose(2, "another") == 1:
            other = SV(ctx.fresh("other"), "obj", NODE)
            ctx.assume(g2.node(other.t))
            if out is not None:
                ctx.assume(other.t != out.t)
            todo.append(other)
        for n in todo:
            current.append(n)
            returns(ctx, t(["C02", "C06"], "a node whose call succeeds does not fail"), lambda: it.call(args["fn"], [n], {}))
            current.pop()
        if what:
            e = SV(ctx.fresh("exception"), "obj", EXC) if what == 1 else it.exc(Exception, ("NodeError",))
            failure.append(e)
            raise PyRaise(e)
        return None

    it.call_contracts["uberjob._execution.run_function_on_graph.run_function_on_graph"] = function_on_graph
    before = g.snap()
    try:
        r = it.call(it.glob(PH + "run_physical"), [plan], {"inplace": inplace, "output_node": out, "retry": UserModel("retry", wrap), "max_workers": workers, "max_errors": errors,
                                                           "scheduler": sched, "progress_observer": obs})
    except PyRaise as e:
        if not failure:
            ctx.prove(t(["C02", "C06"], "does not raise"), False)
            raise PathEnd()
        ctx.cover("interrupted" if isinstance(failure[0], SV) else "fails")
        ctx.prove(t(["C06", "C17", "C07"], "the error of the engine is raised as it is"), it.is_(e.exc, failure[0]))
        return
    ctx.prove(t(["C06", "C17", "C07"], "does not swallow the error of the engine"), not failure)
    ctx.cover("returns")
    ctx.prove(t(["C04", "C02"], "the graph is run"), bool(engine))
    if not inplace:
        ctx.prove(t(["C13"], "the plan that was passed is not changed"), g.snap() == before)
    if out is None:
        ctx.prove(t(["C02"], "without an output None is returned"), r is None)
    elif ctx.branch(is_call(out.t)):
        ctx.prove(t(["C02"], "the result is what the output call returned"), it.is_(r, SV(results(out.t), "obj", ANY)))
    else:
        ctx.prove(t(["C02"], "the result is the value of the output literal"), it.is_(r, SV(value_of(out.t), "obj", ANY)))


@unit("physical.release", ["C16"], covers=("consumers left", "no consumer left"))
def release_unit(ctx, it):
    """While run_physical runs: every reference to a result leads through the bound call of a consumer that has not ended, or through the slot of the output."""
    plan, g = symbolic_plan(it)
    ctx.extra["fn_tag"] = FN
    wf = wellformed(it, g)
    get_argument_nodes_contract(it, g, wf)
    t = lambda text: tag(["C16"], "release: " + text)
    obs = observer(it, lambda it, what, k: None)
    out = None
    if ctx.choose(2, "output") == 1:
        out = SV(ctx.fresh("output"), "obj", NODE)
        ctx.assume(g.N0(out.t))
    result, second = ctx.fresh("the_result"), ctx.fresh("another_result")
    current = []

    def wrap(it, a, k):
        def attempt(it, args, kwargs):
            if not current:
                raise Unsupported("a call is executed outside of the engine")
            if current[-1] == "consumer" and ctx.choose(2, "outcome") == 1:
                raise PyRaise(SV(ctx.fresh("error"), "obj", EXC))
            return SV(result if current[-1] == "producer" else second, "obj", ANY)

        return Model("retried", attempt)

    def function_on_graph(it, a, k):
        args = {**dict(zip(["graph", "fn"], a)), **k}
        process = args["fn"]
        p = SV(ctx.fresh("producer"), "obj", NODE)
        ctx.assume(z3.And(g.N0(p.t), is_call(p.t)))
        if out is not None:
            ctx.assume(p.t != out.t)
        current.append("producer")
        returns(ctx, t("a call that succeeds does not fail"), lambda: it.call(process, [p], {}))
        current.pop()
        ended = [p.t]
        if ctx.choose(2, "consumer") == 1:
            c = SV(ctx.fresh("consumer"), "obj", NODE)
            ctx.assume(z3.And(g.N0(c.t), c.t != p.t, is_call(c.t)))
            current.append("consumer")
            try:
                it.call(process, [c], {})
            except PyRaise:
                pass
            current.pop()
            ended.append(c.t)
            ctx.cover("consumers left")
        else:
            ctx.cover("no consumer left")
        r = Reach(it)
        for v in [args["graph"], process, list_of(ctx, frame_locals(it, PH + "run_physical"))]:
            r.walk(v)
        for conds, via, leaf in r.out:
            if not any(x.eq(result) for x in term_vars(leaf.t, {}).values()):
                continue
            objs = [x for x in via if x.sort() == Obj]
            # the conditions under which this reference exists
            here = [as_z3(c) for c in conds]
            waiting = z3.Or(*[z3.And(z3.Exists([BY], z3.And(g.E0(p.t, x, BY), BY != Key.kDep)), *[x != e for e in ended]) for x in objs]) if objs else z3.BoolVal(False)
            ctx.prove(t("a result is referred to only for calls that consume it and have not ended"), z3.Implies(z3.And(*here), waiting))
        raise PathEnd()

    it.call_contracts["uberjob._execution.run_function_on_graph.run_function_on_graph"] = function_on_graph
    it.call(it.glob(PH + "run_physical"), [plan], {"inplace": True, "output_node": out, "retry": UserModel("retry", wrap), "max_workers": None, "max_errors": None, "scheduler": None,
                                                   "progress_observer": obs})


BY = z3.Const("by", Key)


def list_of(ctx, values):
    return ListV(ctx, [("one", v) for v in values])
