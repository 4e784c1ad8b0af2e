"""run_function_on_graph: order, exactly-once, failures, stopping, termination, for any graph, schedule and number of workers (C01, C04, C06, C07, C10, C17)."""
import ast

import z3

from ..conc import Conc, LockExt
from ..core import B, I, Obj, Opaque, PathEnd, Poison, PyRaise, RestartUnit, SV, Unsupported
from ..interp import Break, Continue, Return, assigned_names
from ..models import as_z3, dict_contains_f, dict_find, keyed_by_self, set_contains_term
from ..values import BoundMethod, BuiltinCls, ClsV, Coll, DictV, ExtCls, FamRef, Inst, ListV, Model, PyFunc, SetV, term_vars
from ..reach import Reach
from .base import tag, unit
from .fs import ANY
from .graphs import NODE, GraphV, cls_name, install_graph, node_term
from .retry import EXC, ExcSchema

RF = "uberjob._execution.run_function_on_graph."
NODE_ERROR = "uberjob._errors.NodeError"


class FirstError(ExcSchema):
    """The NodeError that was recorded first."""

    name = "node error"
    user = False

    def isinstance(self, it, sv, cls):
        if cls_name(cls) == NODE_ERROR:
            return True
        if isinstance(cls, BuiltinCls):
            return cls.cls in (object, BaseException, Exception)
        return False

    def truth(self, it, sv):
        return True


FIRST = FirstError()


class Pool:
    """The contract of the thread pool: ghost state, obligations and assumptions."""

    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        install_graph(it)
        self.g = GraphV(ctx, "g")
        self.fin = ctx.fresh_fn("finished", Obj, B)
        self.conc = Conc(it, self)
        ctx.conc = self.conc
        self.final_count = ctx.fresh("failures", I)
        ctx.assume(self.final_count >= 0)
        self.first_error = SV(ctx.fresh("first_error"), "obj", FIRST)
        ctx.assume(self.first_error.t != it.none_term())
        self.started, self.joined = SetV(ctx), SetV(ctx)
        self.bag = ListV(ctx, [])
        ctx.ghost["started"] = z3.IntVal(0)
        ctx.ghost["sentinels"] = z3.IntVal(0)
        self.targets, self.sentinels = [], []
        self.flags = {"join": False, "acyclic": False}
        ctx.ghost["interrupt"] = ctx.ghost["start_failed"] = None
        self.node = None
        self.outcome = None
        self.iter = None
        self.install()

    def t(self, props, text):
        return tag(props, "pool: " + text)

    # ------------------------------------------------------------ environment
    def install(self):
        it, ctx = self.it, self.ctx
        n = [0]

        def lock(it, a, k):
            n[0] += 1
            return self.lock(f"lock{n[0]}")

        it.externs["threading.Lock"] = Model("Lock", lock)
        it.externs["threading.RLock"] = Model("RLock", lock)
        it.externs["threading.Thread"] = ExtCls("threading.Thread", self.make_thread, {
            "start": Model("Thread.start", self.thread_start), "join": Model("Thread.join", self.thread_join)})
        it.externs["os.cpu_count"] = Model("os.cpu_count", self.cpu_count)
        it.externs["queue.Queue"] = Model("Queue", lambda it, a, k: self.make_queue([]))
        it.call_contracts["uberjob._execution.scheduler.create_queue"] = self.create_queue
        it.call_contracts["uberjob._util.networkx_util.assert_acyclic"] = self.assert_acyclic
        it.loop_contracts.append(self.while_loop)

    def lock(self, label):
        i = Inst(self.ctx, Opaque("Lock"))
        i.ext = LockExt(self.conc, label)
        return i

    def cpu_count(self, it, a, k):
        if self.ctx.choose(2, "cpu_count") == 0:
            return None
        c = self.ctx.fresh("cpus", I)
        self.ctx.assume(c >= 1)
        return SV(c)

    def assert_acyclic(self, it, a, k):
        """Contract (proved in unit graph.acyclic): returns iff the graph has no cycle, and raises otherwise."""
        if it.resolve(a[0]) is not self.g:
            raise Unsupported("another graph is checked for cycles")
        if self.ctx.choose(2, "cycle") == 0:
            self.flags["acyclic"] = True
            return None
        self.flags["cyclic"] = True
        it.raise_(Exception, "HasACycle")

    # ------------------------------------------------------------ queue
    def create_queue(self, it, a, k):
        """Contract (proved in units scheduler.*): a queue holding exactly the initial items."""
        if it.resolve(a[0]) is not self.g:
            raise Unsupported("queue of another graph")
        if len(a) > 2 and self.ctx.choose(2, "scheduler") == 1:
            self.flags["bad scheduler"] = True
            it.raise_(ValueError, "Invalid scheduler")
        return self.make_queue(it.iter_segs(a[1]))

    def make_queue(self, segs):
        if self.ctx.extra.get("queue"):
            raise Unsupported("two queues")
        self.ctx.extra["queue"] = True
        q = Inst(self.ctx, Opaque("Queue"))
        self.bag.segs = list(segs)
        q.attrs["mutex"] = self.lock("queue.mutex")
        q.ext = QueueExt(self)
        return q

    def put(self, it, v):
        v = it.resolve(v)
        ctx, st = self.ctx, self.conc.st
        self.conc.acquire("queue.mutex")
        self.conc.release("queue.mutex")
        if self.conc.mode == "main":
            if isinstance(v, SV):
                ctx.prove(self.t(["C01", "C04"], "the main thread puts no node while workers run"), not st.may_run)
                self.bag.segs = self.bag.segs + [("one", v)]
                return
            ctx.ghost["sentinels"] = ctx.ghost["sentinels"] + 1
            if not any(x is v for x in self.sentinels):
                self.sentinels.append(v)
            ctx.prove(self.t(["C07", "C17"], "the sentinel is put only after the flag was set"), self.conc.told or not st.may_run)
            return
        if not isinstance(v, SV):
            ctx.prove(self.t(["C07"], "a worker puts nothing but nodes"), False)
        log = st.log
        cur = self.iter
        ok = cur is not None and any(e[0] == "fin" for e in log)
        ctx.prove(self.t(["C01", "C04", "C06"], "a node is put only after the item that the worker got has finished"), ok)
        since = log[cur["at"]:]
        decs = [e for e in since if e[0] == "dec"]
        ctx.prove(self.t(["C04"], "a node is put at most once"), not any(e[0] == "put" for e in since))
        P, np_ = self.g.P0, self.g.np0
        if decs:
            ctx.prove(self.t(["C04", "C01"], "a node with a count is put only when its count becomes zero"), z3.And(v.t == decs[-1][1], decs[-1][2] == 0))
        else:
            ctx.prove(self.t(["C04", "C01"], "a node without a count is put only by its single predecessor"), z3.And(np_(v.t) == 1, P(self.node, v.t), v.t == cur["s"]))
        p = ctx.fresh("p")
        ctx.prove(self.t(["C01", "C06"], "every predecessor of a node that is put has finished successfully"), z3.Implies(P(p, v.t), self.fin(p)))
        self.add(("put", v.t))

    def add(self, entry):
        self.conc.st.log = self.conc.st.log + [entry]

    def get(self, it):
        ctx, st = self.ctx, self.conc.st
        if self.conc.mode != "worker":
            raise Unsupported("the main thread takes from the queue")
        ctx.prove(self.t(["C07", "C10"], "no lock is held while waiting for an item"), not st.held)
        gets = sum(e[0] == "get" for e in st.log)
        done = sum(e[0] == "task_done" for e in st.log)
        ctx.prove(self.t(["C07"], "every item is marked done before the next one is taken"), gets == done)
        k = ctx.choose(1 + len(self.sentinels), "item")
        self.add(("get", k))
        if k > 0:
            ctx.cover("sentinel")
            return self.sentinels[k - 1]
        ctx.cover("item")
        self.node = ctx.fresh("node")
        p = z3.Const("gp", Obj)
        ctx.assume(self.g.N0(self.node))
        ctx.assume(z3.ForAll([p], z3.Implies(self.g.P0(p, self.node), self.fin(p)), patterns=[self.g.P0(p, self.node)]))
        return SV(self.node, "obj", NODE)

    # ------------------------------------------------------------ threads
    def make_thread(self, it, c, args, kwargs):
        inst = kwargs.pop("__inst__", None)
        if args is None and inst is not None:
            return inst
        inst = inst or Inst(self.ctx, c)
        args = list(args or [])
        target = kwargs.get("target", args[1] if len(args) > 1 else None)
        inst.attrs.update({"target": target, "args": kwargs.get("args", args[3] if len(args) > 3 else ()), "kwargs": kwargs.get("kwargs")})
        bad = set(kwargs) - {"target", "args", "kwargs", "name", "daemon", "group"}
        if bad:
            it.raise_(TypeError, "Thread")
        return inst

    def thread_start(self, it, a, k):
        ctx, c = self.ctx, self.conc
        w = it.resolve(a[0])
        if c.mode != "main":
            raise Unsupported("a worker starts a thread")
        target = it.getattr(w, "target")
        if target is None:
            cls = w.cls if isinstance(w, Inst) else w.fam.cls
            m = it.find_method(cls, "run")
            if m is None:
                raise Unsupported("a thread without a target")
            target = BoundMethod(w, m)
        if not c.st.started_any:
            self.initial()
        else:
            self.ctx.prove(self.t(["C07"], "no thread is started once the workers have been told to stop"), not c.st.main_true)
        kind = ctx.choose(3, "start")
        if kind == 1:
            ctx.ghost["start_failed"] = it.exc(RuntimeError, ("can't start new thread",))
            raise PyRaise(ctx.ghost["start_failed"])
        c.share(target)
        args = it.getattr(w, "args")
        c.share(args)
        if not any(target is x[0] for x in self.targets):
            self.targets.append((target, args, it.getattr(w, "kwargs") if "kwargs" in getattr(w, "attrs", {}) else None))
        for loop in c.loops:
            if loop is not None:
                c.touch("start_loops", loop)
        c.st.started_any = c.st.may_run = True
        ctx.ghost["started"] = ctx.ghost["started"] + 1
        self.started.ops = self.started.ops + [("add", w)]
        if kind == 2:
            self.interrupt()

    def interrupt(self):
        e = SV(self.ctx.const("interrupt"), "obj", EXC)
        self.ctx.assume(z3.Not(EXC.is_exception(e.t)))
        self.ctx.ghost["interrupt"] = e
        raise PyRaise(e)

    def thread_join(self, it, a, k):
        ctx, c = self.ctx, self.conc
        w = it.resolve(a[0])
        if len(a) > 2 or set(k) - {"timeout"} or len(a) > 1 and k:
            raise Unsupported("join")
        # with a timeout the thread may still be running afterwards
        bounded = it.resolve(a[1] if len(a) > 1 else k.get("timeout")) is not None
        ctx.prove(self.t(["C07"], "no lock is held while waiting for a worker"), not c.st.held)
        ctx.prove(self.t(["C17", "C07"], "the workers are told to stop before the main thread waits for them"), c.told or not c.st.may_run)
        ctx.prove(self.t(["C07", "C17"], "there is a sentinel for every worker before the main thread waits for one"), ctx.ghost["sentinels"] >= ctx.ghost["started"])
        t = it.term(w)
        if ctx.branch(as_z3(set_contains_term(it, self.started, t))):
            if not bounded:
                self.joined.ops = self.joined.ops + [("add", w)]
            return None
        it.raise_(RuntimeError, "cannot join thread before it is started")

    def initial(self):
        """The invariant holds when the first thread starts."""
        ctx, it = self.ctx, self.it
        ctx.prove(self.t(["C07"], "the graph is known to be acyclic before a thread is started"), self.flags["acyclic"])
        n = ctx.fresh("n")
        segs = self.bag.segs
        f = z3.BoolVal(False)
        for kind, s in segs:
            if kind == "one":
                f = z3.Or(f, node_term(it, s) == n)
            else:
                if not (s.distinct and keyed_by_self(s.elem, s.xs)) or len(segs) > 1:
                    raise Unsupported("shape of the initial items")
                f = z3.Or(f, as_z3(s.at([n])[0]))
        ctx.prove(self.t(["C01"], "the initial items have no predecessors"), z3.Implies(f, z3.And(self.g.N0(n), self.g.np0(n) == 0)))
        ctx.prove(self.t(["C04", "C07"], "every node without predecessors is an initial item"), z3.Implies(z3.And(self.g.N0(n), self.g.np0(n) == 0), f))

    # ------------------------------------------------------------ shared variables
    def common(self, conc):
        """Are counter and error protected by the same lock that is held?"""
        ks = [k for k in conc.p["wwritten"] if k[0] != "counts" and conc.role(k) in ("counter", "error")]
        if len(ks) != 2:
            return False
        ls = [conc.protectors(k) for k in ks]
        return any(all(p is None or h in p for p in ls) for h in conc.st.held)

    def over(self, c):
        return z3.BoolVal(False) if self.max_errors is None else c > self.max_errors

    def arbitrary(self, conc, key, role):
        ctx = self.ctx
        if role == "counter":
            if self.common(conc):
                return SV(self.c0(conc))
            c = ctx.fresh("count", I)
            ctx.assume(c >= 0)
            return SV(c)
        if role == "error":
            if self.common(conc):
                return None if ctx.branch(self.c0(conc) == 0) else self.first_error
            return None if ctx.choose(2, "error") == 0 else self.first_error
        raise Unsupported(role)

    def c0(self, conc):
        k = ("env", "ghost", "c0")
        if k not in conc.st.local:
            c = self.ctx.fresh("count", I)
            self.ctx.assume(c >= 0)
            conc.set_local(k, c)
            conc.p["locks"].setdefault(k, None)
        return conc.st.local[k]

    def flag_read(self, conc, value):
        self.add(("flag", value))

    def worker_write(self, conc, key, role, v):
        ctx, it = self.ctx, self.it
        v = it.resolve(v)
        if role == "flag":
            ctx.prove(self.t(["C17", "C06", "C10"], "a worker never clears the flag"), v is True)
            ck = next((k for k in conc.st.local if k[0] in ("env", "attr") and k[1] != "ghost" and conc.role(k) == "counter"), None)
            c = it.num(conc.st.local[ck]) if ck is not None else None
            ctx.prove(self.t(["C10"], "a worker sets the flag only when more than max_errors failures are counted"), self.over(c) if c is not None else False)
            return
        if role == "counter":
            old = conc.worker_read(key, role)
            ctx.prove(self.t(["C10"], "a failure increases the number of failures by one"), it.num(v) == it.num(old) + 1)
            self.add(("inc",))
            return
        if role == "error":
            old = conc.worker_read(key, role)
            ctx.prove(self.t(["C06"], "the first failure is never replaced"), old is None)
            failed = [e for e in conc.st.log if e[0] == "failed"]
            ctx.prove(self.t(["C06"], "only a failure is recorded"), len(failed) == 1)
            _, n, x = failed[0]
            if isinstance(v, SV):
                ctx.prove(self.t(["C06"], "what is recorded is the error of the failed item"), z3.And(v.t == x.t, as_z3(EXC.isinstance(it, x, it.glob(NODE_ERROR)))))
            else:
                good = isinstance(v, Inst) and cls_name(v.cls) == NODE_ERROR
                ctx.prove(self.t(["C06"], "what is recorded is a NodeError"), good)
                ctx.prove(self.t(["C06"], "the NodeError recorded names the item that failed"), it.is_(v.attrs.get("node"), SV(n, "obj", NODE)))
                ctx.prove(self.t(["C06"], "the cause of the NodeError recorded is the exception that was raised"), it.is_(v.attrs.get("__cause__"), x))

    def before_release(self, conc, label):
        if conc.mode != "worker" or not any(e[0] == "inc" for e in conc.st.log):
            return
        ctx, it = self.ctx, self.it
        cks = [k for k in conc.st.local if k[0] in ("env", "attr") and k[1] != "ghost" and conc.role(k) == "counter"]
        if not cks or label not in (conc.protectors(cks[0]) or [label]):
            return
        c = it.num(conc.st.local[cks[0]])
        flag = any(k[0] == "true" for k in conc.st.local)
        ctx.prove(self.t(["C10", "C06"], "the flag is set when more than max_errors failures are counted"), True if flag else z3.Not(self.over(c)))
        eks = [k for k in conc.p["wwritten"] if k[0] != "counts" and conc.role(k) == "error"]
        if len(eks) != 1:
            raise Unsupported("where the first failure is kept")
        e = conc.st.local[eks[0]] if eks[0] in conc.st.local else self.arbitrary(conc, eks[0], "error")
        ctx.prove(self.t(["C06"], "once a failure is counted the first failure is recorded"), e is not None)

    def main_write(self, conc, key, role, v):
        if role == "flag":
            self.ctx.prove(self.t(["C17", "C07"], "the main thread never clears the flag"), v is True)
            conc.st.main_true = True
            return
        self.ctx.prove(self.t(["C06"], "the main thread does not change what the workers record"), False)

    def all_joined(self):
        t = self.ctx.fresh("t")
        f = z3.Implies(as_z3(set_contains_term(self.it, self.started, t)), as_z3(set_contains_term(self.it, self.joined, t)))
        return self.ctx._check(z3.Not(f), timeout=3000) == z3.unsat

    def main_read(self, conc, key, role, plain):
        ctx = self.ctx
        if role == "flag":
            return True if conc.st.main_true else SV(ctx.fresh("flag", B))
        if role == "counter":
            if self.all_joined():
                return SV(self.final_count)
            return SV(ctx.fresh("count", I))
        if self.all_joined():
            return None if ctx.branch(self.final_count == 0) else self.first_error
        return None if ctx.choose(2, "error") == 0 else self.first_error

    # ------------------------------------------------------------ counts of predecessors
    def count_label(self, conc, o):
        for k, v in conc.init.items():
            if v is o:
                return k
        raise Unsupported("a shared dict that no variable holds")

    def count_dicts(self, conc):
        return {("dict", v.oid) for k, v in conc.init.items() if isinstance(v, DictV) and ("counts",) + k in conc.p["wwritten"]}

    def entry(self, conc, o, kt, cache):
        ctx = self.ctx
        key = ("counts",) + self.count_label(conc, o)
        entries = conc.st.local.get(key, [])
        for e in entries:
            if ctx.branch(e["k"] == kt):
                return e
        rel, U, p = ctx.fresh_fn("released", Obj, B), ctx.fresh("U", I), z3.Const("rp", Obj)
        P = self.g.P0
        ctx.assume(U >= 0)
        ctx.assume(U <= self.g.np0(kt))
        ctx.assume((U == 0) == z3.ForAll([p], z3.Implies(P(p, kt), rel(p)), patterns=[P(p, kt)]))
        ctx.assume(z3.ForAll([p], z3.Implies(rel(p), z3.And(self.fin(p), P(p, kt))), patterns=[rel(p)]))
        if self.iter is not None and self.iter["own"] and not any(e[0] == "dec" for e in conc.st.log[self.iter["at"]:]):
            # this worker alone releases the successors of its item, one iteration each
            ctx.assume(z3.Implies(kt == self.iter["s"], z3.Not(rel(self.node))))
        e = {"k": kt, "U": U, "rel": rel}
        if cache:
            conc.set_local(key, entries + [e])
        return e

    def counts_get(self, conc, o, k, default):
        it, ctx = self.it, self.ctx
        kt = node_term(it, k)
        if not ctx.branch(as_z3(dict_contains_f(it, o, k))):
            if default is not None:
                return default[0]
            it.raise_(KeyError, k)
        key = ("counts",) + self.count_label(conc, o)
        return SV(self.entry(conc, o, kt, conc.protected(key))["U"])

    def counts_set(self, conc, o, k, v):
        it, ctx = self.it, self.ctx
        key = ("counts",) + self.count_label(conc, o)
        conc.touch("wwritten", key)
        held = frozenset(conc.st.held)
        old = conc.p["locks"].get(key)
        new = held if old is None else old & held
        if new != old:
            conc.p["locks"][key] = new
            raise RestartUnit()
        kt = node_term(it, k)
        e = self.entry(conc, o, kt, conc.protected(key))
        n = ctx.fresh("n")
        found, value = self.initial_count(o, SV(n, "obj", NODE))
        ctx.prove(self.t(["C01", "C04"], "a count starts as the number of predecessors"), z3.Implies(as_z3(found), value == self.g.np0(n)))
        cur = self.iter
        ok = cur is not None and any(x[0] == "fin" for x in conc.st.log)
        ctx.prove(self.t(["C01", "C06"], "a count is lowered only after the item that the worker got has finished"), ok)
        ctx.prove(self.t(["C01"], "a count is lowered at most once by the same predecessor"), not any(x[0] == "dec" for x in conc.st.log[cur["at"]:]))
        ctx.prove(self.t(["C01"], "a count is lowered only for a successor of the item"), z3.And(self.g.P0(self.node, kt), kt == cur["s"]))
        ctx.prove(self.t(["C01", "C04"], "a count is lowered by one from its current value"), it.num(v) == e["U"] - 1)
        U = ctx.fresh("U", I)
        p = z3.Const("rp", Obj)
        ctx.assume(U == e["U"] - 1)
        P = self.g.P0
        ctx.assume((U == 0) == z3.ForAll([p], z3.Implies(P(p, kt), z3.Or(e["rel"](p), p == self.node)), patterns=[P(p, kt)]))
        self.add(("dec", kt, U))
        if conc.protected(key):
            entries = [dict(x, U=U) if x is e else x for x in conc.st.local.get(key, [])]
            conc.set_local(key, entries)

    def initial_count(self, o, k):
        """(is a key, value) of the dict as it was when the threads started, without branching."""
        it = self.it
        kt = k.t
        found, value = z3.BoolVal(False), z3.IntVal(0)
        for op in o.ops:
            if op[0] != "coll" or not keyed_by_self(op[1].elem[0], op[1].xs):
                raise Unsupported("shape of the counts")
            m, e, f = op[1].at([kt])
            found = z3.Or(found, as_z3(m))
            value = z3.If(as_z3(m), it.num(e[1]), value)
        return found, value

    # ------------------------------------------------------------ the worker
    def call_fn(self, it, a, k):
        ctx, st = self.ctx, self.conc.st
        ctx.prove(self.t(["C04", "C07"], "the main thread executes no item"), self.conc.mode == "worker")
        if len(a) != 1 or k:
            it.raise_(TypeError, "fn takes one argument")
        x = it.resolve(a[0])
        ctx.prove(self.t(["C04", "C01"], "what is executed is the item that the worker got"), self.node is not None and isinstance(x, SV) and x.t.sort() == Obj)
        ctx.prove(self.t(["C04", "C01"], "what is executed is the item that the worker got"), x.t == self.node)
        ctx.prove(self.t(["C04"], "an item is executed at most once"), not any(e[0] in ("fin", "failed") for e in st.log))
        ctx.prove(self.t(["C10", "C07"], "no lock is held while an item is executed"), not st.held)
        ctx.prove(self.t(["C10", "C17", "C06"], "an item is executed only after the flag was seen unset"), any(e == ("flag", False) for e in st.log) and not any(e == ("flag", True) for e in st.log))
        p = ctx.fresh("p")
        ctx.prove(self.t(["C01", "C06"], "every predecessor of an item that is executed has finished successfully"), z3.Implies(self.g.P0(p, x.t), self.fin(p)))
        if ctx.choose(2, "outcome") == 0:
            ctx.assume(self.fin(x.t))
            self.add(("fin", x.t))
            self.outcome = ctx.fresh("outcome")
            return SV(self.outcome, "obj", ANY)
        e = SV(ctx.fresh("error"), "obj", EXC)
        ctx.assume(e.t != it.none_term())
        self.add(("failed", x.t, e))
        raise PyRaise(e)

    def worker_loop(self, conc, coll, st, env):
        """for x in successors: one arbitrary iteration, then everything it released for all elements."""
        ctx, it = self.ctx, self.it
        names = assigned_names(st.body) | assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0), lineno=0)])

        def poison():
            for n in names:
                e = it.find_env(n, env)
                if e.shared and conc.key(e, n) in conc.p["waccess"]:
                    continue
                if n in e.vars:
                    e.vars[n] = Poison(n)

        own = coll.distinct and keyed_by_self(coll.elem, coll.xs) and not any(e[0] == "all" for e in conc.st.log) and self.iter is None
        if self.iter is not None:
            raise Unsupported("nested loops in a thread")
        poison()
        if ctx.choose(2, "loop") == 0:
            xs = [ctx.fresh("s", x.sort()) for x in coll.xs]
            m, elem, f = coll.at(xs)
            ctx.assume(as_z3(m))
            if f is not None:
                ctx.assume(f)
            it.assign(st.target, elem, env)
            s = elem.t if isinstance(elem, SV) and elem.kind == "obj" else None
            if s is None:
                raise Unsupported("loop over something else than nodes in a thread")
            at = len(conc.st.log)
            self.iter = {"s": s, "at": at, "own": own}
            try:
                it.exec_block(st.body, env)
            except Continue:
                pass
            except Break:
                self.iter = None
                return None
            since = conc.st.log[at:]
            puts = [e for e in since if e[0] == "put"]
            decs = [e for e in since if e[0] == "dec"]
            ctx.cover("successor")
            ctx.prove(self.t(["C07"], "a successor is released without keeping a lock"), not conc.st.held)
            what = self.t(["C04", "C07"], "a successor whose predecessors have all finished is put")
            if not decs:
                ctx.prove(what, z3.And(self.g.np0(s) == 1, self.g.P0(self.node, s)) if puts else False)
            elif not puts:
                ctx.prove(what, z3.Not(decs[-1][2] == 0))
            raise PathEnd()
        self.iter = None
        if own:
            self.add(("all", coll))
        return None

    def while_loop(self, it, st, env):
        if self.conc.mode != "worker" or env.shared or not isinstance(st, ast.While):
            return None
        return lambda: self.item_loop(it, st, env)

    def item_loop(self, it, st, env):
        """One arbitrary iteration of a worker's loop over items."""
        ctx, conc = self.ctx, self.conc
        keep, tested = {}, {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)}
        for n in assigned_names(st.body):
            e = it.find_env(n, env)
            if n in e.vars and not e.shared:
                if n in tested and isinstance(e.vars[n], bool):
                    # a constant: every iteration that goes on must leave it as it is
                    keep[n] = e, e.vars[n]
                else:
                    e.vars[n] = Poison(n)
        conc.st.log, conc.st.local = [], {}
        self.outcome = None
        ctx.prove(self.t(["C07"], "no lock is held when a worker waits for an item"), not conc.st.held)
        if not it.truth(it.eval(st.test, env)):
            return
        try:
            it.exec_block(st.body, env)
        except Continue:
            pass
        except Break:
            return
        same = lambda now, v: (isinstance(now, bool) or isinstance(now, SV) and now.kind == "bool") and it.truth(now) == v
        if not all(same(e.vars[n], v) for n, (e, v) in keep.items()):
            if it.truth(it.eval(st.test, env)):
                raise Unsupported("a local of a worker that changes between items")
            it.exec_block(st.orelse, env)
            return
        self.item_done()
        if self.outcome is not None:
            kept = Reach(it)
            for n in assigned_names(st.body):
                if n in env.vars and not isinstance(env.vars[n], Poison):
                    kept.walk(env.vars[n])
            held = any(x.eq(self.outcome) for _, _, leaf in kept.out for x in term_vars(leaf.t, {}).values())
            ctx.prove(self.t(["C16"], "a worker that waits keeps nothing that the execution of its last item returned"), not held)
        raise PathEnd()

    def item_done(self):
        ctx, conc = self.ctx, self.conc
        log = conc.st.log
        count = lambda k: sum(e[0] == k for e in log)
        gets = [e for e in log if e[0] == "get"]
        if not gets:
            ctx.prove(self.t(["C07"], "an iteration of a worker takes an item"), False)
        ctx.prove(self.t(["C07"], "every item that is taken is marked done exactly once"), len(gets) == 1 and count("task_done") == 1)
        ctx.prove(self.t(["C07"], "a worker that takes the sentinel ends"), gets[0][1] == 0)
        self.item_obligations(log)

    def item_obligations(self, log):
        ctx, conc = self.ctx, self.conc
        count = lambda k: sum(e[0] == k for e in log)
        ctx.prove(self.t(["C07"], "no lock is kept after an item"), not conc.st.held)
        if count("fin"):
            ctx.cover("item succeeds")
            ctx.prove(self.t(["C10", "C06"], "an item that succeeds is not counted as a failure"), count("inc") == 0)
            s = ctx.fresh("s")
            got = [as_z3(e[1].at([s])[0]) for e in log if e[0] == "all"]
            ctx.prove(self.t(["C04", "C07"], "every successor of an item that succeeded is released"), z3.Implies(self.g.P0(self.node, s), z3.Or(*got) if got else z3.BoolVal(False)))
        elif count("failed"):
            ctx.cover("item fails")
            ctx.prove(self.t(["C06", "C10"], "every failure is counted exactly once"), count("inc") == 1)
            ctx.prove(self.t(["C06"], "no successor of an item that failed is released"), not any(e[0] in ("put", "dec", "all") for e in log))
        else:
            ctx.cover("item skipped")
            ctx.prove(self.t(["C04", "C10", "C07"], "an item that is taken is executed unless the flag is set"), any(e == ("flag", True) for e in log))
            ctx.prove(self.t(["C06", "C10"], "an item that is skipped releases nothing and counts nothing"), not any(e[0] in ("put", "dec", "all", "inc") for e in log))

    def run_worker(self, target, args, kwargs):
        ctx, it, conc = self.ctx, self.it, self.conc
        conc.mode = "worker"
        conc.st.held, conc.st.local, conc.st.log = [], {}, []
        self.node, self.iter = None, None
        err = None
        segs = it.iter_segs(args)
        if any(s[0] != "one" for s in segs):
            raise Unsupported("arguments of the thread")
        try:
            it.call(target, [s[1] for s in segs], {})
        except PyRaise as e:
            err = e.exc
        log = conc.st.log
        gets = [e for e in log if e[0] == "get"]
        if err is not None:
            ctx.prove(self.t(["C07", "C06"], "no exception ends a worker"), False)
        ctx.cover("worker ends")
        ctx.prove(self.t(["C07", "C04"], "a worker ends only when it has taken the sentinel"), len(gets) == 1 and gets[0][1] > 0)
        ctx.prove(self.t(["C07"], "the sentinel is marked done"), sum(e[0] == "task_done" for e in log) == 1)
        ctx.prove(self.t(["C07"], "no lock is kept when a worker ends"), not conc.st.held)
        ctx.prove(self.t(["C04", "C07"], "the sentinel is not executed"), not any(e[0] in ("fin", "failed", "put") for e in log))


class QueueExt:
    def __init__(self, pool):
        self.pool = pool

    def truth(self, it, inst):
        return True

    def getattr(self, it, inst, name):
        p = self.pool
        if name in ("put", "put_nowait"):
            return Model(name, lambda it, a, k: p.put(it, a[0] if a else k["item"]))
        if name == "get":
            def get(it, a, k):
                if a or k:
                    raise Unsupported("get with arguments")
                return p.get(it)
            return Model(name, get)
        if name == "task_done":
            def done(it, a, k):
                p.ctx.prove(p.t(["C07"], "no more items are marked done than were taken"),
                            p.conc.mode == "worker" and sum(e[0] == "task_done" for e in p.conc.st.log) < sum(e[0] == "get" for e in p.conc.st.log))
                p.conc.acquire("queue.mutex")
                p.conc.release("queue.mutex")
                p.add(("task_done",))
            return Model(name, done)
        if name == "join":
            def join(it, a, k):
                if p.conc.mode != "main":
                    raise Unsupported("a worker joins the queue")
                p.ctx.prove(p.t(["C07"], "no lock is held while waiting for all items"), not p.conc.st.held)
                p.ctx.prove(p.t(["C07", "C04"], "the main thread waits for all items only when workers run and have not been told to stop"),
                            z3.And(z3.BoolVal(not p.conc.st.main_true), p.ctx.ghost["started"] >= 1))
                if p.ctx.choose(2, "interrupted") == 1:
                    p.interrupt()
                p.flags["join"] = True
            return Model(name, join)
        return None

    def setattr(self, it, inst, name, value):
        raise Unsupported("attribute of a queue")


COVERS = ("cycle", "returns", "raises first failure", "interrupted", "start fails", "item succeeds", "item fails", "item skipped", "worker ends", "successor")


def pool_unit(workers, errors):
    @unit(f"pool.run.{workers}-{errors}", ["C01", "C04", "C06", "C07", "C10", "C16", "C17"] if (workers, errors) == ("workers", "limit") else ["C01", "C04", "C06", "C07", "C10", "C17"], max_time=200, covers=COVERS)
    def run(ctx, it):
        """run_function_on_graph: workers, main thread and interrupts under a global invariant, for any graph, number of workers and schedule."""
        pool_run(ctx, it, workers == "workers", errors == "limit")


for _w in ("workers", "default"):
    for _e in ("limit", "unlimited"):
        pool_unit(_w, _e)


def pool_run(ctx, it, with_workers, with_limit):
    p = Pool(ctx, it)
    if ctx.x.persist.get("discovering"):
        # only what is shared matters in this round
        choose0, one = ctx.choose, ("cpu_count", "cycle", "scheduler", "start", "interrupted")
        ctx.choose = lambda n, label="": 0 if label in one and p.conc.mode == "main" else choose0(n, label)
    wc = SV(ctx.fresh("worker_count", I)) if with_workers else None
    me = SV(ctx.fresh("max_errors", I)) if with_limit else None
    p.max_errors = None if me is None else me.t
    fn = Model("fn", p.call_fn)
    err = None
    try:
        it.call(it.glob(RF + "run_function_on_graph"), [p.g, fn], {"worker_count": wc, "max_errors": me, "scheduler": SV(ctx.fresh("scheduler"), "obj", ANY)})
    except PyRaise as e:
        err = e.exc
    t = p.t
    n = ctx.ghost["started"]
    if p.flags.get("cyclic"):
        ctx.cover("cycle")
        ctx.prove(t(["C07"], "a cycle is reported before a thread is started"), z3.And(z3.BoolVal(err is not None), n == 0))
        return
    if not p.conc.st.started_any:
        # nothing ran
        ctx.prove(t(["C04", "C07"], "without a thread run_function_on_graph does not return normally"), err is not None)
        legit = bool(ctx.ghost["start_failed"]) or p.flags.get("bad scheduler")
        bad = z3.Or(z3.BoolVal(bool(legit)), wc.t < 1 if wc is not None else z3.BoolVal(False), me.t < 0 if me is not None else z3.BoolVal(False))
        ctx.prove(t(["C10", "C07"], "valid limits are accepted"), bad)
        return
    ctx.prove(t(["C10"], "limits below the minimum are refused"), z3.And(wc.t >= 1 if wc is not None else z3.BoolVal(True), me.t >= 0 if me is not None else z3.BoolVal(True)))
    th = ctx.fresh("t")
    ctx.prove(t(["C07", "C17"], "every worker that was started is joined"),
              z3.Implies(as_z3(set_contains_term(it, p.started, th)), as_z3(set_contains_term(it, p.joined, th))))
    ctx.prove(t(["C07", "C17"], "the flag is set when run_function_on_graph ends"), p.conc.told)
    if ctx.ghost["interrupt"] is not None:
        ctx.cover("interrupted")
        ctx.prove(t(["C17"], "an interrupt propagates to the caller"), err is not None and it.is_(err, ctx.ghost["interrupt"]))
        return
    if ctx.ghost["start_failed"] is not None:
        ctx.cover("start fails")
        ctx.prove(t(["C07"], "a failure to start a thread propagates to the caller"), err is ctx.ghost["start_failed"])
        return
    ctx.prove(t(["C04", "C07"], "the main thread waits until all items are done"), p.flags["join"])
    if wc is not None:
        ctx.prove(t(["C10"], "as many workers as asked for"), n == wc.t)
    else:
        ctx.prove(t(["C10"], "at least one worker"), n >= 1)
    if err is not None:
        ctx.cover("raises first failure")
        ctx.prove(t(["C06"], "what is raised is the first failure"), it.conj([p.final_count > 0, it.is_(err, p.first_error)]))
        return
    ctx.cover("returns")
    ctx.prove(t(["C06"], "returns normally only when nothing failed"), p.final_count == 0)
    k = ctx.choose(len(p.targets), "thread")
    p.run_worker(*p.targets[k])
    ctx.prove(t(["C07"], "the locks are always taken in the same order"), p.conc.order_acyclic())
