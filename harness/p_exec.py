"""Bounded contract checks on executions without a registry (C01, C02, C04, C06, C07, C10, C15, C16, C17)."""
import collections
import gc
import operator
import os
import random
import threading
import time
import weakref

from . import sched, world as W
from .runs import (CallError, check_order, check_values, controlled, do_run, events, hung, raised_in)
from .world import Boom, World, any_boom, uberjob


def knobs(rng, i):
    """Sizes grow slowly with the index of the scenario."""
    n = rng.randrange(2, 4 + min(8, i // 12))
    return n


def run_kwargs(rng, **over):
    kw = dict(
        max_workers=rng.choice((1, 2, 2, 3, 3, 4, None) if rng.random() < 0.95 else (8,)),
        scheduler=rng.choice((None, "default", "random")),
    )
    if kw["max_workers"] is None:
        kw["max_workers"] = 3
    kw.update(over)
    return kw


def shaped_world(rng, seed, n, **kw):
    return World(seed, n=n, **kw)


def add_call_faults(w, rng, p=0.3, base=0.15):
    bad = set()
    for nid in w.call_nids():
        if rng.random() < p:
            cls = any_boom(rng, base)
            w.faults[("call", nid)] = lambda cls=cls, nid=nid: cls(f"f{nid}")
            bad.add(nid)
    return bad


def clone_seed(rng):
    return rng.randrange(1 << 30)


# ------------------------------------------------------------------ C01
def c01(seed, i):
    rng = random.Random(seed)
    reg = rng.random() < 0.25
    w = World(clone_seed(rng), n=knobs(rng, i), registry=reg, containers=not reg and rng.random() < 0.4, unpack=not reg)
    reg = w.registry is not None
    w.body_points = rng.choice((0, 1, 3))
    out, expr = w.random_output(p_none=0.05)
    if not reg and rng.random() < 0.4:
        out = [p.node for p in w.nodes.values() if p.kind != "dep"]
    if rng.random() < 0.4:
        add_call_faults(w, rng)
    me = rng.choice((0, 1, None))
    if reg and rng.random() < 0.7:
        stored_before(w, rng)
    if reg and rng.random() < 0.6:
        out = [p.node for p in w.nodes.values() if p.kind != "dep"]
    r = do_run(w, clone_seed(rng), out, **run_kwargs(rng, max_errors=me))
    return check_order(w), {"starts": len(w.executed()), "switches": r.sched.switches}


def stored_before(w, rng):
    """An earlier run, after which some stored values are removed."""
    faults, w.faults = w.faults, {}
    do_run(w, clone_seed(rng), None, trace=False)
    w.faults = faults
    w.log.clear()
    for p in w.nodes.values():
        if p.store is not None and not p.is_source and rng.random() < 0.3:
            p.store.clear()


# ------------------------------------------------------------------ C02
def deep(seed):
    """Chains longer than the recursion limit: nothing bounds the depth of a plan."""
    rng = random.Random(seed)
    n, reg = rng.choice((3100, 4200)), rng.random() < 0.5
    plan, r = uberjob.Plan(), uberjob.Registry() if reg else None
    node = plan.call(int, 0)
    for k in range(n):
        node = plan.call(operator.add, node, 1)
        if reg and k % 300 == 7:
            r.add(node, W.Plain())
        if k % 200 == 50:
            lit = plan.lit(k)
            plan.add_dependency(node, lit)
            node2 = plan.call(operator.add, node, 0)
            plan.add_dependency(lit, node2)
            node = node2
    try:
        v = uberjob.run(plan, output=node, registry=r, progress=None, max_workers=rng.choice((1, 3)))
    except BaseException as e:
        return [f"a chain of {n} calls{' with stores' if reg else ''} raised {e!r:.200}"], {}
    return ([] if v == n else [f"a chain of {n} calls gave {v!r:.60}"]), {"starts": n}


def c02(seed, i):
    rng = random.Random(seed)
    if i % 300 == 11:
        return deep(seed)
    try:
        w = World(clone_seed(rng), n=knobs(rng, i), containers=True, identity=True, unpack=True, literals=True)
    except Exception as e:
        if through_uberjob(e):
            return [f"adding to the plan raised {e!r:.300}"], {}
        raise
    out, expr = w.random_output()
    if rng.random() < 0.3:
        out, expr = w._expr()
        if out is None:
            expr = None
    r = do_run(w, clone_seed(rng), out, trace=rng.random() < 0.5, **run_kwargs(rng))
    if hung(r):
        return [], {}
    return check_values(w, expr if out is not None else None, r), {"starts": len(w.executed()), "switches": r.sched.switches}


def through_uberjob(e):
    tb, own = e.__traceback__, os.path.dirname(uberjob.__file__) + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(own):
            return True
        tb = tb.tb_next
    return False


# ------------------------------------------------------------------ C04
def c04(seed, i):
    rng = random.Random(seed)
    reg = rng.random() < 0.3
    w = World(clone_seed(rng), n=knobs(rng, i), registry=reg, containers=not reg and rng.random() < 0.3, unpack=not reg)
    reg = w.registry is not None
    w.body_points = rng.choice((0, 1, 2))
    out, expr = w.random_output(p_none=0.05)
    failing = set()
    if rng.random() < 0.4:
        failing = add_call_faults(w, rng)
    me = rng.choice((0, 1, None))
    r = do_run(w, clone_seed(rng), out, **run_kwargs(rng, max_errors=me, retry=rng.choice((None, None, 1, 3)) if not failing else None))
    bad = []
    counts = {}
    for nid in w.executed():
        counts[nid] = counts.get(nid, 0) + 1
    for nid, c in counts.items():
        if c > 1:
            bad.append(f"f{nid} was executed {c} times")
    for k, c in w.attempts.items():
        if isinstance(k, tuple) and c > 1:
            bad.append(f"store operation {k[0]} of {k[1]} was performed {c} times")
    if not reg:
        refs = W.expr_refs(expr)
        expected = {x for x in w.ancestors(refs) if w.nodes[x].kind in ("call", "dep")}
        extra = set(counts) - expected
        if extra:
            bad.append(f"calls {sorted(extra)} are not needed by the output but were executed")
        if r.outcome == "ok" and set(counts) != expected:
            bad.append(f"calls {sorted(expected - set(counts))} are needed by the output but were not executed")
    return bad, {"starts": len(w.executed()), "switches": r.sched.switches}


# ------------------------------------------------------------------ C06
def c06(seed, i):
    rng = random.Random(seed)
    reg = rng.random() < 0.4
    w = World(clone_seed(rng), n=knobs(rng, i), registry=reg, containers=not reg and rng.random() < 0.3, unpack=not reg)
    reg = w.registry is not None
    w.body_points = rng.choice((0, 1, 2))
    out, expr = w.random_output(p_none=0.05)
    if not reg and rng.random() < 0.5:
        out = [p.node for p in w.nodes.values() if p.kind != "dep"]
    failing = add_call_faults(w, rng, p=0.4)
    if reg:
        for p in w.nodes.values():
            if p.store is not None:
                for op in ("read", "write", "mtime"):
                    if rng.random() < 0.06:
                        w.faults[(op, p.nid)] = lambda op=op, nid=p.nid, cls=any_boom(rng): cls(f"{op} {nid}")
    me = rng.choice((0, 1, 2, None))
    kw = run_kwargs(rng, max_errors=me, stale_check_max_workers=1)
    r = do_run(w, clone_seed(rng), out, **kw)
    bad = check_failures(w, r, single=kw["max_workers"] == 1)
    return bad, {"starts": len(w.executed()), "failures": len(raised_in(w)), "switches": r.sched.switches}


def check_failures(w, r, single=False):
    bad = list(check_order(w))
    fails = raised_in(w)
    if hung(r):
        return []
    if r.outcome == "ok":
        if fails:
            bad.append(f"run returned although {[(k, n) for k, n, _ in fails]} raised")
        return bad
    e = r.value
    if not fails:
        bad.append(f"run raised {e!r} (cause {e.__cause__!r}) although nothing raised")
        return bad
    if type(e) is not CallError:
        bad.append(f"run raised {type(e).__name__} instead of CallError: {e!r}")
        return bad
    match = [f for f in fails if f[2] is e.__cause__]
    if not match:
        bad.append(f"the cause {e.__cause__!r} is not an exception that a call of this run raised")
        return bad
    kind, nid, exc = match[0]
    call = e.call
    if kind == "call":
        if call is not w.nodes[nid].node and getattr(call, "fn", None) is not w.nodes[nid].node.fn:
            bad.append(f"CallError.call {call!r} is not the call f{nid} that raised its cause")
    elif kind == "mtime":
        if w.nodes[nid].kind != "lit" and call is not w.nodes[nid].node:
            bad.append(f"CallError.call {call!r} is not the call whose modified time query raised")
    elif kind in ("read", "write"):
        if getattr(call, "fn", None) is not getattr(W.MStore, kind):
            bad.append(f"CallError.call {call!r} is not the store {kind} that raised")
    if single and fails[0][2] is not e.__cause__:
        bad.append(f"with one worker the first failure was {fails[0][:2]} but the error reports {match[0][:2]}")
    return bad


# ------------------------------------------------------------------ C07
def c07(seed, i):
    rng = random.Random(seed)
    mode = rng.random()
    if mode < 0.3:
        return c07_cycle(rng, i)
    reg = rng.random() < 0.3
    w = World(clone_seed(rng), n=knobs(rng, i), registry=reg, containers=not reg and rng.random() < 0.3, unpack=not reg)
    reg = w.registry is not None
    w.body_points = rng.choice((0, 1, 2))
    out, expr = w.random_output(p_none=0.05)
    if rng.random() < 0.6:
        add_call_faults(w, rng, base=0.4)
    start_fault = rng.choice((0, 1, 2)) if rng.random() < 0.12 else None
    if start_fault is None and rng.random() < 0.2:
        run_inside(w, rng)
    kw = run_kwargs(rng, max_errors=rng.choice((0, 1, None)))
    if start_fault is not None:
        kw["max_workers"] = max(kw["max_workers"], 2)
    elif rng.random() < 0.2:
        kw["progress"] = display(rng)
    elif rng.random() < 0.05:
        shown = [display(rng) for _ in range(rng.choice((1, 2)))]
        shown.insert(rng.randrange(len(shown) + 1), uberjob.progress.Progress(Unenterable))
        kw["progress"] = tuple(shown)
    r = do_run(w, clone_seed(rng), out, start_fault=start_fault, **kw)
    return check_termination(w, r), {"starts": len(w.executed()), "switches": r.sched.switches}


def run_inside(w, rng):
    """Some calls run plans of their own."""
    def inner():
        pass

    which = {x for x in w.call_nids() if rng.random() < 0.4}

    def hook(nid):
        if nid in which:
            plan = uberjob.Plan()
            calls = [plan.call(inner) for _ in range(rng.randrange(1, 4))]
            uberjob.run(plan, output=calls, progress=None, max_workers=rng.choice((1, 2)))

    w.hook = hook


def check_termination(w, r):
    bad = []
    if r.deadlock:
        bad.append(f"deadlock: threads {r.deadlock} wait forever")
    elif r.livelock:
        bad.append("run did not finish within the step limit")
    elif r.leaked:
        bad.append(f"{len(r.leaked)} threads are still alive after run {'returned' if r.outcome=='ok' else 'raised ' + type(r.value).__name__}")
    return bad


def c07_cycle(rng, i):
    reg = rng.random() < 0.4
    w = World(clone_seed(rng), n=knobs(rng, i), registry=reg, containers=False)
    reg = w.registry is not None
    ids = list(w.nodes)
    # close a cycle with plain dependencies
    k = rng.choice((1, 1, 2, 3))
    pick = rng.sample(ids, min(k, len(ids)))
    cyc = {}
    for a, b in zip(pick, pick[1:] + pick[:1]):
        w.plan.add_dependency(w.nodes[a].node, w.nodes[b].node)
        w.nodes[b].deps.append(a)
    out, expr = w.random_output(p_none=0.05)
    refs = W.expr_refs(expr)
    if reg:
        examined = set(w.nodes)
    else:
        examined = w.ancestors(refs)
    cyclic = has_cycle(w, examined)
    r = do_run(w, clone_seed(rng), out, **run_kwargs(rng))
    bad = check_termination(w, r)
    ops = [e for e in w.log if e[0] == "start" or e[0].endswith("_start")]
    if cyclic and not hung(r):
        if r.outcome == "ok":
            bad.append("the plan has a dependency cycle among the nodes to examine but run returned")
        if ops:
            bad.append(f"the plan has a cycle, but {ops[0][:2]} was performed before it was reported")
    if not cyclic and r.outcome == "raise" and not raised_in(w):
        bad.append(f"acyclic, but run raised {r.value!r}")
    return bad, {"cycles": int(cyclic)}


def has_cycle(w, nodes):
    state = {}

    def visit(x):
        state[x] = 1
        for d in w.ref_deps(x):
            if d in nodes:
                if state.get(d) == 1 or (d not in state and visit(d)):
                    return True
        state[x] = 2
        return False

    return any(x not in state and visit(x) for x in nodes)


# ------------------------------------------------------------------ C10
def c10(seed, i):
    rng = random.Random(seed)
    mode = rng.random()
    if mode < 0.25:
        return c10_parallel(rng, i)
    if mode < 0.6:
        return c10_retry(rng, i)
    reg = rng.random() < 0.4
    w = World(clone_seed(rng), n=knobs(rng, i) + 2, registry=reg, unpack=False)
    reg = w.registry is not None
    w.body_points = rng.choice((1, 2, 4))
    out = [p.node for p in w.nodes.values()] if not reg else None
    failing = add_call_faults(w, rng, p=rng.choice((0, 0.3, 0.7)), base=0)
    mw, me = rng.choice((1, 1, 2, 3, 4)), rng.choice((0, 0, 1, 2, None))
    smw = rng.choice((1, 2, 3))
    r = do_run(w, clone_seed(rng), out, max_workers=mw, max_errors=me, stale_check_max_workers=smw,
               scheduler=rng.choice(("default", "random")))
    bad = []
    if w.max_running > mw:
        bad.append(f"{w.max_running} operations executed concurrently with max_workers={mw}")
    if w.max_running_mt > smw:
        bad.append(f"{w.max_running_mt} modified-time queries executed concurrently with stale_check_max_workers={smw}")
    nfail = len([f for f in raised_in(w) if f[0] == "call"])
    if me is not None and nfail > me + mw:
        bad.append(f"{nfail} calls failed with max_errors={me} and max_workers={mw}")
    if not reg and not hung(r):
        eligible = {x for x in failing if not (w.ancestors([x]) - {x}) & failing}
        if mw == 1 and me is not None and nfail != min(me + 1, len(eligible)):
            bad.append(f"with one worker and max_errors={me}, {nfail} calls failed; {len(eligible)} could")
        if me is None:
            ok = {x for x in w.call_nids() if not (w.ancestors([x]) - {x}) & failing}
            missing = ok - set(w.executed())
            if missing:
                bad.append(f"with max_errors=None, calls {sorted(missing)} have no failed dependency but were not executed")
    return bad, {"starts": len(w.executed()), "max_running": w.max_running, "switches": r.sched.switches}


def c10_parallel(rng, i):
    k = rng.choice((1, 2, 3, 4))
    extra = rng.randrange(0, 3)
    w = World(clone_seed(rng), n=0)
    depth = rng.random() < 0.5
    two = rng.random() < 0.5 and depth
    roots = []

    def call(*args):
        nid = len(w.nodes)
        node = w.plan.call(w._function(nid), *[w.nodes[a].node for a in args])
        pn = w._new("call", node)
        pn.args = [("ref", a) for a in args]
        return nid

    if depth:
        roots = [call() for _ in range(2 if two else 1)]
    par = [call(*roots) for _ in range(k + extra)]
    tail = call(*par)
    arrived = [0]
    waiting = set(par)
    attempts = rng.choice((1, 1, 2, 3))
    failed = collections.Counter()

    def hook(nid):
        if nid in waiting:
            if failed[nid] + 1 < attempts:
                # meet the others in the last attempt
                failed[nid] += 1
                raise Boom("attempt")
            arrived[0] += 1
            s, t = sched.current()
            if s is not None:
                s.block(t, lambda: arrived[0] >= k)

    w.hook = hook
    r = do_run(w, clone_seed(rng), w.nodes[tail].node, trace=rng.random() < 0.5, max_workers=k, retry=rng.choice((None, 1)) if attempts == 1 else attempts,
               scheduler=rng.choice(("default", "random")))
    bad = []
    if hung(r):
        bad.append(f"{k + extra} independent calls were ready but only {arrived[0]} executed in parallel with max_workers={k}")
    return bad, {"starts": len(w.executed()), "switches": r.sched.switches}


def c10_retry(rng, i):
    reg = rng.random() < 0.5
    w = World(clone_seed(rng), n=knobs(rng, i), registry=reg, unpack=False)
    reg = w.registry is not None
    w.body_points = rng.choice((0, 1))
    n = rng.choice((1, 2, 3, 4))
    left, raised = {}, {}
    keys = [("call", x) for x in w.call_nids()]
    if reg:
        keys += [(op, p.nid) for p in w.nodes.values() if p.store is not None for op in ("read", "write", "mtime")]
    for key in keys:
        if rng.random() < 0.35:
            left[key] = rng.choice((1, 1, 2, 3, n - 1 if n > 1 else 1, n, n + 1))
    planned = dict(left)

    def op_fault(kind, nid):
        key = (kind, nid)
        if left.get(key, 0) > 0:
            left[key] -= 1
            e = any_boom(rng)(f"{key} attempt")
            raised.setdefault(key, []).append(e)
            return e
        return None

    w.op_fault = op_fault
    out = None if reg else [p.node for p in w.nodes.values()]
    if rng.random() < 0.3:
        how = W.FalsyCallable(uberjob._util.retry.create_retry(n))
    else:
        how = n
    r = do_run(w, clone_seed(rng), out, trace=rng.random() < 0.3, max_workers=rng.choice((1, 2, 3)), retry=how, max_errors=rng.choice((0, None)))
    bad = []
    for nid, c in w.attempts.items():
        key = nid if isinstance(nid, tuple) else ("call", nid)
        exp = min(n, planned.get(key, 0) + 1)
        if c > n:
            bad.append(f"{key} was attempted {c} times with retry={n}")
        elif c > exp:
            bad.append(f"{key} was attempted {c} times although attempt {exp} succeeded")
        elif c < exp:
            bad.append(f"{key} was attempted only {c} times; retry={n} and it fails {planned.get(key, 0)} times")
    exhausted = {k for k, v in planned.items() if v >= n and (k[1] if k[0] == "call" else k) in w.attempts}
    if not hung(r):
        if not exhausted and r.outcome != "ok":
            bad.append(f"every operation eventually succeeded but run raised {r.value!r} from {r.value.__cause__!r}")
        if exhausted and r.outcome == "ok":
            bad.append(f"operations {sorted(map(str, exhausted))} were exhausted but run returned")
        if r.outcome == "raise" and exhausted:
            last = [raised[k][-1] for k in exhausted if k in raised]
            if not any(r.value.__cause__ is e for e in last):
                bad.append(f"the error's cause {r.value.__cause__!r} is not the last attempt's exception")
    return bad, {"attempts": sum(w.attempts.values()), "exhausted": len(exhausted)}


# ------------------------------------------------------------------ C15
class Recorder(uberjob.progress._progress_observer.ProgressObserver):
    def __init__(self, w, log):
        self.w, self.log = w, log
        self.false = w.rng.random() < 0.3

    def __bool__(self):
        return not self.false

    def __enter__(self):
        self.log.append(("enter",))

    def __exit__(self, *a):
        self.log.append(("exit",))

    def increment_total(self, *, section, scope, amount):
        sched.yield_point()
        self.log.append(("total", section, scope, amount))

    def increment_running(self, *, section, scope):
        sched.yield_point()
        self.log.append(("running", section, scope))

    def increment_completed(self, *, section, scope):
        sched.yield_point()
        self.log.append(("completed", section, scope))

    def increment_failed(self, *, section, scope, exception):
        sched.yield_point()
        self.log.append(("failed", section, scope, exception))


class Plain(Recorder):
    """Not under the scheduler."""

    def __init__(self, log):
        self.log = log

    def __len__(self):
        return 0


class EmptyProgress(uberjob.progress.Progress):
    def __len__(self):
        return 0


def c15_many(rng):
    """Very many scopes."""
    n = rng.randrange(1, 6) * 700
    plan, log = uberjob.Plan(), []
    calls = []
    for k in range(n):
        with plan.scope(k):
            calls.append(plan.call(int))
    uberjob.run(plan, output=calls, progress=uberjob.progress.Progress(lambda: Plain(log)), max_workers=2)
    bad = []
    for kind in ("total", "running", "completed"):
        got = sorted(e[2][0] for e in log if e[0] == kind and e[2] and type(e[2][0]) is int)
        if got != list(range(n)):
            bad.append(f"{len(got)} of {n} scopes have a notification {kind!r}")
    return bad, {"notifications": len(log)}


def c15(seed, i):
    rng = random.Random(seed)
    if i % 40 == 3:
        return c15_many(rng)
    reg = rng.random() < 0.55
    w = World(clone_seed(rng), n=knobs(rng, i), registry=reg, scopes=True, containers=not reg and rng.random() < 0.3, unpack=not reg)
    reg = w.registry is not None
    w.body_points = rng.choice((0, 1))
    out, expr = w.random_output(p_none=0.1)
    faulty = rng.random() < 0.45
    if faulty:
        add_call_faults(w, rng, p=0.3, base=0)
        for p in w.nodes.values():
            if p.store is not None:
                for op in ("read", "write", "mtime"):
                    if rng.random() < 0.08:
                        w.faults[(op, p.nid)] = lambda cls=any_boom(rng): cls("op")
    nobs = rng.choice((1, 1, 2, 3))
    logs = [[] for _ in range(nobs)]
    progs = [rng.choice((uberjob.progress.Progress, EmptyProgress))(lambda log=log: Recorder(w, log)) for log in logs]
    progress = progs[0] if nobs == 1 and rng.random() < 0.6 else progs
    kw = run_kwargs(rng, max_errors=rng.choice((0, 1, None)), retry=rng.choice((None, 2)))
    runs = 2 if reg and rng.random() < 0.4 else 1
    bad = []
    transform = None
    if rng.random() < 0.1:
        def transform(plan, node):
            raise Boom("transform")
    for _ in range(runs):
        for log in logs:
            log.clear()
        w.log.clear()
        r = do_run(w, clone_seed(rng), out, progress=progress, transform_physical=transform, **kw)
        if hung(r):
            return [], {}
        for log in logs:
            bad += check_account(w, log, r, kw)
        if nobs > 1:
            key = [collections.Counter(e[:3] for e in log) for log in logs]
            if any(k != key[0] for k in key):
                bad.append("composite members received different notifications")
    return bad, {"notifications": sum(map(len, logs))}


def expected_run_scopes(w):
    from collections import Counter

    c = Counter()
    for e in w.log:
        if e[0] == "end":
            pn = w.nodes[e[1]]
            c[(*pn.node.scope, fqn(pn.node.fn))] += 1
    return c


def fqn(fn):
    m = getattr(fn, "__module__", None)
    q = getattr(fn, "__qualname__", None)
    if not isinstance(q, str) or not q:
        q, m = type(fn).__qualname__, type(fn).__module__
    return f"{m}.{q}" if m and not m.endswith("builtins") and m not in ("__main__", "_operator") else q


def check_account(w, log, r, kw):
    from collections import Counter

    bad = []
    kinds = [e[0] for e in log]
    if kinds.count("enter") != 1 or kinds.count("exit") != 1 or kinds[0] != "enter" or kinds[-1] != "exit":
        bad.append(f"the observer was not entered first and exited once at the end: {kinds[:3]}...{kinds[-3:]}")
    total, running, done, failed = Counter(), Counter(), Counter(), Counter()
    closed = Counter()
    for e in log:
        if e[0] in ("enter", "exit"):
            continue
        key = e[1], e[2]
        if e[0] == "total":
            if running[key] or done[key] or failed[key]:
                bad.append(f"the total of {key} was announced after it was reported running")
            total[key] += e[3]
        elif e[0] == "running":
            if not total[key]:
                bad.append(f"{key} was reported running before any total")
            running[key] += 1
        else:
            if running[key] - done[key] - failed[key] <= 0:
                bad.append(f"{key} was reported {e[0]} more often than running")
            (done if e[0] == "completed" else failed)[key] += 1
            if e[0] == "failed" and not isinstance(e[3], BaseException):
                bad.append(f"failed notification without an exception: {e[3]!r}")
    for key in running:
        if running[key] != done[key] + failed[key]:
            bad.append(f"{key}: {running[key]} running, {done[key]} completed, {failed[key]} failed at the end")
        if running[key] > total[key]:
            bad.append(f"{key}: {running[key]} started of a total of {total[key]}")
    if r.outcome == "ok":
        for key in set(total) | set(done):
            if total[key] != done[key]:
                bad.append(f"{key}: total {total[key]} but completed {done[key]} after a successful run")
        for (scope, c) in expected_run_scopes(w).items():
            if total[("run", scope)] != c:
                bad.append(f"'run' total of {scope} is {total[('run', scope)]}, executed {c}")
        nwrites = len([e for e in w.log if e[0] == "write_end"])
        nreads = len([e for e in w.log if e[0] == "read_end"])
        wr = sum(c for (s, sc), c in total.items() if s == "run" and "MStore.write" in str(sc[-1]))
        rd = sum(c for (s, sc), c in total.items() if s == "run" and "MStore.read" in str(sc[-1]))
        if (wr, rd) != (nwrites, nreads):
            bad.append(f"'run' totals count {wr} writes and {rd} reads; {nwrites} and {nreads} were performed")
        if w.registry is not None:
            ncalls = len([1 for n in w.plan.graph.nodes() if type(n) is W.Call])
            extra = 0
            st = sum(c for (s, sc), c in total.items() if s == "stale")
            # gathering the output adds calls to the examined copy
            if st < ncalls or st > ncalls + 8:
                bad.append(f"'stale' totals sum to {st}; {ncalls} calls were examined")
            exp = Counter()
            for n in w.plan.graph.nodes():
                if type(n) is W.Call:
                    sc = (*n.scope, fqn(n.fn))
                    if n in w.registry:
                        sc = (*sc, fqn(type(w.registry[n])))
                    exp[sc] += 1
            for sc, c in exp.items():
                if total[("stale", sc)] < c:
                    bad.append(f"'stale' total of {sc} is {total[('stale', sc)]} instead of {c}")
    # counts of failures match what was raised
    return bad


# ------------------------------------------------------------------ C16
def c16(seed, i):
    rng = random.Random(seed)
    if rng.random() < 0.15:
        return c16_failing(rng)
    if rng.random() < 0.1:
        return c16_workers(rng)
    reg = rng.random() < 0.25
    w = World(clone_seed(rng), n=knobs(rng, i) + 1, registry=reg, literals=True, containers=rng.random() < 0.3 and not reg)
    reg = w.registry is not None
    w.body_points = rng.choice((0, 1))
    out, expr = w.random_output(p_none=0.1)
    out_refs = W.expr_refs(expr)
    for p in w.nodes.values():  # outputs reach through gather nodes and literals
        pass
    live = {}
    consumers = {}
    protected = set()

    def protect(e):
        for x in W.expr_refs(e):
            if x in protected:
                continue
            protected.add(x)
            if w.nodes[x].kind == "gather":
                protect(w.nodes[x].args[0])

    if expr is not None:
        protect(expr)

    def users(nid):
        """Recorded calls that directly receive the value of nid (through containers), and whether it goes elsewhere."""
        u, other = set(), False
        for p in w.nodes.values():
            if nid in w.arg_refs(p.nid):
                if p.kind in ("call", "dep"):
                    u.add(p.nid)
                else:
                    other = True
            if p.src == nid:
                other = True
        return u, other

    info = {p.nid: users(p.nid) for p in w.nodes.values() if p.kind == "call"}

    def keep(nid, v):
        live[nid] = weakref.ref(v)

    w.keep = keep
    ended = set()
    bad = []
    faulty = rng.random() < 0.25
    if faulty:
        add_call_faults(w, rng, p=0.2, base=0)
    mw = rng.choice((1, 1, 2, 3))
    current = {}

    # a value's consumers have all ended: it may be checked from any later call once the worker has left the consumer
    def hook(nid):
        done = {e[1] for e in w.log if e[0] in ("end",)}
        gc_needed = []
        for x, (u, other) in info.items():
            if x in protected or other or x not in live or w.nodes[x].store is not None:
                continue
            if not u or not u <= done:
                continue
            if any(c in w.faults for c in u):
                continue
            # the worker that ran the last consumer must have moved on: with one worker, any later call is a proof
            if mw == 1 and isinstance(nid, int) and nid not in u:
                if live[x]() is not None:
                    gc_needed.append(x)
        for x in gc_needed:
            gc.collect()
            if live[x]() is not None:
                bad.append(f"the result of f{x} is still alive when f{nid} runs, after all its consumers {sorted(info[x][0])} finished")

    w.hook = hook
    # the log must not keep values alive
    w.log = Slim()
    held = []
    r = do_run(w, clone_seed(rng), out, trace=False, max_workers=mw, max_errors=None,
               scheduler=rng.choice(("default", "random")))
    if hung(r):
        return [], {}
    value = r.value if r.outcome == "ok" else None
    if r.outcome == "raise":
        return bad[:3], {"values": len(live), "checked": len(info)}
    gc.collect()
    for x, ref in live.items():
        key = x if isinstance(x, int) else None
        if key is None or key in protected:
            continue
        p = w.nodes[key]
        if p.store is not None:
            continue
        if ref() is not None:
            bad.append(f"the result of f{x} is still alive after the run")
    return bad[:3], {"values": len(live), "checked": len(info)}


class Slim(list):
    def append(self, e):
        if e[0] in ("start", "end", "read_end", "write_end"):
            e = e[:2]
        elif e[0] == "fail" or e[0].endswith("_fail"):
            e = e[:2]
        super().append(e)


def display(rng):
    """A bundled display that takes a while to show what it has rendered."""
    from uberjob.progress._html_progress_observer import HtmlProgressObserver

    n = rng.choice((0, 1, 5))

    def show(value):
        for _ in range(n):
            sched.yield_point()

    return uberjob.progress.Progress(lambda: HtmlProgressObserver(show, initial_update_delay=1, min_update_interval=1, max_update_interval=5))


class Unenterable(uberjob.progress._progress_observer.ProgressObserver):
    """An observer that cannot be entered: run raises, and nothing entered before it may be left running."""

    def __enter__(self):
        raise Boom("cannot be entered")

    def __exit__(self, *args):
        pass

    def increment_total(self, **kw):
        pass

    increment_running = increment_completed = increment_failed = increment_total


def failing_callable(rng):
    """A callable written in C, whose frame therefore holds no reference to its argument."""
    return rng.choice((lambda plan, v: plan.call(operator.truediv, v, 0), lambda plan, v: plan.call(operator.getitem, v, 0),
                       lambda plan, v: plan.call(operator.add, 1, v), lambda plan, v: plan.call(operator.neg, v),
                       lambda plan, v: plan.call(operator.index, v)))


class Result:
    __slots__ = ("__weakref__",)


class FailureLog(uberjob.progress._progress_observer.ProgressObserver):
    def __init__(self, log):
        self.log = log

    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass

    def increment_total(self, *, section, scope, amount):
        pass

    increment_running = increment_completed = lambda self, *, section, scope: None

    def increment_failed(self, *, section, scope, exception):
        self.log.append(exception.call)


def c16_failing(rng):
    """Some consumers fail: the results they were given are released as well, when the run goes on."""
    plan = uberjob.Plan()
    refs, ended, bad = {}, [], []
    consumers = {}

    def make(k):
        v = Result()
        refs[k] = weakref.ref(v)
        return v

    def use(name, *values):
        ended.append(name)

    def probe(*_):
        gc.collect()
        done = set(map(id, failed)) | {id(names[x]) for x in ended}
        for k, ref in refs.items():
            if consumers[k] <= done and ref() is not None:
                bad.append(f"result {k} is still alive although all its {len(consumers[k])} consumers (some of which failed) have ended")

    failed, names, nodes = [], {}, []
    for k in range(rng.randrange(1, 4)):
        v = plan.call(make, k)
        consumers[k] = set()
        for j in range(rng.randrange(1, 4)):
            if rng.random() < 0.5:
                c = failing_callable(rng)(plan, v)
            else:
                c = plan.call(use, (k, j), v)
                names[k, j] = c
            consumers[k].add(id(c))
            nodes.append(c)
    last = []
    for _ in range(rng.randrange(1, 4)):
        p = plan.call(probe)
        for _ in range(rng.randrange(1, 6)):
            p = plan.call(probe, p)
        last.append(p)
    s = controlled(lambda: uberjob.run(plan, output=[*nodes, *last], max_errors=None, max_workers=1, scheduler=rng.choice(("random", "default")),
                                       progress=uberjob.progress.Progress(lambda: FailureLog(failed))), clone_seed(rng), trace=False)
    if hung(s):
        return [], {}
    return bad[:3], {"values": len(refs), "checked": len(refs)}


def c16_workers(rng):
    """Several workers: a result is released although the worker that made it waits, or executes something else that takes long."""
    plan = uberjob.Plan()
    count = rng.randrange(1, 4)
    refs, bad = {}, []
    events = [threading.Event() for _ in range(count)]

    def make(k, *_):
        v = Result()
        refs[k] = weakref.ref(v)
        return v

    def use(k, *_):
        events[k].set()

    def look(deadline):
        for k in range(count):
            if not events[k].wait(max(0, deadline - time.monotonic())):
                return
        alive = True
        while alive and time.monotonic() < deadline:
            alive = [k for k in refs if refs[k]() is not None]
            time.sleep(0.001)
        # the deadline is the end of a run that does not release; before the verdict every thread had seconds to get there
        if alive:
            gc.collect()
            alive = [k for k in refs if refs[k]() is not None]
        for k in alive or ():
            bad.append(f"result {k} is still alive seconds after its consumer ended, while another call is executing")

    def check(*_):
        look(time.monotonic() + 3)

    before = plan.call(check)
    made = [plan.call(make, k) for k in range(count)]
    used = [plan.call(use, k, made[k]) for k in range(count)]
    if rng.random() < 0.7:
        for m in made:
            plan.add_dependency(m, before)
    retry = rng.choice((None, 1, 2))
    s = uberjob.run(plan, output=[before, *used], max_workers=count + rng.randrange(1, 4), scheduler=rng.choice(("random", "default")), retry=retry, progress=None)
    del s
    return bad[:3], {"values": count, "checked": count}


# ------------------------------------------------------------------ C17
def c17(seed, i):
    rng = random.Random(seed)
    reg = rng.random() < 0.3
    w = World(clone_seed(rng), n=knobs(rng, i) + 2, registry=reg)
    reg = w.registry is not None
    w.body_points = rng.choice((1, 3, 6))
    out = [p.node for p in w.nodes.values() if p.kind != "dep"]
    log = []
    prog = uberjob.progress.Progress(lambda: Recorder(w, log))
    if rng.random() < 0.3:
        prog = [prog, display(rng)]
    at = rng.randrange(1, max(2, len(w.call_nids()) + 1))
    state = {"mark": None}

    def interrupt(s, kind):
        # inside threading's own lock handling an asynchronous exception is the standard library's affair
        ok = kind in ("block", "peek", "start") and w.executing >= 1 and len([1 for e in w.log if e[0] == "start"]) >= at
        if not ok:
            return False
        if kind == "peek":
            return True
        if state["mark"] is None:
            state["mark"] = len(w.log)
            state["running"] = w.executing
        return True

    if rng.random() < 0.3:
        add_call_faults(w, rng, p=0.2)
    kw = run_kwargs(rng, max_errors=rng.choice((0, None)))
    r = do_run(w, clone_seed(rng), out, interrupt=interrupt, progress=prog, **kw)
    bad = check_termination(w, r)
    if not r.sched.interrupted or hung(r):
        return bad, {"interrupted": 0}
    mark = state["mark"]
    if r.outcome == "ok":
        bad.append("KeyboardInterrupt was swallowed: run returned")
    elif type(r.value) is not KeyboardInterrupt:
        bad.append(f"KeyboardInterrupt did not propagate: run raised {r.value!r}")
    started = [e for e in w.log[: mark] if e[0] == "start"]
    later = [e for e in w.log[mark:] if e[0] == "start" or e[0] in ("read_start", "write_start")]
    # a worker that had already passed its stop check when the interrupt arrived may still start its call
    allowed = max(0, kw["max_workers"] - state["running"])
    if len(later) > allowed:
        bad.append(f"{len(later)} calls started after the interrupt while {state['running']} were executing on {kw['max_workers']} workers")
    fin = {e[1] for e in w.log if e[0] in ("end", "fail")}
    notdone = [e[1] for e in w.log if e[0] == "start" and e[1] not in fin]
    if notdone:
        bad.append(f"calls {notdone} did not run to completion")
    kinds = [e[0] for e in log]
    if kinds.count("exit") != 1 or kinds[-1] != "exit":
        bad.append("the progress observer was not exited (once, at the end)")
    return bad, {"interrupted": 1}
