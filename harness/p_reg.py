"""Bounded contract checks on runs with a registry (C03, C05, C08, C09, C13, C14, C18)."""
import copy
import datetime as dt
import os
import random
import threading
import time

from . import sched, world as W
from .runs import CallError, check_order, controlled, do_run, events, hung, raised_in
from .world import BaseBoom, Boom, World, any_boom, at, dig, uberjob


def clone_seed(rng):
    return rng.randrange(1 << 30)


def reg_world(rng, i, **kw):
    n = rng.randrange(2, 5 + min(7, i // 15))
    while True:
        w = World(clone_seed(rng), n=n, registry=True, p_reg=rng.choice((0.3, 0.6, 0.9)), **kw)
        if w.registry is not None:
            return w


# ------------------------------------------------------------------ declarative oracles
def stored_ancestors(w, nid):
    return {x for x in w.ancestors([nid]) - {nid} if w.nodes[x].store is not None}


def out_of_date(w, fresh=None):
    """The stored nodes that are out of date, from the definition in the property statement."""
    memo = {}

    def ood(n):
        if n in memo:
            return memo[n]
        p = w.nodes[n]
        up = stored_ancestors(w, n)
        t = p.store.time
        if t is None or any(ood(u) for u in up):
            r = True
        elif p.is_source and not up:
            r = False
        else:
            r = any(w.nodes[u].store.time > t for u in up) or (fresh is not None and t < fresh)
        memo[n] = r
        return r

    return {p.nid for p in w.nodes.values() if p.store is not None and ood(p.nid)}


def expected_work(w, stale, out_refs):
    """(calls executed, stores written, stores read) of a successful run."""
    calls, reads, writes = set(), set(), set()
    seen = set()

    def need_arg(x):
        if w.nodes[x].store is not None:
            reads.add(x)
        else:
            need_node(x)

    def need_dep(x):
        if w.nodes[x].store is None:
            need_node(x)

    def need_node(x):
        if x in seen:
            return
        seen.add(x)
        p = w.nodes[x]
        if p.kind in ("call", "dep"):
            calls.add(x)
        for a in w.arg_refs(x):
            need_arg(a)
        for d in p.deps:
            need_dep(d)

    for n in stale:
        p = w.nodes[n]
        if p.is_source:
            for d in p.deps:
                need_dep(d)
        else:
            writes.add(n)
            need_node(n)
    for x in out_refs:
        need_arg(x)
    return calls, writes, reads


def check_work(w, stale, out_refs, log):
    bad = []
    calls, writes, reads = expected_work(w, stale, out_refs)
    for kind, exp, what in (("start", calls, "executed"), ("write_start", writes, "written"), ("read_start", reads, "read")):
        got = [e[1] for e in log if e[0] == kind]
        if len(got) != len(set(got)):
            bad.append(f"{what} more than once: {sorted(x for x in set(got) if got.count(x) > 1)}")
        if set(got) - exp:
            bad.append(f"needlessly {what}: {sorted(set(got) - exp)} (out of date: {sorted(stale)})")
        if exp - set(got):
            bad.append(f"not {what}: {sorted(exp - set(got))} (out of date: {sorted(stale)})")
    return bad


def check_correct(w, r, expr):
    """C03's conclusion: output and every stored value equal their from-scratch values."""
    bad = []
    value = w.reference()
    if expr is None:
        if r.value is not None:
            bad.append(f"run without output returned {r.value!r}")
    else:
        exp = w.expr_value(expr, value)
        if dig(r.value) != dig(exp):
            bad.append(f"output {r.value!r} differs from the from-scratch value {exp!r}")
    for p in w.nodes.values():
        if p.store is not None and not p.is_source:
            if not p.store.present:
                bad.append(f"nothing is stored for node {p.nid} after a successful run")
            elif p.store.value != dig(value(p.nid)):
                bad.append(f"the stored value of node {p.nid} differs from its from-scratch value")
    return bad


def mutate(w, rng):
    """One change between runs: a source update, or a deletion of a rebuildable stored value."""
    r = rng.random()
    srcs = [p for p in w.nodes.values() if p.is_source and p.refresh is None]
    vals = [p for p in w.nodes.values() if p.store is not None and not (p.is_source and p.refresh is None)]
    if srcs and r < 0.55:
        p = rng.choice(srcs)
        p.store.put(W.digest("src", p.nid, w.clock))
        return f"update {p.nid}"
    if vals:
        p = rng.choice(vals)
        p.store.clear()
        return f"delete {p.nid}"
    return None


def cut(w, rng, nops):
    """Arm a fault at a random operation. Returns a description."""
    k = rng.randrange(0, max(1, nops))
    style = rng.choice(("boom", "boom", "base", "die", "write_after", "kbd"))
    count = [0]

    def op_fault(kind, nid):
        if kind == "write_after":
            if style == "write_after" and count[0] >= k:
                w.op_fault = None
                return Boom("after the write")
            return None
        count[0] += 1
        if style == "write_after":
            return None
        if count[0] > k:
            if style == "die":
                w.dead = True
            elif rng.random() < 0.7:
                w.op_fault = None
            return BaseBoom("cut") if style == "base" else KeyboardInterrupt() if style == "kbd" else any_boom(rng)("cut")
        return None

    w.op_fault = op_fault
    return f"{style}@{k}"


def kw_of(rng, fresh=None, **over):
    kw = dict(
        max_workers=rng.choice((1, 1, 2, 3)), scheduler=rng.choice((None, "default", "random")),
        stale_check_max_workers=rng.choice((None, 1, 2)),
    )
    if fresh is not None:
        kw["fresh_time"] = at(fresh)
    kw.update(over)
    return kw


# ------------------------------------------------------------------ C03 (and C05's work account)
def history(seed, i, what):
    rng = random.Random(seed)
    w = reg_world(rng, i)
    w.body_points = rng.choice((0, 1))
    fresh = None
    bad, trail = [], []
    ok_runs = 0
    trace = rng.random() < 0.25
    rewritten_since = None
    for step in range(rng.randrange(2, 6)):
        r_ = rng.random()
        if step and r_ < 0.5:
            trail.append(mutate(w, rng))
        elif step and r_ < 0.6:
            fresh = w.clock
            if rng.random() < 0.3:
                fresh = rng.randrange(0, w.clock + 1) if fresh is None else max(fresh, rng.randrange(0, w.clock + 1))
            trail.append(f"fresh_time {fresh}")
        faulty = rng.random() < (0.45 if what != "C05" else 0.2)
        if faulty:
            trail.append(cut(w, rng, 1 + 3 * len(w.nodes)))
        out, expr = w.random_output(p_none=0.4)
        w.log.clear()
        stale = out_of_date(w, fresh)
        before = {p.nid: p.store.snapshot() for p in w.nodes.values() if p.store is not None}
        r = do_run(w, clone_seed(rng), out, trace=trace,
                   **kw_of(rng, fresh, max_errors=rng.choice((0, 0, None, 1))))
        w.op_fault = None
        w.dead = False
        if hung(r):
            return [], {}
        trail.append(f"run -> {r.outcome}")
        if r.outcome == "ok":
            ok_runs += 1
            if what == "C03":
                bad += check_correct(w, r, expr)
            if what == "C05":
                bad += check_work(w, stale, W.expr_refs(expr), w.log)
            if what == "C09":
                bad += check_writeback(w, r, expr, stale)
        elif not raised_in(w):
            return ([f"run raised {r.value!r} though no operation failed"] if what == "C03" else []), {}
        if what == "C09" and r.outcome != "ok":
            bad += check_writeback(w, None, None, stale)
        if what == "C08" and r.outcome != "ok":
            value = w.reference()
            for n in {p.nid for p in w.nodes.values() if p.store is not None} - out_of_date(w, None):
                p = w.nodes[n]
                if not p.is_source and p.store.value != dig(value(n)):
                    bad.append(f"after the cut, node {n} looks up to date but does not hold its from-scratch value")
            written = {e[1] for e in w.log if e[0] == "write_end"}
            w.log.clear()
            out2, expr2 = w.random_output(p_none=0.4)
            r2 = do_run(w, clone_seed(rng), out2, trace=False, **kw_of(rng, fresh))
            if hung(r2):
                return [], {}
            if r2.outcome != "ok":
                if not raised_in(w) or True:
                    bad.append(f"the run after the cut failed: {r2.value!r} from {r2.value.__cause__!r}")
            else:
                ok_runs += 1
                bad += check_correct(w, r2, expr2)
                again = written & {e[1] for e in w.log if e[0] == "write_start"}
                if again:
                    bad.append(f"nodes {sorted(again)} were written before the cut and recomputed by the next run")
        if what == "C05" and r.outcome == "ok" and not bad:
            w.log.clear()
            r2 = do_run(w, clone_seed(rng), None, trace=False, **kw_of(rng, fresh))
            ops = [e[:2] for e in w.log if e[0] in ("start", "read_start", "write_start")]
            if ops and not hung(r2):
                bad.append(f"a repeated run without output performed {ops}")
        if bad:
            break
    return [f"{b}; history: {trail}" for b in bad], {"successful_runs": ok_runs, "steps": len(trail)}


def c03(seed, i):
    return history(seed, i, "C03")


def c05(seed, i):
    return history(seed, i, "C05")


def c08(seed, i):
    return history(seed, i, "C08")


def c09(seed, i):
    return history(seed, i, "C09")


# ------------------------------------------------------------------ C09
def check_writeback(w, r, expr, stale):
    bad = []
    pos = {}
    for k, e in enumerate(w.log):
        pos.setdefault((e[0], e[1]), k)
    reads = {e[1]: e[2] for e in w.log if e[0] == "read_end"}
    ends = {e[1]: e[2] for e in w.log if e[0] == "end"}
    writes = {e[1] for e in w.log if e[0] == "write_start"}

    def received(e, actual, where):
        k = e[0]
        if k == "ref":
            p = w.nodes[e[1]]
            if p.store is not None:
                if e[1] not in reads:
                    bad.append(f"{where} received {actual!r} for stored node {e[1]}, which was not read back")
                elif reads[e[1]] is not actual:
                    bad.append(f"{where} received {actual!r} for stored node {e[1]}, not the value its store returned")
            elif p.kind in ("call", "dep") and p.parts is None and e[1] in ends and ends[e[1]] is not actual:
                bad.append(f"{where} received {actual!r} for f{e[1]}, not what it returned")
        elif k in ("list", "tuple") and W.has_ref(e) and len(actual) == len(e[1]):
            for x, a in zip(e[1], actual):
                received(x, a, where)
        elif k == "dict" and W.has_ref(e) and len(actual) == len(e[1]):
            for (_, x), a in zip(e[1], actual.values()):
                received(x, a, where)

    def through(nid, args_only):
        """Stored nodes that nid consumes (arguments) or depends on, through nodes without a store."""
        argd, depd, seen = set(), set(), set()

        def walk(x):
            if x in seen:
                return
            seen.add(x)
            p = w.nodes[x]
            for a in w.arg_refs(x):
                (argd.add(a) if w.nodes[a].store is not None else walk(a))
            for d in p.deps:
                (depd.add(d) if w.nodes[d].store is not None else walk(d))

        walk(nid)
        return argd, depd

    for e in w.log:
        if e[0] != "start":
            continue
        nid = e[1]
        p = w.nodes[nid]
        for x, a in zip(p.args, e[2]):
            received(x, a, f"f{nid}")
        for name, x in p.kwargs.items():
            if name in e[3]:
                received(x, e[3][name], f"f{nid}")
        argd, depd = through(nid, False)
        me = pos[("start", nid)]
        for s in argd & stale:
            if not w.nodes[s].is_source and pos.get(("write_end", s), 1 << 30) > me:
                bad.append(f"f{nid} consumes node {s} but started before its new value was written")
            if pos.get(("read_end", s), 1 << 30) > me:
                bad.append(f"f{nid} consumes node {s} but started before it was read back")
        for s in depd & stale:
            if w.nodes[s].is_source:
                for c in [d for d in w.ancestors([s]) - {s} if w.nodes[d].kind in ("call", "dep") and w.nodes[d].store is None and d in w.nodes[s].deps]:
                    if pos.get(("end", c), 1 << 30) > me:
                        bad.append(f"f{nid} depends on out-of-date source {s} but started before f{c} had run")
            elif pos.get(("write_end", s), 1 << 30) > me:
                bad.append(f"f{nid} depends on node {s} but started before its new value was written")
    for k, e in enumerate(w.log):
        if e[0] == "write_start":
            for u in stored_ancestors(w, e[1]):
                if u in writes and pos.get(("write_end", u), 1 << 30) > k:
                    bad.append(f"node {e[1]} was written before upstream node {u}")
                if u in writes and pos.get(("write_end", u), -1) > pos.get(("start", e[1]), 1 << 30):
                    bad.append(f"f{e[1]} computed its value before upstream node {u} was written")
            p = w.nodes[e[1]]
            i = pos.get(("read_start", e[1]))
            if i is not None and i < pos.get(("write_end", e[1]), 1 << 30):
                bad.append(f"node {e[1]} was read before it was written")
        if e[0] == "read_start" and e[1] in stale and w.nodes[e[1]].is_source:
            for d in w.nodes[e[1]].deps:
                todo = [d]
                while todo:
                    x = todo.pop()
                    if w.nodes[x].store is not None:
                        continue
                    if w.nodes[x].kind in ("call", "dep"):
                        if pos.get(("end", x), 1 << 30) > k:
                            bad.append(f"out-of-date source {e[1]} was read before f{x} had run")
                    else:
                        todo.extend(w.ref_deps(x))
    if r is not None:
        if expr is not None:
            received(expr, r.value, "the output")
        for n in stale:
            for p in w.nodes.values():
                if p.store is not None and not p.is_source and n in stored_ancestors(w, p.nid) and p.nid not in writes:
                    bad.append(f"node {n} was rebuilt but node {p.nid} downstream of it was not")
    return bad


# ------------------------------------------------------------------ C13
def snapshot(plan, registry):
    g = plan.graph
    nodes = [(id(n), n, type(n), n.scope, getattr(n, "fn", None), getattr(n, "value", None), getattr(n, "stack_frame", None)) for n in g.nodes()]
    edges = [(id(u), id(v), type(k), repr(k), id(k)) for u, v, k in g.edges(keys=True)]
    attrs = [dict(d) for _, d in g.nodes(data=True)] + [dict(d) for *_, d in g.edges(data=True)]
    reg = None
    if registry is not None:
        reg = [(id(n), id(v), v.value_store, v.is_source, v.stack_frame) for n, v in registry.mapping.items()]
    return nodes, edges, attrs, reg, plan._scope, id(plan.graph)


def diff(a, b):
    names = ("nodes (identity, type, scope, content)", "edges", "attributes", "registry entries", "scope", "graph object")
    return [n for n, x, y in zip(names, a, b) if x != y]


def scopes_apart(plan, other, rng):
    """While one thread is inside a scope of one plan, another thread can use scopes of the other."""
    a, b = rng.choice(((plan, other), (other, plan)))
    got = []

    def use():
        with b.scope("inner"):
            got.append(b.call(int).scope)

    def body():
        with a.scope("outer"):
            t = threading.Thread(target=use)
            t.start()
            t.join()

    r = controlled(body, clone_seed(rng), trace=False)
    if r.deadlock or r.livelock:
        return ["a scope of a plan blocks the scopes of its copy in other threads"]
    if not got or "outer" in got[0] or "inner" not in got[0]:
        return [f"a scope of a plan changes the scope of calls added to its copy: {got}"]
    return []


def c13(seed, i):
    rng = random.Random(seed)
    reg = rng.random() < 0.7
    if reg:
        w = reg_world(rng, i, scopes=True)
    else:
        w = World(clone_seed(rng), n=rng.randrange(2, 9), scopes=True, containers=True, unpack=True)
    w.body_points = 1
    bad = []
    before = snapshot(w.plan, w.registry)
    out, expr = w.random_output()
    mode = rng.choice(("run", "run", "fail", "dry", "concurrent", "copy", "copy", "render", "transform", "stale_fail"))
    ops = {}
    if mode == "run":
        r = do_run(w, clone_seed(rng), out, trace=False, **kw_of(rng))
    elif mode in ("fail", "stale_fail"):
        cut(w, rng, 2 * len(w.nodes))
        r = do_run(w, clone_seed(rng), out, trace=False, **kw_of(rng, max_errors=rng.choice((0, None))))
        w.op_fault = None
    elif mode == "dry":
        r = do_run(w, clone_seed(rng), out, trace=False, dry_run=True, **kw_of(rng))
        if r.outcome == "ok":
            plan2, node2 = r.value
            # the returned plan is the caller's to change
            for n in list(plan2.graph.nodes()):
                plan2.graph.remove_node(n)
    elif mode == "transform":
        def tr(plan, node):
            plan.lit("extra")
            return plan, node
        r = do_run(w, clone_seed(rng), out, trace=False, transform_physical=tr, **kw_of(rng))
    elif mode == "concurrent":
        k = rng.choice((2, 3))
        results = [None] * k
        outs = [w.random_output() for _ in range(k)]

        def one(j):
            try:
                results[j] = ("ok", uberjob.run(w.plan, output=outs[j][0], registry=w.registry, progress=None, max_workers=2))
            except BaseException as e:
                results[j] = ("raise", e)

        def body():
            ts = [threading.Thread(target=one, args=(j,)) for j in range(k)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()

        r = controlled(body, clone_seed(rng), trace=rng.random() < 0.5)
        if hung(r):
            bad.append(f"concurrent runs of one plan do not finish (deadlock={r.deadlock})")
        elif r.outcome == "ok":
            value = w.reference()
            for j, res in enumerate(results):
                if res is None or res[0] == "raise":
                    bad.append(f"concurrent run {j} of one plan raised {res and res[1]!r}")
                elif not reg and outs[j][1] is not None and dig(res[1]) != dig(w.expr_value(outs[j][1], value)):
                    bad.append(f"concurrent run {j} of one plan returned a wrong value")
    elif mode == "render":
        try:
            uberjob.render(rng.choice((w.plan, w.plan.graph, (w.plan, None), (w.plan, next(iter(w.plan.graph.nodes()))))),
                           registry=rng.choice((w.registry, w.registry, None)), level=rng.choice((None, None, 0, 1, 2)),
                           predicate=rng.choice((None, lambda u, d: type(u) is not W.Literal, lambda u, d: bool(u.scope))),
                           format="dot" if rng.random() < 0.3 else "raw")
        except Exception as e:
            ops["render_failed"] = 1
    else:
        p2 = rng.choice((w.plan.copy, lambda: copy.copy(w.plan)))()
        r2 = rng.choice((w.registry.copy, lambda: copy.copy(w.registry)))() if w.registry is not None else None
        s2 = snapshot(p2, r2)
        if [x[0] for x in s2[0]] != [x[0] for x in before[0]] or sorted((x[0], x[1], x[3]) for x in s2[1]) != sorted((x[0], x[1], x[3]) for x in before[1]):
            bad.append("a copied plan does not have the same nodes and edges")
        if r2 is not None and [(x[0],) + x[2:] for x in s2[3]] != [(x[0],) + x[2:] for x in before[3]]:
            bad.append("a copied registry does not have the same entries")
        direction = rng.random() < 0.5
        src_p, src_r, other, other_r = (p2, r2, w.plan, w.registry) if direction else (w.plan, w.registry, p2, r2)
        sb = snapshot(other, other_r)
        n1 = src_p.call(len, [1])
        with src_p.scope("zzz"):
            n2 = src_p.lit(5)
        src_p.add_dependency(n2, n1)
        nodes = list(src_p.graph.nodes())
        src_p.add_dependency(nodes[0], n1)
        if len(nodes) > 3:
            src_p.graph.remove_node(nodes[1])
            for u, v, k, d in src_p.graph.edges(keys=True, data=True):
                d["mark"] = 1
            for u, d in src_p.graph.nodes(data=True):
                d["mark"] = 1
        if src_r is not None:
            src_r.add(n1, W.MStore(w, 0))
            for v in src_r.mapping.values():
                v.is_source = not v.is_source
                v.value_store = None
        d = diff(sb, snapshot(other, other_r))
        if rng.random() < 0.3:
            bad += scopes_apart(w.plan, p2, rng)
        if d:
            bad.append(f"changing a {'copy' if direction else 'plan'} changed {d} of its {'original' if direction else 'copy'}")
        return bad, {"copies": 1}
    after = snapshot(w.plan, w.registry)
    d = diff(before, after)
    if d:
        bad.append(f"{mode} changed the caller's {d}")
    return bad, {"snapshots": 1, mode: 1}


# ------------------------------------------------------------------ C14
def store_state(w):
    return {p.nid: p.store.snapshot() for p in w.nodes.values() if p.store is not None}


def restore_state(w, s, clock):
    for nid, x in s.items():
        w.nodes[nid].store.restore(x)
    w.clock = clock


def opcount(w):
    from collections import Counter

    return Counter((e[0], e[1]) for e in w.log if e[0] in ("start", "read_start", "write_start"))


def c14(seed, i):
    rng = random.Random(seed)
    if rng.random() < 0.8:
        w = reg_world(rng, i)
    else:
        w = World(clone_seed(rng), n=rng.randrange(2, 9), containers=True, unpack=True)
    w.body_points = 0
    out, expr = w.random_output(p_none=0.3)
    bad = []
    if rng.random() < 0.6:
        do_run(w, clone_seed(rng), w.random_output()[0], trace=False, **kw_of(rng))
        for _ in range(rng.randrange(0, 3)):
            mutate(w, rng)
    fresh = w.clock if rng.random() < 0.2 else None
    transform = None
    if rng.random() < 0.25:
        how, pick = rng.choice(("same", "none", "other", "wrapped")), rng.random()

        def transform(plan, node):
            if how == "none":
                return plan, None
            if how == "other":
                calls = [p.node for p in w.nodes.values() if p.kind == "call" and p.node in plan.graph]
                return plan, calls[int(pick * len(calls))] if calls else node
            if how == "wrapped" and node is not None:
                return plan, plan.call(W.box, node)
            return plan, node
    state, clock = store_state(w), w.clock
    w.log.clear()
    r = do_run(w, clone_seed(rng), out, trace=False, dry_run=True, transform_physical=transform, **kw_of(rng, fresh))
    if hung(r):
        return [], {}
    ops = [e for e in w.log if e[0] in ("start", "read_start", "write_start")]
    if ops:
        bad.append(f"the dry run performed {ops[0][:2]}")
    if store_state(w) != state:
        bad.append("the dry run changed a store")
    if r.outcome != "ok":
        return bad + [f"the dry run raised {r.value!r}"], {"dry": 1}
    plan, node = r.value
    w.log.clear()
    r1 = controlled(lambda: run_whole(plan, node), clone_seed(rng), trace=False)
    if hung(r1):
        return [], {}
    ops1 = opcount(w)
    made1 = made_by(w, r1)
    mts = events(w, "mtime_start")
    state1 = {k: (v[0], v[3]) for k, v in store_state(w).items()}
    restore_state(w, state, clock)
    w.log.clear()
    r2 = do_run(w, clone_seed(rng), out, trace=False, transform_physical=transform, **kw_of(rng, fresh))
    if hung(r2):
        return [], {}
    ops2 = opcount(w)
    made2 = made_by(w, r2)
    state2 = {k: (v[0], v[3]) for k, v in store_state(w).items()}
    if mts:
        bad.append("executing the physical plan queried modified times")
    if r1.outcome != r2.outcome:
        bad.append(f"the real run ended with {r2.outcome} ({r2.value!r}) but the physical plan with {r1.outcome} ({r1.value!r}, cause {getattr(r1.value, '__cause__', None)!r})")
    elif r1.outcome == "ok":
        if dig(r1.value) != dig(r2.value):
            bad.append(f"the physical plan yields {r1.value!r}, the real run {r2.value!r}")
        elif made1 != made2:
            bad.append(f"what the physical plan yields was made by {made1}, what the real run yields by {made2}")
        if ops1 != ops2:
            bad.append(f"operations differ: only physical {dict(ops1 - ops2)}, only real {dict(ops2 - ops1)}")
        if state1 != state2:
            bad.append("the physical plan leaves different stored values than the real run")
    return bad, {"dry": 1, "ops": sum(ops2.values())}


def made_by(w, r):
    """The call or the read that made the very object that a run returned."""
    return sorted({(e[0], e[1]) for e in w.log if e[0] in ("end", "read_end") and e[2] is r.value}) if r.outcome == "ok" and r.value is not None else []


def run_whole(plan, node):
    """Execute all nodes of the plan by itself, with no registry."""
    p = plan.copy()
    roots = [n for n in p.graph.nodes()]
    every = p.gather([n for n in roots if n is not node])
    holder = []
    if node is None:
        uberjob.run(p, output=every, progress=None, max_workers=2)
        return None
    value, _ = uberjob.run(p, output=[node, every], progress=None, max_workers=2)
    return value


# ------------------------------------------------------------------ C18
ZONES = ["UTC", "America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns"]


class TZStore(uberjob.ValueStore):
    def __init__(self, rep, instant, log, name):
        self.rep, self.instant, self.log, self.name = rep, instant, log, name

    def read(self):
        return self.name

    def write(self, value):
        self.log.append(self.name)

    def get_modified_time(self):
        return None if self.instant is None else represent(self.instant, self.rep)


def represent(instant, rep):
    """instant: POSIX seconds."""
    if rep == "naive":
        return dt.datetime.fromtimestamp(instant)
    if rep == "utc":
        return dt.datetime.fromtimestamp(instant, dt.timezone.utc)
    if isinstance(rep, int):
        return dt.datetime.fromtimestamp(instant, dt.timezone(dt.timedelta(minutes=rep)))
    from zoneinfo import ZoneInfo

    return dt.datetime.fromtimestamp(instant, ZoneInfo(rep))


TRANSITIONS = [1710054000, 1730613600, 1711846800, 1729990800, 1325239200, 1696089600, 1712415600, 1720000000, 1704067200, 86400 * 400]


def c18(seed, i):
    rng = random.Random(seed)
    base = rng.choice(TRANSITIONS)
    spread = rng.choice((3, 600, 3600, 7200, 90000))
    n = rng.randrange(2, 6)
    instants = rng.sample([base + k * spread // 6 for k in range(-12, 12)], n + 1)
    if len(set(instants)) < n + 1:
        instants = [base + k for k in rng.sample(range(-7300, 7300), n + 1)]
    missing = rng.randrange(0, n) if rng.random() < 0.15 else None
    use_fresh = rng.random() < 0.6
    parents = [[j for j in range(k) if rng.random() < 0.6] for k in range(n)]
    source = [k == 0 and rng.random() < 0.6 for k in range(n)]
    reps_all = ["naive", "utc", 0, 330, -210, 840, -720, "America/New_York", "Australia/Lord_Howe", "Europe/London"]
    # decision from the instants
    stale = set()
    for k in range(n):
        up = set()
        todo = list(parents[k])
        while todo:
            x = todo.pop()
            up.add(x)
            todo.extend(parents[x])
        if k == missing or up & stale:
            stale.add(k)
        elif source[k]:
            pass
        elif any(instants[u] > instants[k] for u in up) or (use_fresh and instants[n] > instants[k]):
            stale.add(k)
    bad = []
    old = os.environ.get("TZ")
    try:
        for _ in range(3):
            tz = rng.choice(ZONES)
            os.environ["TZ"] = tz
            time.tzset()
            mode = rng.random()
            reps = ["naive"] * (n + 1) if mode < 0.25 else [rng.choice(reps_all) for _ in range(n + 1)]
            log = []
            plan, registry = uberjob.Plan(), uberjob.Registry()
            nodes = []
            for k in range(n):
                store = TZStore(reps[k], None if k == missing else instants[k], log, k)
                if source[k]:
                    node = registry.source(plan, store)
                else:
                    node = plan.call(lambda *a: None, *[nodes[j] for j in parents[k]])
                    registry.add(node, store)
                nodes.append(node)
            for k in range(n):
                if not source[k]:
                    for j in parents[k]:
                        pass
            fresh = represent(instants[n], reps[n]) if use_fresh else None
            uberjob.run(plan, registry=registry, progress=None, max_workers=1, fresh_time=fresh)
            got = set(log)
            exp = {k for k in stale if not source[k]}
            if got != exp:
                bad.append(
                    f"TZ={tz}: instants {instants[:n]} as {reps[:n]}, fresh_time {instants[n] if use_fresh else None} as {reps[n]}, "
                    f"parents {parents}, sources {source}, missing {missing}: rewritten {sorted(got)}, out of date {sorted(exp)}"
                )
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    return bad, {"decisions": 3 * n}
