"""Running a World under the deterministic scheduler, and the checks on one run's event log."""
import random

from . import sched, world as W
from .world import uberjob

CallError = uberjob.CallError


class Res:
    pass


def controlled(body, seed, *, trace=True, interrupt=None, start_fault=None, rate=None, policy=None, max_steps=400000):
    s = sched.Scheduler(seed, trace=trace, rate=rate, policy=policy, start_fault=start_fault, max_steps=max_steps)
    s.interrupt = interrupt
    r = Res()
    r.sched = s
    r.outcome, r.value = s.run(body)
    r.deadlock, r.livelock = s.deadlock, s.livelock
    r.leaked = s.leaked
    return r


def do_run(w, seed, output, *, trace=True, interrupt=None, start_fault=None, rate=None, policy=None, **kw):
    kw.setdefault("progress", None)
    kw.setdefault("registry", w.registry)
    r = controlled(
        lambda: uberjob.run(w.plan, output=output, **kw), seed, trace=trace, interrupt=interrupt,
        start_fault=start_fault, rate=rate, policy=policy,
    )
    r.error = r.value if r.outcome == "raise" else None
    return r


def hung(r):
    return bool(r.deadlock or r.livelock)


def events(w, kind):
    return [e for e in w.log if e[0] == kind]


def check_order(w, log=None):
    """C01: at each start, every dependency has ended (no registry: transitively; registry: storeless ones)."""
    log = w.log if log is None else log
    bad = []
    ended = set()
    reg = w.registry is not None
    need_memo = {}

    def need(nid):
        if nid in need_memo:
            return need_memo[nid]
        out, seen, todo = set(), set(), list(w.ref_deps(nid))
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            p = w.nodes[x]
            if reg and p.store is not None:
                continue
            if p.kind in ("call", "dep"):
                out.add(x)
                if not reg:
                    todo.extend(w.ref_deps(x))
            else:
                todo.extend(w.ref_deps(x))
        need_memo[nid] = out
        return out

    for e in log:
        if e[0] == "end":
            ended.add(e[1])
        elif e[0] == "start":
            missing = need(e[1]) - ended
            if missing:
                bad.append(f"call f{e[1]} started before its dependencies {sorted(missing)} had finished")
    return bad


def fresh_deep(w, e, actual, produced):
    """Is `actual` the value of expression e, with the identities C02 asks for? Returns None or a message."""
    k = e[0]
    if k == "obj":
        return None if actual is e[1] else f"expected the very object {e[1]!r}, got {actual!r}"
    if k == "ref":
        pn = w.nodes[e[1]]
        if pn.kind == "lit":
            return None if actual is pn.value else f"literal value of {e[1]} replaced by {actual!r}"
        if pn.kind in ("call", "dep") and e[1] in produced:
            return None if actual is produced[e[1]] else f"value of f{e[1]} is not the object it returned: {actual!r}"
        if pn.kind == "gather":
            return fresh_deep(w, pn.args[0], actual, produced)
        exp = w.reference()(e[1])
        if type(actual) is not type(exp) or W.dig(actual) != W.dig(exp):
            return f"value of node {e[1]}: expected {exp!r}, got {actual!r}"
        return None
    if len(e) > 2 and e[2] is not None and not W.has_ref(e):
        return None if actual is e[2] else f"node-free {k} {e[2]!r} was not passed as is: {actual!r}"
    types = {"list": list, "tuple": tuple, "set": set, "dict": dict}
    if type(actual) is not types[k]:
        return f"expected a {k}, got {type(actual).__name__}"
    if k in ("list", "tuple"):
        if len(actual) != len(e[1]):
            return f"{k} of length {len(actual)} instead of {len(e[1])}"
        for x, a in zip(e[1], actual):
            m = fresh_deep(w, x, a, produced)
            if m:
                return m
        return None
    value = w.reference()
    exp = w.expr_value(e, value)
    if W.dig(actual) != W.dig(exp):
        return f"{k}: expected {exp!r}, got {actual!r}"
    if k == "dict":
        if len(actual) == len(e[1]):
            for (kk, v), (ak, av) in zip(e[1], actual.items()):
                m = fresh_deep(w, v, av, produced)
                if m:
                    return m
    return None


def check_values(w, out_expr, r):
    bad = []
    produced = {e[1]: e[2] for e in w.log if e[0] == "end" and w.nodes[e[1]].parts is None}
    for e in events(w, "start"):
        pn = w.nodes[e[1]]
        args, kwargs = e[2], e[3]
        if len(args) != len(pn.args):
            bad.append(f"f{pn.nid} received {len(args)} positional arguments instead of {len(pn.args)}")
            continue
        for i, (x, a) in enumerate(zip(pn.args, args)):
            m = fresh_deep(w, x, a, produced)
            if m:
                bad.append(f"f{pn.nid} argument {i}: {m}")
        if list(kwargs) != list(pn.kwargs):
            bad.append(f"f{pn.nid} received keywords {list(kwargs)} instead of {list(pn.kwargs)}")
            continue
        for name, x in pn.kwargs.items():
            m = fresh_deep(w, x, kwargs[name], produced)
            if m:
                bad.append(f"f{pn.nid} keyword {name}: {m}")
    if r.outcome == "ok":
        if out_expr is None:
            if r.value is not None:
                bad.append(f"run without output returned {r.value!r}")
        else:
            m = fresh_deep(w, out_expr, r.value, produced)
            if m:
                bad.append(f"output: {m}")
    elif r.outcome == "raise":
        bad.append(f"run raised {r.value!r} caused by {r.value.__cause__!r}")
    return bad


def raised_in(w):
    """All (kind, nid, exception) failures in the order in which they happened."""
    out = []
    for e in w.log:
        if e[0] == "fail":
            out.append(("call", e[1], e[2]))
        elif e[0].endswith("_fail"):
            out.append((e[0][:-5], e[1], e[2]))
    return out
