"""Bounded contract checks on failure attribution (C19)."""
import copy
import random
import re
import sys

from . import sched
from .world import uberjob

CallError = uberjob.CallError
_tb = sys.modules.get("uberjob._util.traceback")
LIMIT = getattr(_tb, "MAX_TRACEBACK_DEPTH", 3) + 1
counter = [0]


class XStore(uberjob.ValueStore):
    def __init__(self, fail=None, mtime=None):
        self.fail, self.mtime, self.value = fail, mtime, None

    def read(self):
        if self.fail == "read":
            raise ValueError("read")
        return self.value

    def write(self, value):
        if self.fail == "write":
            raise ValueError("write")
        self.value = value

    def get_modified_time(self):
        if self.fail == "mtime":
            raise ValueError("mtime")
        return self.mtime


def boom(*a, **k):
    raise ValueError("call")


def unhashable():
    return []


def three():
    return [1, 2, 3]


def one():
    return 1


def deep_expr(rng, inner, depth):
    return inner


KINDS = {
    # name: (setup lines, creating expression, finishing lines)
    "call": ([], "plan.call(boom)", "output=n"),
    "call_args": (["a = plan.call(one)"], "plan.call(boom, a, [a, {'k': a}], z=a)", "output=n"),
    "gather": (["a = plan.call(unhashable)"], "plan.gather({a, 1})", "output=n"),
    "gather_nested": (["a = plan.call(unhashable)"], "plan.gather([1, {'k': {a}}])", "output=n"),
    "gather_implicit": (["a = plan.call(unhashable)"], "plan.call(one_of, {a, 2})", "output=n"),
    "unpack": (["a = plan.call(three)"], "plan.unpack(a, 2)", "output=n[0]"),
    "unpack_implicit": (["a = plan.call(unhashable)"], "plan.unpack([{a}], 1)", "output=n[0]"),
    "write": (["a = plan.call(one)"], "registry.add(a, XStore('write'))", "registry=registry"),
    "readback": (["a = plan.call(one)"], "registry.add(a, XStore('read'))", "registry=registry, output=a"),
    "read_fresh": (["a = plan.call(one)"], "registry.add(a, XStore('read', OLD))", "registry=registry, output=a"),
    "read_lit": (["a = plan.lit(5)"], "registry.add(a, XStore('read'))", "registry=registry, output=a"),
    "write_lit": (["a = plan.lit(5)"], "registry.add(a, XStore('write'))", "registry=registry, output=a"),
    "source": ([], "registry.source(plan, XStore('read', OLD))", "registry=registry, output=n"),
    "source_missing": ([], "registry.source(plan, XStore('read'))", "registry=registry, output=n"),
    "source_unregistered": ([], "uberjob.Registry().source(plan, XStore('read', OLD))", "output=n"),
    "mtime_source": ([], "registry.source(plan, XStore('mtime'))", "registry=registry, output=n"),
    "mtime_call": ([], "plan.call(one)", "REG"),
    "mtime_gather": (["a = plan.call(one)"], "plan.gather([a])", "REG"),
    "mtime_unpack": (["a = plan.call(three)"], "plan.unpack(a, 3)", "REG0"),
    "mtime_lit": ([], "plan.lit(7)", "REG"),
}


def c19(seed, i):
    rng = random.Random(seed)
    kind = rng.choice(sorted(KINDS) + ["run_gather"])
    depth = rng.randrange(0, 7)
    counter[0] += 1
    filename = rng.choice(("/home/user/project/plan_%d.py", "C:\\\\x y\\\\m%d.py", "<ipython-input-%d>")) % counter[0]
    names = [rng.choice(("build", "make", "<lambda>x", "inner", "helper")).replace("<lambda>x", "lam") + str(k) for k in range(depth + 1)]
    lines = []
    lines += [""] * rng.randrange(0, 5)
    record = []

    def rec(frame):
        chain = []
        while frame is not None:
            chain.append((frame.f_code.co_name, frame.f_code.co_filename, frame.f_lineno))
            frame = frame.f_back
        record.append(chain)

    import datetime as dt

    plan, registry = uberjob.Plan(), uberjob.Registry()
    env = dict(plan=plan, registry=registry, boom=boom, one=one, three=three, unhashable=unhashable, XStore=XStore,
               rec=rec, sys=sys, uberjob=uberjob, one_of=lambda x: x, OLD=dt.datetime(2020, 1, 1))
    if kind == "run_gather":
        setup, create, final = ["a = plan.call(unhashable)"], "uberjob.run(plan, output=[{a}], progress=None, max_workers=1)", None
    else:
        setup, create, final = KINDS[kind]
    # innermost function
    lines.append(f"def {names[0]}():")
    for s in setup:
        lines.append("    " + s)
    lines += ["    pass"] * rng.randrange(0, 3)
    style = rng.random()
    if style < 0.3:
        lines.append("    with plan.scope('s', 1):")
        lines.append(f"        n = (rec(sys._getframe()), {create})[1]")
    elif style < 0.5:
        lines.append(f"    for _ in range(1): n = (rec(sys._getframe()), {create})[1]")
    else:
        lines.append(f"    n = (rec(sys._getframe()), {create})[1]")
    lines.append("    return n, locals().get('a')")
    for k in range(1, depth + 1):
        lines += [""] * rng.randrange(0, 3)
        again = rng.choice((0, 0, 0, 1, 2, 4))
        lines.append(f"def {names[k]}(n={again}):")
        lines += ["    x = 1"] * rng.randrange(0, 2)
        lines.append(f"    return {names[k]}(n - 1) if n else {names[k-1]}()")
    src = "\n".join(lines) + "\n"
    exec(compile(src, filename, "exec"), env)
    bad = []
    err = None
    where = f"{kind} at depth {depth}"
    decoys = []
    try:
        n, a = env[names[depth]]()
        if rng.random() < 0.3:
            plan = env["plan"] = rng.choice((plan.copy, lambda: copy.copy(plan)))()
        if rng.random() < 0.3:
            registry = env["registry"] = rng.choice((registry.copy, lambda: copy.copy(registry)))()
        if final == "REG":
            registry.add(n, XStore("mtime"))
            uberjob.run(plan, registry=registry, progress=None, max_workers=rng.choice((1, 2)))
        elif final == "REG0":
            registry.add(n[1], XStore("mtime"))
            uberjob.run(plan, registry=registry, progress=None, max_workers=1)
        else:
            kw = eval(f"dict({final})", dict(env, n=n, a=a))
            uberjob.run(plan, progress=None, max_workers=rng.choice((1, 2)), **kw)
    except CallError as e:
        err = e
    except Exception as e:
        return [f"{where}: run raised {type(e).__name__}: {e} instead of CallError"], {}
    if err is None:
        return [f"{where}: run did not fail"], {}
    chain = record[0]
    got, truncated = frames_of(err.call.stack_frame)
    want = chain[:LIMIT]
    if got != want:
        bad.append(f"{where}: the symbolic traceback is {got[:5]}, created at {want[:5]}")
    if truncated != (len(chain) > LIMIT):
        bad.append(f"{where}: {len(chain)} enclosing frames, limit {LIMIT}, truncated={truncated}")
    text = str(err)
    shown = re.findall(r'File "(.*)", line (\d+), in (.*)', text)
    exp = [(p, str(l), nm) for nm, p, l in reversed(want)]
    if shown != exp:
        bad.append(f"{where}: rendered frames {shown}, expected outermost first {exp}")
    if ("truncated" in text.split("\n", 2)[-1].split("File", 1)[0]) != truncated and truncated:
        bad.append(f"{where}: the rendered message does not mark truncation before the frames: {text!r}")
    return bad, {"failures": 1}


def frames_of(sf):
    out = []
    while sf is not None:
        if not hasattr(sf, "line"):
            return out, True
        out.append((sf.name, sf.path, sf.line))
        sf = sf.outer
        if len(out) > 50:
            break
    return out, False
