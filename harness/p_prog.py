"""Bounded contract checks on the bundled progress displays (C20)."""
import html as html_module
import io
import os
import random
import re
import sys
import threading
import time

from . import sched
from .runs import controlled
from .world import uberjob

from uberjob.progress._console_progress_observer import ConsoleProgressObserver
from uberjob.progress._html_progress_observer import HtmlProgressObserver
from uberjob.progress._simple_progress_observer import SimpleProgressObserver

import importlib.util

if importlib.util.find_spec("ipywidgets"):
    import ipywidgets  # noqa: F401
    import IPython.display

    IPython.display.display = lambda *a, **k: None
    from uberjob.progress._ipython_progress_observer import IPythonProgressObserver
else:
    IPythonProgressObserver = None


class Plain:
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return f"Plain{self.x}"


class Raises:
    def __init__(self, x):
        self.x = x

    def __lt__(self, other):
        raise ValueError("not comparable")

    def __repr__(self):
        return f"Raises{self.x}"


class Unord:
    __hash__ = object.__hash__

    def __lt__(self, other):
        return NotImplemented

    def __str__(self):
        return "Unord"


class NoStr:
    def __str__(self):
        raise ValueError("no str")

    __repr__ = __str__


class Config:
    """Looking up a missing attribute raises KeyError, which the traceback module does when it formats a NameError."""

    def __getattr__(self, name):
        raise KeyError(name)

    def fail(self):
        return valeu  # noqa: F821


def scope_value(rng):
    return rng.choice((
        lambda: "s", lambda: "a.b.c", lambda: 1, lambda: 2.5, lambda: None, lambda: True, lambda: Plain(rng.randrange(3)),
        lambda: Raises(1), lambda: Unord(), lambda: (1, "x"), lambda: (None, 1), lambda: frozenset((1,)), lambda: 1j, lambda: "<b>&\"'",
        lambda: "\ud800", lambda: "日本", lambda: "line\nbreak", lambda: int, lambda: float("nan"), lambda: b"x", lambda: "{}{0}%s",
        lambda: (Plain(1),), lambda: object(), lambda: len, lambda: "", lambda: NoStr(), lambda: 10**5000,
    ))()


def make_exception(rng):
    r = rng.random()
    if r < 0.2:
        return ValueError("plain")
    if r < 0.3:
        return ValueError("surrogate \ud800 <x>")
    if r < 0.4:
        class BadStr(Exception):
            def __str__(self):
                raise RuntimeError("no str")
        return BadStr()
    if r < 0.5:
        try:
            Config().fail()
        except NameError as e:
            return e
    if r < 0.55:
        return SyntaxError("x", ("f", 1, "3", "text"))
    try:
        try:
            raise KeyError("inner")
        except KeyError as e:
            raise ValueError("outer {} %s") from e
    except ValueError as e:
        return e


class Clock:
    def __init__(self):
        self.t = 1_700_000_000.0

    def __call__(self):
        return self.t


class Steps:
    """A generated notification sequence, and the account it must lead to."""

    def __init__(self, rng, clock):
        self.rng, self.clock = rng, clock
        self.scopes = {}
        self.running = []
        self.counts = {}
        self.busy = 0.0

    def advance(self):
        d = self.rng.choice((0, 0.25, 1, 7.5, 100, 4000))
        if self.running:
            self.busy += d
        self.clock.t += d

    def play(self, observers, n, point=lambda: None):
        rng = self.rng
        sections = rng.choice((("stale", "run"), ("run",), ("stale",)))
        keys = []
        for section in sections:
            for _ in range(rng.randrange(1, 4)):
                scope = tuple(scope_value(rng) for _ in range(rng.randrange(0, 3)))
                amount = rng.randrange(1, 4)
                if (section, scope) in self.counts:
                    continue
                self.counts[section, scope] = [0, 0, 0, amount]
                keys.append((section, scope))
                for o in observers:
                    o.increment_total(section=section, scope=scope, amount=amount)
                point()
        for _ in range(n):
            self.advance()
            point()
            startable = [k for k in keys if sum(self.counts[k][:3]) < self.counts[k][3]]
            r = rng.random()
            if startable and (r < 0.5 or not self.running):
                k = rng.choice(startable)
                self.counts[k][0] += 1
                self.running.append(k)
                for o in observers:
                    o.increment_running(section=k[0], scope=k[1])
            elif self.running:
                k = self.running.pop(rng.randrange(len(self.running)))
                self.counts[k][0] -= 1
                if r < 0.75:
                    self.counts[k][1] += 1
                    for o in observers:
                        o.increment_completed(section=k[0], scope=k[1])
                else:
                    self.counts[k][2] += 1
                    e = make_exception(rng)
                    for o in observers:
                        o.increment_failed(section=k[0], scope=k[1], exception=e)
            point()

    def drain(self, observers, point=lambda: None):
        while self.running:
            self.advance()
            k = self.running.pop()
            self.counts[k][0] -= 1
            self.counts[k][1] += 1
            for o in observers:
                o.increment_completed(section=k[0], scope=k[1])
            point()


class Capture(SimpleProgressObserver):
    last = None

    def _render(self, state, *rest):
        self.last = state
        self.last_sum = sum(s.weighted_elapsed for m in state.values() for s in m.values())
        self.max_neg = min([0] + [s.weighted_elapsed for m in state.values() for s in m.values()])
        return "x"

    def _output(self, value):
        pass


DELAYS = dict(initial_update_delay=1, min_update_interval=1, max_update_interval=5)
PROGRESS = re.compile(r"\(?(\d+)(?: \+ (\d+)\))? / (\d+)")


class FakeTime:
    def __enter__(self):
        self.saved = time.time, time.monotonic, time.perf_counter
        self.clock = Clock()
        time.time = time.monotonic = time.perf_counter = self.clock
        return self.clock

    def __exit__(self, *a):
        time.time, time.monotonic, time.perf_counter = self.saved


def stdout_for(rng):
    raw = io.BytesIO()
    enc = rng.choice(("utf-8", "ascii", "latin-1", "utf-16"))
    return raw, io.TextIOWrapper(raw, encoding=enc, newline="\n", write_through=True), enc


def pad(counts):
    c = counts
    return {"running": c[0], "completed": c[1], "failed": c[2], "total": c[3]}


def c20(seed, i):
    rng = random.Random(seed)
    kind = rng.choice(("console", "html", "ipython", "capture"))
    if kind == "ipython" and IPythonProgressObserver is None:
        kind = "console"
    mode = "direct" if rng.random() < 0.35 else "threaded"
    bad, died = [], []
    outputs = []
    raw, out, enc = stdout_for(rng)
    saved_out = sys.stdout
    n = rng.randrange(0, 25)
    drain = rng.random() < 0.75

    def create():
        if kind == "console":
            return ConsoleProgressObserver(**DELAYS)
        if kind == "html":
            return HtmlProgressObserver(outputs.append, **DELAYS)
        if kind == "ipython":
            return IPythonProgressObserver(**DELAYS)
        return Capture(**DELAYS)

    with FakeTime() as clock:
        steps = Steps(rng, clock)
        try:
            if mode == "direct":
                o = create()
                def point():
                    if rng.random() < 0.3:
                        v = o._do_render()
                        if v is not None:
                            sys.stdout = out
                            try:
                                o._output(v)
                            finally:
                                sys.stdout = saved_out
                try:
                    steps.play([o], n, point)
                    if drain:
                        steps.drain([o], point)
                    o._stale = True
                    v = o._do_render()
                    if v is not None:
                        sys.stdout = out
                        o._output(v)
                except AttributeError as e:
                    if "_do_render" in str(e):
                        return [], {}
                    bad.append(f"{kind}: {e!r}")
                except Exception as e:
                    bad.append(f"{kind}: rendering raised {type(e).__name__}: {str(e)[:200]!r}")
                finally:
                    sys.stdout = saved_out
            else:
                holder = []

                def body():
                    o = create()
                    holder.append(o)
                    with o:
                        steps.play([o], n, sched.yield_point)
                        if drain:
                            steps.drain([o], sched.yield_point)
                        if rng.random() < 0.3:
                            clock.t += 1000 if not steps.running else 0

                s = sched.Scheduler(rng.randrange(1 << 30), trace=rng.random() < 0.3)
                s.timeout_rate = rng.choice((0, 0.05, 0.3))
                sys.stdout = out
                try:
                    outcome, value = s.run(body)
                finally:
                    sys.stdout = saved_out
                if s.deadlock or s.livelock:
                    bad.append(f"{kind}: the observer does not exit")
                elif outcome == "raise":
                    bad.append(f"{kind}: {value!r}")
                for t in s.tcbs[1:]:
                    if t.exc is not None:
                        bad.append(f"{kind} (stdout {enc}): the update thread died of {type(t.exc).__name__}: {str(t.exc)[:200]!r}")
                o = holder[0]
        finally:
            sys.stdout = saved_out
        if bad:
            return bad, {"sequences": 1}
        counts = steps.counts
        if kind == "capture":
            try:
                st = o.last
                got = {(s_, sc): (x.running, x.completed, x.failed, x.total) for s_, m in st.items() for sc, x in m.items()}
            except AttributeError:
                return [], {}
            want = {k: tuple(v) for k, v in counts.items()}
            if len(got) != len(want) or any(got.get(k) != v for k, v in want.items()):
                bad.append(f"the state rendered last is {list(got.values())}, the notifications amount to {list(want.values())}")
            total = sum(x.weighted_elapsed for m in st.values() for x in m.values())
            if abs(total - steps.busy) > 1e-3 * max(1, steps.busy) and not steps.running:
                bad.append(f"scopes were attributed {total} s; calls were running for {steps.busy} s")
        elif kind == "html":
            text = outputs[-1].decode() if outputs else ""
            rows = sum(1 for _ in counts)
            got = []
            for cell in re.findall(r'<tr class=""(.*?)</tr>', text, re.S):
                m = PROGRESS.search(cell.split("text-end", 1)[-1])
                f = re.search(r">(\d+) failed", cell)
                if m:
                    got.append((int(m[2] or 0), int(m[1]), int(f[1]) if f else 0, int(m[3])))
            want = [tuple(v) for v in counts.values()]
            if sorted(got) != sorted(want):
                bad.append(f"html: last rendering shows {sorted(got)}, final counts are {sorted(want)}")
        elif kind == "console" and mode == "threaded":
            text = raw.getvalue().decode(enc, "replace")
            shown = last_sections(text)
            for section in ("stale", "run"):
                want = sorted(tuple(v) for (s_, _), v in counts.items() if s_ == section)
                if want and shown.get(section) != want:
                    bad.append(f"console: the last rendering of {section!r} shows {shown.get(section)}, final counts are {want}")
        elif kind == "ipython":
            try:
                cache = o._widget_cache
            except AttributeError:
                return [], {}
            got = []
            for key, wd in (cache or {}).items():
                if key and key[-1] == "label":
                    m = PROGRESS.search(wd.value)
                    f = re.search(r"(\d+) failed", wd.value.split(";")[0])
                    if m:
                        got.append((int(m[2] or 0), int(m[1]), int(f[1]) if f else 0, int(m[3])))
            want = [tuple(v) for v in counts.values()]
            if cache is not None and sorted(got) != sorted(want):
                bad.append(f"ipython: the widgets show {sorted(got)}, final counts are {sorted(want)}")
            if cache is None and want:
                bad.append("ipython: nothing was rendered")
    return bad, {"sequences": 1, kind: 1}


def last_sections(text):
    out, cur = {}, None
    for line in text.split("\n"):
        if line in ("stale:", "run:"):
            cur = line[:-1]
            out[cur] = []
            continue
        m = re.match(r"  +(.*?) +\| ", line)
        if cur and m:
            p = PROGRESS.search(line.split("|")[0])
            f = re.search(r"(\d+) failed", line.split("|")[0])
            if p:
                out[cur].append((int(p[2] or 0), int(p[1]), int(f[1]) if f else 0, int(p[3])))
        elif line.startswith("uberjob, elapsed") or line.startswith("new exceptions"):
            cur = None
    return {k: sorted(v) for k, v in out.items()}


def c20_run(seed, i):
    """Observers on real runs: update threads survive, and the observed totals are final."""
    from .p_exec import add_call_faults, run_kwargs
    from .world import World

    rng = random.Random(seed)
    w = World(rng.randrange(1 << 30), n=rng.randrange(2, 8), registry=rng.random() < 0.4, scopes=True)
    w.body_points = 1
    if rng.random() < 0.4:
        add_call_faults(w, rng, base=0)
    out, expr = w.random_output()
    outputs, obs = [], []
    raw, sink, enc = stdout_for(rng)

    def make(cls, *a):
        def f():
            o = cls(*a, **DELAYS)
            obs.append(o)
            return o
        return uberjob.progress.Progress(f)

    progress = [make(ConsoleProgressObserver), make(HtmlProgressObserver, outputs.append), make(Capture)]
    if rng.random() < 0.3 and IPythonProgressObserver is not None:
        progress.append(make(IPythonProgressObserver))
    saved = sys.stdout
    s = sched.Scheduler(rng.randrange(1 << 30), trace=False)
    s.timeout_rate = rng.choice((0, 0.1))
    sys.stdout = sink
    try:
        outcome, value = s.run(lambda: uberjob.run(w.plan, output=out, registry=w.registry, progress=progress, **run_kwargs(rng)))
    finally:
        sys.stdout = saved
    bad = []
    for t in s.tcbs[1:]:
        if t.exc is not None:
            bad.append(f"an update thread died of {t.exc!r}")
    return bad, {"runs": 1}
