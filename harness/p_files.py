"""Bounded contract checks on histories of runs with the bundled file stores (C03, C05, C08, C18). All effects stay in a scratch directory."""
import datetime as dt
import os
import random
import time

from .p_store import Scratch
from .world import uberjob

from uberjob import stores as S

ZONES = (None, None, "UTC", "America/New_York", "Australia/Lord_Howe", "Asia/Kolkata")
# around changes of daylight saving time in New York and on Lord Howe Island, and an ordinary day
BASES = (1730611800, 1712415000, 1710053000, 1000000000)
STEPS = (0.0005, 0.25, 0.4, 1.0, 61.5, 1800.0)
KINDS = ("text", "json", "pickle", "binary")


class Cut(Exception):
    pass


def store_of(kind, path):
    return {"text": S.TextFileStore, "json": S.JsonFileStore, "pickle": S.PickleFileStore, "binary": S.BinaryFileStore}[kind](path)


def encode(kind, text):
    return text.encode() if kind == "binary" else [text] if kind == "json" else text


def decode(kind, value):
    return value.decode() if kind == "binary" else value[0] if kind == "json" else value


class History:
    def __init__(self, rng, root):
        self.rng, self.root = rng, root
        self.plan, self.registry = uberjob.Plan(), uberjob.Registry()
        self.nodes, self.kind, self.path, self.deps, self.is_source, self.ran = [], [], [], [], [], []
        self.value = {}
        self.fail = None
        self.clock = rng.choice(BASES)
        self.step = rng.choice(STEPS)
        for i in range(rng.randrange(2, 7)):
            self.add(i)

    def add(self, i):
        rng = self.rng
        source = i == 0 or rng.random() < 0.25
        kind = rng.choice(KINDS)
        path = os.path.join(self.root, f"v{i}") if source or rng.random() < 0.7 else None
        deps = [] if source else rng.sample(range(i), rng.randrange(1, min(i, 3) + 1))
        self.kind.append(kind)
        self.path.append(path)
        self.deps.append(deps)
        self.is_source.append(source)
        if source:
            self.nodes.append(self.registry.source(self.plan, store_of(kind, path)))
            self.update(i)
            return
        kinds = [self.kind[d] for d in deps]

        def fn(*args):
            self.ran.append(i)
            if self.fail == i:
                raise Cut()
            return encode(kind, f"{i}({','.join(decode(k, a) for k, a in zip(kinds, args))})")

        node = self.plan.call(fn, *[self.nodes[d] for d in deps])
        if path is not None:
            self.registry.add(node, store_of(kind, path))
        self.nodes.append(node)

    # ------------------------------------------------ the world between runs
    def tick(self):
        self.clock += self.step
        return self.clock

    def stamp(self, path):
        t = self.tick()
        os.utime(path, ns=(round(t * 10**6) * 1000,) * 2)

    def update(self, i):
        self.value[i] = f"s{i}.{self.rng.randrange(10**6)}"
        store_of(self.kind[i], self.path[i]).write(encode(self.kind[i], self.value[i]))
        self.stamp(self.path[i])

    def settle(self):
        """The files written since the last time get times on the clock of the history, in the order of their times."""
        new = [p for p in self.path if p is not None and os.path.exists(p) and os.stat(p).st_mtime > self.clock + 10**6]
        groups = {}
        for p in new:
            groups.setdefault(os.stat(p).st_mtime_ns, []).append(p)
        for t in sorted(groups):
            c = self.tick()
            for p in groups[t]:
                os.utime(p, ns=(round(c * 10**6) * 1000,) * 2)

    # ------------------------------------------------ the definition
    def reference(self, i):
        if self.is_source[i]:
            return self.value[i]
        return f"{i}({','.join(self.reference(d) for d in self.deps[i])})"

    def upstream(self, i):
        out, todo = set(), list(self.deps[i])
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo.extend(self.deps[x])
        return out

    def stale(self, fresh):
        times = {i: os.stat(p).st_mtime_ns if os.path.exists(p) else None for i, p in enumerate(self.path) if p is not None}
        out = set()
        for i in range(len(self.nodes)):
            if self.path[i] is None or self.is_source[i]:
                continue
            up = [u for u in self.upstream(i) if self.path[u] is not None]
            t = times[i]
            if t is None or any(u in out for u in up) or any(times[u] > t for u in up) or (fresh is not None and t < fresh * 1000):
                out.add(i)
        return out

    def needed(self, stale, output):
        """Calls that rebuild stale values or produce the output from stored values."""
        run, todo, seen = set(), list(stale) + ([output] if output is not None else []), set()
        while todo:
            x = todo.pop()
            if x in seen or self.is_source[x]:
                continue
            seen.add(x)
            if self.path[x] is None or x in stale:
                run.add(x)
                todo.extend(self.deps[x])
        return run

    def files(self):
        return {i: (os.stat(p).st_ino, os.stat(p).st_mtime_ns) if os.path.exists(p) else None for i, p in enumerate(self.path) if p is not None}


def files(seed, i):
    rng = random.Random(seed)
    bad = []
    tz = rng.choice(ZONES)
    old = os.environ.get("TZ")
    stats = {"runs": 0}
    try:
        if tz:
            os.environ["TZ"] = tz
            time.tzset()
        with Scratch() as root:
            h = History(rng, root)
            for step in range(rng.randrange(2, 6)):
                for _ in range(rng.randrange(0, 3)):
                    k = rng.randrange(len(h.nodes))
                    if h.is_source[k]:
                        h.update(k)
                    elif h.path[k] is not None and rng.random() < 0.5 and os.path.exists(h.path[k]):
                        if rng.random() < 0.3:
                            os.chmod(h.path[k], 0o600)
                        else:
                            os.remove(h.path[k])
                fresh = fresh_us = None
                if rng.random() < 0.3:
                    fresh_us = round((h.clock - h.step * rng.choice((0.5, 1.5, 2.5, 3.5))) * 10**6)
                    at = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(microseconds=fresh_us)
                    fresh = at if rng.random() < 0.5 else at.astimezone().replace(tzinfo=None)
                    if fresh.tzinfo is None and fresh.astimezone() != at:
                        fresh = at
                if rng.random() < 0.3:
                    # a process was killed while it wrote
                    p = rng.choice([p for p in h.path if p is not None])
                    with open(p + ".STAGING", "wb") as f:
                        f.write(b"left over" * rng.choice((0, 1, 1000)))
                output = rng.choice((None, rng.randrange(len(h.nodes))))
                stale = h.stale(fresh_us)
                needed = h.needed(stale, output)
                before = h.files()
                h.ran.clear()
                h.fail = rng.choice(sorted(needed)) if needed and rng.random() < 0.25 else None
                stats["runs"] += 1
                where = f"run {step} with fresh_time {fresh!r}, TZ={tz}, out of date {sorted(stale)}, output {output}"
                try:
                    r = uberjob.run(h.plan, output=None if output is None else h.nodes[output], registry=h.registry, fresh_time=fresh,
                                    progress=None, max_workers=rng.choice((1, 2, 4)), scheduler=rng.choice((None, "random")))
                except uberjob.CallError:
                    if h.fail is None:
                        bad.append(f"{where}: raised although no call fails")
                        break
                    h.settle()
                    continue
                if h.fail is not None:
                    bad.append(f"{where}: returned although call {h.fail} fails")
                    break
                if sorted(h.ran) != sorted(needed):
                    bad.append(f"{where}: executed {sorted(h.ran)}, needed are {sorted(needed)}")
                if output is not None and decode(h.kind[output], r) != h.reference(output):
                    bad.append(f"{where}: returned {r!r} instead of {h.reference(output)!r}")
                after = h.files()
                for k in after:
                    if not h.is_source[k] and after[k] is None:
                        bad.append(f"{where}: value {k} is missing afterwards")
                    elif decode(h.kind[k], store_of(h.kind[k], h.path[k]).read()) != h.reference(k):
                        bad.append(f"{where}: value {k} differs from its from-scratch value")
                    if (after[k] != before[k]) != (k in stale):
                        bad.append(f"{where}: value {k} was {'' if k not in stale else 'not '}rewritten")
                if not bad:
                    h.ran.clear()
                    before = h.files()
                    uberjob.run(h.plan, registry=h.registry, fresh_time=fresh, progress=None)
                    if h.ran or h.files() != before:
                        bad.append(f"{where}: the same run again executes {sorted(h.ran)} and changes {[k for k in before if before[k] != h.files()[k]]}")
                h.settle()
                if bad:
                    break
    finally:
        if tz:
            if old is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = old
            time.tzset()
    return bad, stats
