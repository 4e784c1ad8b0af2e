"""Bounded contract checks on the bundled stores (C11, C12). All effects stay in a scratch directory."""
import builtins
import datetime as dt
import io
import json
import math
import os
import pathlib
import pickle
import random
import shutil
import sys
import tempfile
import time

from . import sched
from .world import uberjob

from uberjob import stores as S


class Injector:
    """Counts file operations; at the armed one raises, or ends the process (in a forked child)."""

    def __init__(self):
        self.active = False
        self.root = None
        self.count = 0
        self.at = None
        self.mode = None
        self.fired = None

    def arm(self, root, at, mode, then=None):
        """then = (k, mode): a second fault, k operations after the first."""
        self.root, self.count, self.at, self.mode, self.fired, self.then = root, 0, at, mode, None, then
        self.active = True

    def disarm(self):
        self.active = False

    def hit(self, what, phase):
        """phase 'before' or 'after' an operation. Returns 'partial' if a partial write is wanted."""
        if not self.active:
            return None
        if phase == "before":
            self.count += 1
        if self.fired is not None or self.at is None or self.count != self.at:
            return None
        kind, when = self.mode
        if when == "partial":
            if phase == "before" and what == "write":
                return "partial"
            if phase == "before":
                self.fire(what, kind)
            return None
        if when == phase:
            self.fire(what, kind)
        return None

    def fire(self, what, kind):
        self.fired = what
        if kind == "kill":
            os._exit(77)
        self.active = kind != "error_once"
        if self.then is not None:
            self.at, self.mode, self.then, self.fired = self.count + self.then[0], self.then[1], None, None
        if kind == "kbd":
            raise KeyboardInterrupt()
        raise OSError(5, f"injected at {what}")


INJ = Injector()
_AUDIT = {"os.rename": "rename", "os.remove": "remove", "os.truncate": "truncate", "os.link": "link",
          "shutil.copyfile": "copyfile", "shutil.move": "move"}


def _inside(args):
    for a in args:
        try:
            if isinstance(a, (str, bytes, os.PathLike)) and os.fsdecode(a).startswith(INJ.root):
                return True
        except Exception:
            pass
    return False


def _audit(event, args):
    if INJ.active and event in _AUDIT and _inside(args):
        if event == "os.remove" and INJ.mode[0] != "kill":
            # a clean-up that itself fails leaves its file: not a fault to blame on the code
            return
        INJ.hit(_AUDIT[event], "before")


_installed = False
_real_open = builtins.open


class Proxy:
    def __init__(self, f):
        self.__dict__["_f"] = f

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)

    def write(self, data):
        r = INJ.hit("write", "before")
        if r == "partial":
            self._f.write(data[: len(data) // 2])
            self._f.flush()
            INJ.fire("write", INJ.mode[0])
        n = self._f.write(data)
        INJ.hit("write", "after")
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        INJ.hit("flush", "before")
        self._f.flush()

    def close(self):
        if self._f.closed:
            return
        try:
            INJ.hit("close", "before")
        except BaseException:
            self._f.close()
            raise
        self._f.close()
        INJ.hit("close", "after")

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()
        return None

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)


def _open(file, mode="r", *args, **kwargs):
    if INJ.active and isinstance(file, (str, bytes, os.PathLike)) and os.fsdecode(file).startswith(INJ.root):
        INJ.hit("open", "before")
        f = Proxy(_real_open(file, mode, *args, **kwargs))
        try:
            INJ.hit("open", "after")
        except BaseException:
            f._f.close()
            raise
        return f
    return _real_open(file, mode, *args, **kwargs)


def setup():
    global _installed
    if not _installed:
        _installed = True
        sys.addaudithook(_audit)
        builtins.open = _open
        io.open = _open


def restore_open():
    pass


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif-store-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class Unserialisable:
    def __reduce__(self):
        raise TypeError("cannot be pickled")


def top():
    pass


class Rec:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return type(o) is Rec and (o.a, o.b) == (self.a, self.b)


class Slots:
    """Can be pickled with protocol 2 and later only."""

    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return type(o) is Slots and (o.a, o.b) == (self.a, self.b)


class NewArgs(tuple):
    def __new__(cls, *, x):
        return super().__new__(cls, (x,))

    def __getnewargs_ex__(self):
        return (), {"x": self[0]}


STR = ["", "a", "\r", "\n", "\r\n", "a\r\nb\rc\n", "é", "\u2028", "\ufeff", "\x85", "\x00", "\x1a", "日本", "😀", "\x0b\x0c", "x" * 9000, "\n\r", "tab\t"]


def text(rng, enc):
    s = "".join(rng.choice(STR) for _ in range(rng.randrange(0, 5)))
    if enc is not None:
        s = s.encode(enc, "ignore").decode(enc, "ignore") if enc not in ("utf-16", "utf-8-sig", "utf-32") else s
    return s


def json_value(rng, d=0):
    r = rng.random()
    if d < 3 and r < 0.3:
        return [json_value(rng, d + 1) for _ in range(rng.randrange(0, 4))]
    if d < 3 and r < 0.55:
        return {text(rng, None): json_value(rng, d + 1) for _ in range(rng.randrange(0, 4))}
    return rng.choice((lambda: None, lambda: True, lambda: False, lambda: rng.randrange(-10**20, 10**20), lambda: 0,
                       lambda: rng.uniform(-1e300, 1e300), lambda: -0.0, lambda: 1e-320, lambda: 1.0, lambda: 0.1,
                       lambda: text(rng, None), lambda: "\ud800", lambda: math.inf))()


def pickle_value(rng, d=0):
    r = rng.random()
    if d < 3 and r < 0.08:
        x = pickle_value(rng, d + 1)
        again = [x]
        cyclic = [x]
        cyclic.append(rng.choice((lambda: cyclic, lambda: {"self": cyclic}, lambda: (cyclic, 1), lambda: Rec(cyclic, 1)))())
        return rng.choice(([again, again, x], cyclic, Rec(again, again)))
    if d < 3 and r < 0.5:
        items = [pickle_value(rng, d + 1) for _ in range(rng.randrange(0, 4))]
        k = rng.randrange(4)
        if k == 0:
            return items
        if k == 1:
            return tuple(items)
        if k == 2:
            return Rec(items, d)
        return {i: x for i, x in enumerate(items)}
    return rng.choice((lambda: None, lambda: {1, 2}, lambda: frozenset("ab"), lambda: b"\x80\r\n\x00", lambda: dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc),
                       lambda: top, lambda: text(rng, None), lambda: 3 + 4j, lambda: bytearray(b"x" * 9000), lambda: Rec, lambda: Slots(1, "x"), lambda: NewArgs(x=3), lambda: Slots([2], None), lambda: range(5), lambda: "\ud800"))()


def same(a, b, known=None):
    known = {} if known is None else known
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple, dict, Rec)):
        if (id(a), id(b)) in known:
            return True
        known[id(a), id(b)] = a, b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, known) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], known) for k in a)
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if type(a) is Rec:
        return same(a.a, b.a, known) and same(a.b, b.b, known)
    return a == b


class DictMounted(S.MountedStore):
    """A mounted store whose remote is a directory entry in the scratch directory."""

    def __init__(self, create, remote):
        super().__init__(create)
        self.remote = remote

    def copy_from_local(self, local_path):
        with _real_open(local_path, "rb") as f:
            self.data = f.read()
        self.time = dt.datetime.now()

    def copy_to_local(self, local_path):
        with _real_open(local_path, "wb") as f:
            f.write(self.data)

    data = None
    time = None

    def get_modified_time(self):
        return self.time


ENC = [None, "utf-8", "utf-16", "utf-8-sig", "utf-32", "latin-1", "ascii", "cp1252"]


def make(rng, path):
    kind = rng.choice(("json", "pickle", "text", "binary", "touch"))
    enc = rng.choice(ENC)
    if rng.random() < 0.5:
        path = pathlib.Path(path)
    if kind == "json":
        kw = {} if enc is None else {"encoding": enc}
        return kind, (lambda p=path: S.JsonFileStore(p, **kw)), (lambda: json_value(rng)), enc
    if kind == "text":
        kw = {} if enc is None else {"encoding": enc}
        return kind, (lambda p=path: S.TextFileStore(p, **kw)), (lambda: text(rng, enc)), enc
    if kind == "binary":
        return kind, (lambda p=path: S.BinaryFileStore(p)), (lambda: rng.choice((b"", b"\r\n", b"\x00\xff", bytes(range(256)) * 40, b"x"))), enc
    if kind == "pickle":
        return kind, (lambda p=path: S.PickleFileStore(p)), (lambda: pickle_value(rng)), enc
    return kind, (lambda p=path: S.TouchFileStore(p)), (lambda: None), enc


def bad_value(rng, kind):
    if kind == "json":
        return {"a": ["x" * rng.choice((1, 20000)), object()]}
    if kind == "pickle":
        return ["x" * rng.choice((1, 20000)), Unserialisable()]
    if kind == "text":
        return rng.choice(("ok" * rng.choice((1, 20000)) + "\ud800", 5))
    if kind == "binary":
        return rng.choice(("str", 5))
    return 5


class Nosy(DictMounted):
    """A mounted store during whose transfers another store is used, as by another thread."""

    meanwhile = None

    def copy_to_local(self, local_path):
        super().copy_to_local(local_path)
        if self.meanwhile:
            self.meanwhile()

    def copy_from_local(self, local_path):
        if self.meanwhile:
            self.meanwhile()
        super().copy_from_local(local_path)


def mounted_together(rng):
    """Two mounted stores that are used at the same time keep their own values."""
    bad = []
    with Scratch() as root:
        stores, values = [], []
        for _ in range(2):
            kind, create, value, enc = make(rng, root)
            stores.append(Nosy(create, None))
            values.append((kind, value))
        now = [None, None]

        def attempt(k, what):
            try:
                return what()
            except UnicodeEncodeError:
                return None
            except Exception as e:
                bad.append(f"mounted {values[k][0]} store, used while another one is: raised {e!r:.200}")
                return None

        def put(k):
            v = values[k][1]()
            try:
                stores[k].write(v)
            except UnicodeEncodeError:
                if stores[k].data is not None:
                    get(k)
                return
            now[k] = (v,)

        def get(k):
            if now[k] is None:
                return
            got = stores[k].read()
            if not same(got, now[k][0]):
                bad.append(f"mounted {values[k][0]} store, used while another one is: wrote {now[k][0]!r:.200}, read {got!r:.200}")

        for k in (0, 1):
            attempt(k, lambda: put(k))
        for _ in range(3):
            k = rng.randrange(2)
            inner = rng.choice((put, get))
            stores[k].meanwhile = lambda: attempt(1 - k, lambda: inner(1 - k))
            attempt(k, lambda: rng.choice((put, get))(k))
            stores[k].meanwhile = None
            for j in (0, 1):
                attempt(j, lambda: get(j))
    return bad[:3], {"roundtrips": 3}


def siblings(rng):
    """Files with similar names that are written at the same time: each holds what was written to it."""
    from uberjob.stores import staged_write, staged_write_path
    bad = []
    with Scratch() as root:
        for d in ("a", "b"):
            os.mkdir(os.path.join(root, d))
        names = rng.sample(["value", "value.json", "value.txt", "value.tar.gz", "value.tar", ".value", "value.json.bak", "VALUE", "value.1"], 2)
        paths = [os.path.join(root, "a", n) for n in names]
        if rng.random() < 0.3:
            paths[1] = os.path.join(root, "b", names[0])
        if rng.random() < 0.7:
            paths = [pathlib.Path(p) for p in paths]
        old = [b"old 0", b"old 1"]
        new = [b"new value of the first" * rng.choice((1, 1000)), b"new value of the second" * rng.choice((1, 1000))]
        for p, v in zip(paths, old):
            with staged_write(p, mode="wb") as f:
                f.write(v)
        style = rng.random() < 0.5
        fails = rng.choice(((), (0,), (1,)))

        def write(k, meanwhile=None):
            def body(f):
                f.write(new[k][:10])
                f.flush()
                if meanwhile:
                    meanwhile()
                f.write(new[k][10:])
                if k in fails:
                    raise ValueError("user error")
            try:
                if style:
                    with staged_write(paths[k], mode="wb") as f:
                        body(f)
                else:
                    with staged_write_path(paths[k]) as sp:
                        with open(sp, "wb") as f:
                            body(f)
            except ValueError:
                if k not in fails:
                    bad.append(f"writing {names[k]} while {names[1 - k]} is written raised the error of the other")
            except Exception as e:
                bad.append(f"writing {os.path.relpath(paths[k], root)} while {os.path.relpath(paths[1 - k], root)} is written raised {e!r:.200}")

        write(0, lambda: write(1))
        for k in (0, 1):
            with open(paths[k], "rb") as f:
                got = f.read()
            want = old[k] if k in fails else new[k]
            if got != want and not bad:
                bad.append(f"{os.path.relpath(paths[k], root)}, written while {os.path.relpath(paths[1 - k], root)} was: holds {got[:60]!r} instead of {want[:60]!r}")
        left = sorted(x for d in ("a", "b") for x in os.listdir(os.path.join(root, d)))
        if left != sorted(os.path.basename(p) for p in paths) and not bad:
            bad.append(f"after writing {names} the directories hold {left}")
    return bad[:3], {"writes": 2}


# ------------------------------------------------------------------ C11
def c11(seed, i):
    setup()
    rng = random.Random(seed)
    if rng.random() < 0.02:
        return siblings(rng)
    bad = []
    with Scratch() as root:
        os.mkdir(os.path.join(root, "d"))
        path = os.path.join(root, "d", "value")
        kind, create, value, enc = make(rng, path)
        direct = rng.random() < 0.15
        old_exists = rng.random() < 0.7
        fresh = lambda: create()
        old = new = None
        if direct:
            kind = "staged_write"
            from uberjob.stores import staged_write, staged_write_path
            as_path = rng.random() < 0.5
            tgt = pathlib.Path(path) if as_path else path
            parts = [bytes([rng.randrange(256)]) * rng.choice((1, 9000)) for _ in range(3)]
            blow = rng.random() < 0.3
            style = rng.random() < 0.5

            def write(v):
                if style:
                    with staged_write(tgt, mode="wb") as f:
                        for p_ in v:
                            f.write(p_)
                        if blow and v is parts:
                            raise ValueError("user error")
                else:
                    with staged_write_path(tgt) as sp:
                        with open(sp, "wb") as f:
                            for p_ in v:
                                f.write(p_)
                        if blow and v is parts:
                            raise ValueError("user error")

            old_parts = [b"old"]
            if old_exists:
                write(old_parts)
            new = parts
            do_write = lambda: write(new)
            read = lambda: _real_open(path, "rb").read()
            expect_old, expect_new = b"old", b"".join(parts)
            bad_input = False
            rewrite = lambda: write([b"again"])
            expect_again = b"again"
        else:
            store = create()
            old = value()
            if old_exists:
                store.write(old)
            bad_input = rng.random() < 0.25
            new = bad_value(rng, kind) if bad_input else value()
            do_write = lambda: create().write(new)
            read = lambda: create().read()
            expect_old, expect_new = old, new
            again = value()
            rewrite = lambda: create().write(again)
            expect_again = again
        if old_exists:
            os.utime(path, (1_000_000_000, 1_000_000_000))
        before = _real_open(path, "rb").read() if old_exists else None
        leftover = rng.random() < 0.25
        if leftover:
            with _real_open(path + ".STAGING", "wb") as f:
                f.write(b"garbage left by a killed process" * rng.choice((1, 1000)))
        # the complete bytes of the new value
        mode = rng.choice((("error", "before"), ("error", "before"), ("error", "partial"), ("error", "after"), ("kbd", "before"), ("kbd", "after"),
                           ("kill", "before"), ("kill", "after"), ("kill", "partial"), ("error_once", "before"),
                           ("error then kill", "before")))
        at = rng.randrange(1, 9) if not bad_input or rng.random() < 0.3 else None
        others = set(os.listdir(os.path.dirname(path)))
        if mode[0] in ("kill", "error then kill"):
            first, then = mode, None
            if mode[0] != "kill":
                first, then = ("error", "before"), (rng.randrange(1, 5), ("kill", rng.choice(("before", "after", "partial"))))
            pid = os.fork()
            if pid == 0:
                try:
                    INJ.arm(root, at, first, then)
                    do_write()
                except BaseException:
                    os._exit(3)
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(status)
            outcome = {77: "killed", 0: "ok", 3: "raise"}.get(code, f"exit {code}")
            fired = "?"
        else:
            INJ.arm(root, at, mode)
            try:
                do_write()
                outcome = "ok"
            except BaseException as e:
                outcome = "raise"
                exc = e
            finally:
                INJ.disarm()
            fired = INJ.fired
        where = f"{kind} store, {mode} at file operation {at} ({fired}), {'previous value present' if old_exists else 'no previous value'}, outcome {outcome}"
        exists = os.path.exists(path)
        # what does the target hold?
        state = None
        if exists:
            data = _real_open(path, "rb").read()
            if old_exists and data == before and os.stat(path).st_mtime == 1_000_000_000:
                state = "old"
            else:
                try:
                    got = read()
                    if not bad_input and same(got, expect_new):
                        state = "new"
                except Exception:
                    pass
                if state is None and old_exists and data == before:
                    bad.append(f"{where}: the modified time changed but the new value is not in place")
                    state = "old"
                if state is None:
                    bad.append(f"{where}: the target holds neither the complete previous nor the complete new value ({len(data)} bytes)")
        else:
            if old_exists:
                bad.append(f"{where}: the previous value is gone")
            state = "none"
        if outcome == "ok" and state != "new" and not bad:
            bad.append(f"{where}: write returned but the new value is not in place")
        if outcome == "ok" and bad_input and not bad:
            bad.append(f"{where}: a value that cannot be serialised was accepted")
        if outcome == "raise":
            extra = set(os.listdir(os.path.dirname(path))) - {"value"} - (others if False else set())
            if leftover and outcome == "raise":
                # a staging file left earlier may be reused or removed; new ones must be gone
                extra -= others
            if extra:
                bad.append(f"{where}: staging files {sorted(extra)} were left behind")
        if not bad:
            try:
                if exists:
                    got = read()
                    if state == "old" and not same(got, expect_old):
                        bad.append(f"{where}: a later read does not return the previous value")
                rewrite()
                if not same(read(), expect_again):
                    bad.append(f"{where}: a later write and read do not return the value")
            except BaseException as e:
                bad.append(f"{where}: a later read or write raised {e!r}")
        fired_any = int(outcome != "ok")
    return bad, {"writes": 1, "faults": fired_any}


# ------------------------------------------------------------------ C12
def c12(seed, i):
    rng = random.Random(seed)
    if rng.random() < 0.02:
        return mounted_together(rng)
    bad = []
    with Scratch() as root:
        path = os.path.join(root, "value")
        kind, create, value, enc = make(rng, path)
        mounted = rng.random() < 0.3
        if mounted:
            kind0, create0, value, enc = make(rng, path)
            kind = "mounted " + kind0
            store = DictMounted(create0, None)
            mk = lambda: store
        else:
            mk = create
        where = f"{kind} store, encoding {enc}"
        if mk().get_modified_time() is not None:
            bad.append(f"{where}: a modified time although nothing is stored")
        last = None
        tz = rng.choice((None, None, "America/New_York", "Australia/Lord_Howe"))
        oldtz = os.environ.get("TZ")
        try:
            if tz:
                os.environ["TZ"] = tz
                time.tzset()
            for k in range(rng.randrange(1, 4)):
                v = value()
                st = mk()
                if not mounted and rng.random() < 0.3:
                    # a process was killed while it wrote
                    with _real_open(path + ".STAGING", "wb") as f:
                        f.write(b"left over" * rng.choice((0, 1, 1000)))
                try:
                    st.write(v)
                except UnicodeEncodeError:
                    if "text" in kind:
                        continue  # not encodable: outside the store's domain
                    bad.append(f"{where}: writing {v!r:.200} raised UnicodeEncodeError")
                    break
                except Exception as e:
                    bad.append(f"{where}: writing {v!r:.200} raised {e!r:.200}")
                    break
                try:
                    got = (mk() if rng.random() < 0.7 else st).read()
                except Exception as e:
                    bad.append(f"{where}: wrote {v!r:.200}, reading raised {e!r:.200}")
                    break
                if not same(got, v):
                    bad.append(f"{where}: wrote {v!r:.200}, read {got!r:.200}")
                try:
                    t = mk().get_modified_time()
                except Exception as e:
                    bad.append(f"{where}: get_modified_time raised {e!r:.200} after a write")
                    break
                if t is None:
                    bad.append(f"{where}: no modified time after a write")
                    continue
                if not mounted and tz and not k:
                    base = rng.choice((1730611800, 1730613000, 1712415000))
                    os.utime(path, (base, base))
                    t = mk().get_modified_time()
                if not mounted:
                    st_ = os.stat(path).st_mtime
                    if abs(t.astimezone(dt.timezone.utc).timestamp() - st_) > 1e-3:
                        bad.append(f"{where}: modified time {t!r} is not the file's {st_}")
                if last is not None and t.astimezone(dt.timezone.utc) < last:
                    bad.append(f"{where}: the modified time decreased from {last} to {t}")
                last = t.astimezone(dt.timezone.utc)
            if not mounted and os.path.exists(path):
                os.remove(path)
                if mk().get_modified_time() is not None:
                    bad.append(f"{where}: a modified time although the file was removed")
        finally:
            if tz:
                if oldtz is None:
                    os.environ.pop("TZ", None)
                else:
                    os.environ["TZ"] = oldtz
                time.tzset()
    return bad, {"roundtrips": 1}
