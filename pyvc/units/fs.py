"""A ghost file system: the assumed contracts of open, os.replace, os.remove, os.path.getmtime and the codecs, with a fault at every operation."""
import pathlib

import z3

from ..core import B, I, Obj, Opaque, PathEnd, PyRaise, R, SV, Unsupported, Value
from ..interp import strlen, truthy
from ..models import STR, pure, Extern
from ..values import BuiltinCls, ExtCls, Inst, Model, ModuleV, Schema

strof = z3.Function("strof", Obj, Obj)
mkpath = z3.Function("mkpath", Obj, Obj)
instant = z3.Function("instant", Obj, R)


class PathSchema(Schema):
    name = "path"

    def isinstance(self, it, sv, cls):
        return isinstance(cls, BuiltinCls) and isinstance(cls.cls, type) and issubclass(pathlib.PosixPath, cls.cls) or (
            isinstance(cls, BuiltinCls) and cls.cls is pathlib.Path)

    def type_is(self, it, sv, cls):
        return isinstance(cls, BuiltinCls) and cls.cls in (pathlib.PosixPath,)

    def truth(self, it, sv):
        return True

    def str(self, it, sv):
        return SV(strof(sv.t), "obj", STR)

    def getattr(self, it, sv, name):
        fs = it.ctx.extra["fs"]
        if name in ("rename", "replace"):
            return Model(name, lambda it, a, k: fs.replace(it, [sv] + a, k))
        if name == "unlink":
            def unlink(it, a, k):
                try:
                    return fs.remove(it, [sv], {})
                except PyRaise as e:
                    if it.truth(k.get("missing_ok", a[0] if a else False)) and it.exc_matches(e.exc, BuiltinCls(FileNotFoundError)):
                        return None
                    raise
            return Model(name, unlink)
        if name == "exists":
            return Model(name, lambda it, a, k: fs.exists(it, [sv], k))
        if name == "open":
            return Model(name, lambda it, a, k: fs.open(it, [sv] + a, k))
        raise Unsupported(f"path.{name}")


PATH = PathSchema()


class BytesSchema(Schema):
    name = "bytes"

    def isinstance(self, it, sv, cls):
        return isinstance(cls, BuiltinCls) and cls.cls in (bytes, object)

    def type_is(self, it, sv, cls):
        return isinstance(cls, BuiltinCls) and cls.cls is bytes

    def truth(self, it, sv):
        return truthy(sv.t)


BYTES = BytesSchema()


class AnySchema(Schema):
    """A value about which nothing is known."""

    name = "value"
    user = True

    def truth(self, it, sv):
        return truthy(sv.t)


ANY = AnySchema()


class KeySchema(AnySchema):
    """A hashable value, up to equality: what scopes are made of."""

    name = "hashable"
    user = False


HASHABLE = KeySchema()


class Node:
    def __init__(self, label, chunks, open_=False):
        self.label, self.chunks, self.mtime = label, chunks, 0
        self.partial = open_


class FileObj:
    """The ext of an Inst: an open file."""

    def __init__(self, fs, node, mode, encoding, newline, errors):
        self.fs, self.node, self.mode, self.encoding, self.newline, self.errors = fs, node, mode, encoding, newline, errors
        self.closed = False
        self.pending = []
        self.broken = False

    def truth(self, it, inst):
        return True

    def setattr(self, it, inst, name, value):
        raise Unsupported("attribute of a file")

    def getattr(self, it, inst, name):
        fs = self.fs
        if name == "write":
            return Model("file.write", lambda it, a, k: fs.write(it, self, a[0]))
        if name == "read":
            return Model("file.read", lambda it, a, k: fs.read(it, self, a[0] if a else None))
        if name == "close":
            return Model("file.close", lambda it, a, k: fs.close(it, self))
        if name == "flush":
            return Model("file.flush", lambda it, a, k: fs.flush(it, self))
        if name == "fileno":
            return Model("file.fileno", lambda it, a, k: inst)
        if name == "__enter__":
            return Model("file.__enter__", lambda it, a, k: inst)
        if name == "__exit__":
            return Model("file.__exit__", lambda it, a, k: fs.close(it, self) and None)
        if name == "closed":
            return self.closed
        if name == "name":
            raise Unsupported("file.name")
        raise Unsupported(f"file.{name}")


FILE = ExtCls("io.File", lambda it, c, a, k: None)


class FS:
    def __init__(self, it, faults, safe):
        self.it, self.ctx, self.faults, self.safe = it, it.ctx, faults, safe
        self.files = []  # [term, Node or None]
        self.clock = 0
        self.remove_failed = False
        self.log = []
        it.ctx.extra["fs"] = self
        x = it.externs
        M = Model
        x["builtins.open"] = x["io.open"] = M("open", lambda it, a, k: self.open(it, a, k))
        x["os.replace"] = x["os.rename"] = M("os.replace", lambda it, a, k: self.replace(it, a, k))
        x["os.remove"] = x["os.unlink"] = M("os.remove", lambda it, a, k: self.remove(it, a, k))
        x["os.path.getmtime"] = M("os.path.getmtime", lambda it, a, k: self.getmtime(it, a, k))
        x["os.path.exists"] = x["os.path.isfile"] = x["os.path.lexists"] = M("os.path.exists", lambda it, a, k: self.exists(it, a, k))
        x["shutil.copyfile"] = M("shutil.copyfile", lambda it, a, k: self.copyfile(it, a, k))
        x["shutil.copy"] = M("shutil.copy", lambda it, a, k: self.copyfile(it, a, k))
        x["shutil.copy2"] = M("shutil.copy2", lambda it, a, k: self.copyfile(it, a, k, True))
        x["shutil.copystat"] = M("shutil.copystat", lambda it, a, k: self.copystat(it, a, k))
        x["shutil.copymode"] = M("shutil.copymode", lambda it, a, k: self.meta(it, a[:2]))
        x["shutil.move"] = M("shutil.move", lambda it, a, k: self.replace(it, a, k))
        x["os.utime"] = M("os.utime", lambda it, a, k: self.utime(it, a, k))
        x["os.fsync"] = M("os.fsync", lambda it, a, k: self.fsync(it, a[0]))
        x["os.fspath"] = M("os.fspath", lambda it, a, k: SV(self.key(a[0]), "obj", STR))
        x["os.path.join"] = M("os.path.join", lambda it, a, k: self.join(it, a))
        x["construct.Path"] = x["construct.PosixPath"] = M("Path", lambda it, a, k: self.mkpath(a))
        x["json.dump"] = M("json.dump", lambda it, a, k: self.json_dump(it, a, k))
        x["json.dumps"] = M("json.dumps", lambda it, a, k: self.json_dumps(it, a, k))
        x["json.load"] = M("json.load", lambda it, a, k: self.json_loads(it, self.read(it, a[0].ext, None)))
        x["json.loads"] = M("json.loads", lambda it, a, k: self.json_loads(it, a[0]))
        x["pickle.dump"] = M("pickle.dump", lambda it, a, k: self.pickle_dump(it, a, k))
        x["pickle.dumps"] = M("pickle.dumps", lambda it, a, k: self.pickle_dumps(it, a, k))
        x["pickle.load"] = M("pickle.load", lambda it, a, k: self.pickle_loads(it, self.read(it, a[0].ext, None)))
        x["pickle.loads"] = M("pickle.loads", lambda it, a, k: self.pickle_loads(it, a[0]))
        x["datetime.datetime.fromtimestamp"] = M("fromtimestamp", lambda it, a, k: self.fromtimestamp(a, k))
        x["tempfile.TemporaryDirectory"] = ExtCls("tempfile.TemporaryDirectory", self.tempdir)
        it.ctx.x.assumed.update({
            "open(p, 'w') truncates or creates p and no other path; os.replace is atomic and os.remove removes exactly its argument, or they raise OSError and change nothing",
            "what a file written through a file object contains is unspecified until close() has returned without raising",
            "json.load(json.dump(v)), pickle.load(pickle.dump(v)) and decode(encode(v)) are equal to v and of its type for v in the domain",
            "os.remove of an existing staging file does not fail while cleaning up (C11 exempts a failing clean-up)",
        })

    # ------------------------------------------------ paths
    def mkpath(self, a):
        v = self.it.resolve(a[0])
        if isinstance(v, SV) and v.tag is PATH:
            return v
        if len(a) != 1 or not (isinstance(v, (SV, str))):
            raise Unsupported("Path(...)")
        t = self.it.term(v)
        p = mkpath(t)
        self.ctx.assume(strof(p) == t)
        return SV(p, "obj", PATH)

    def join(self, it, a):
        r = pure(it, "os.path.join", a, STR)
        lens = [strlen(self.key(x)) for x in a]
        self.ctx.assume(strlen(r.t) >= z3.Sum(*lens))
        for x in lens:
            self.ctx.assume(x >= 0)
        return r

    def key(self, v):
        v = self.it.resolve(v)
        if isinstance(v, SV) and v.tag is PATH:
            return strof(v.t)
        if isinstance(v, SV) and v.tag is STR or isinstance(v, str):
            return self.it.term(v)
        raise Unsupported(f"path {v!r}")

    def entry(self, v):
        t = self.key(v)
        for e in self.files:
            if self.ctx._check(e[0] != t) == z3.unsat:
                return e
            if self.ctx._check(e[0] == t) != z3.unsat:
                if self.ctx.branch(e[0] == t):
                    return e
        e = [t, None]
        self.files.append(e)
        return e

    def tempdir(self, it, c, args, kwargs):
        d = SV(self.ctx.fresh("tempdir"), "obj", STR)
        self.ctx.assume(strlen(d.t) > 0)
        i = Inst(self.ctx, c, {"name": d})

        class Ext:
            def getattr(s, it, inst, name):
                if name == "__enter__":
                    return Model("enter", lambda it, a, k: d)
                if name in ("__exit__", "cleanup"):
                    return Model("exit", lambda it, a, k: None)
                return None
        i.ext = Ext()
        return i

    # ------------------------------------------------ faults
    def fail(self, it, what, *classes):
        """Any of these exceptions, or none."""
        if not self.faults:
            return
        k = self.ctx.choose(len(classes) + 1, what)
        if k:
            self.log.append(f"{what} raises {classes[k - 1].__name__}")
            self.check(what)
            raise PyRaise(it.exc(classes[k - 1], (what,)))

    def check(self, what):
        if self.safe is not None:
            self.safe(self, what)

    def tick(self):
        self.clock += 1
        return self.clock

    # ------------------------------------------------ operations
    def open(self, it, a, k):
        names = ["file", "mode", "buffering", "encoding", "errors", "newline"]
        args = dict(zip(names, a))
        for n, v in k.items():
            if n not in names:
                raise Unsupported(f"open(..., {n})")
            args[n] = v
        mode = it.resolve(args.get("mode", "r"))
        if not isinstance(mode, str):
            raise Unsupported("open with a symbolic mode")
        if "+" in mode or set(mode) - set("rwbtx"):
            raise Unsupported(f"open with mode {mode}")
        e = self.entry(args["file"])
        self.fail(it, "open", OSError)
        if "w" in mode or "x" in mode:
            if "x" in mode and e[1] is not None:
                it.raise_(FileExistsError, "exists")
            if e[1] is None:
                e[1] = Node("new", [])
            n = e[1]
            n.chunks, n.partial, n.mtime = [], True, self.tick()
            if n.label == "leftover":
                n.label = "new"
        else:
            n = e[1]
            if n is None:
                it.raise_(FileNotFoundError, "missing")
        f = FileObj(self, n, mode, args.get("encoding"), args.get("newline"), args.get("errors"))
        self.check("open")
        i = Inst(self.ctx, FILE)
        i.ext = f
        return i

    def usable(self, it, f, letter):
        if not isinstance(f, FileObj):
            raise Unsupported("not a file")
        if f.closed:
            it.raise_(ValueError, "closed file")
        if letter not in f.mode and not (letter == "w" and "x" in f.mode):
            it.raise_(OSError, "not writable" if letter == "w" else "not readable")

    def write(self, it, f, v, ascii_only=False):
        self.usable(it, f, "w")
        v = it.resolve(v)
        binary = "b" in f.mode
        ok = (isinstance(v, bytes) or isinstance(v, SV) and v.tag is BYTES) if binary else (isinstance(v, str) or isinstance(v, SV) and v.tag is STR)
        if not ok:
            if isinstance(v, SV) and v.tag is ANY:
                raise Unsupported("write of a value of unknown type")
            it.raise_(TypeError, "write() argument")
        if not binary and not ascii_only and not isinstance(v, str):
            enc = self.ctx.extra.get("encodable")
            fits = enc is not None and it.is_(v, enc[0]) is not False and self.ctx._check(z3.Not(z3.And(v.t == enc[0].t, it.term(f.encoding) == it.term(enc[1])))) == z3.unsat
            if not fits and not self.is_ascii(v):
                if self.ctx.choose(2, "encode error"):
                    f.broken = True
                    self.check("write")
                    raise PyRaise(it.exc(UnicodeEncodeError, ("cannot encode",)))
        f.node.partial = True
        self.fail(it, "write", OSError, KeyboardInterrupt)
        f.node.mtime = self.tick()
        f.pending.append(("b", v) if binary else ("t", v, f.encoding, f.newline, f.errors))
        self.check("write")
        return SV(self.ctx.fresh("n", I))

    def is_ascii(self, v):
        return any(j[0].eq(v.t) and j[2] for j in self.ctx.extra.get("json", []))

    def flush(self, it, f):
        self.fail(it, "flush", OSError)
        self.check("flush")
        return None

    def fsync(self, it, f):
        self.fail(it, "fsync", OSError)
        return None

    def close(self, it, f):
        if f.closed:
            return None
        f.closed = True
        if "r" in f.mode:
            return None
        if self.faults:
            self.log.append("close")
        k = self.ctx.choose(2, "close") if self.faults else 0
        if k:
            f.node.partial = True
            f.node.mtime = self.tick()
            self.check("close")
            raise PyRaise(it.exc(OSError, ("close",)))
        f.node.chunks = f.node.chunks + f.pending
        f.node.partial = False
        self.check("close")
        return None

    def replace(self, it, a, k):
        src, dst = self.entry(a[0]), self.entry(a[1])
        self.fail(it, "replace", OSError, KeyboardInterrupt)
        if src[1] is None:
            it.raise_(FileNotFoundError, "missing")
        if src is not dst:
            dst[1] = src[1]
            src[1] = None
            dst[1].mtime = max(dst[1].mtime, 1)
        self.check("replace")
        return None

    def copyfile(self, it, a, k, stat=False):
        src, dst = self.entry(a[0]), self.entry(a[1])
        self.fail(it, "copy", OSError)
        if src[1] is None:
            it.raise_(FileNotFoundError, "missing")
        if src is dst:
            it.raise_(OSError, "same file")
        if dst[1] is None:
            dst[1] = Node("new", [])
        n = dst[1]
        n.chunks, n.partial, n.mtime = [], True, self.tick()
        if n.label == "leftover":
            n.label = "new"
        self.check("copy: truncating the target")
        self.fail(it, "copy", OSError, KeyboardInterrupt)
        n.chunks, n.partial, n.mtime = list(src[1].chunks), src[1].partial, self.tick()
        if stat:
            n.mtime = src[1].mtime
        self.check("copy")
        return a[1]

    def meta(self, it, paths):
        self.fail(it, "permissions", OSError)
        es = [self.entry(p) for p in paths]
        if any(e[1] is None for e in es):
            it.raise_(FileNotFoundError, "missing")
        return es

    def copystat(self, it, a, k):
        src, dst = self.meta(it, a[:2])
        dst[1].mtime = src[1].mtime
        self.check("copystat")

    def utime(self, it, a, k):
        e = self.meta(it, a[:1])[0]
        when = it.resolve(a[1] if len(a) > 1 else k.get("times"))
        if when is None and "ns" not in k:
            e[1].mtime = self.tick()
            self.check("utime")
            return None
        raise Unsupported("os.utime to a given time")

    def remove(self, it, a, k):
        e = self.entry(a[0])
        if e[1] is None:
            it.raise_(FileNotFoundError, "missing")
        e[1] = None
        self.check("remove")
        return None

    def exists(self, it, a, k):
        return self.entry(a[0])[1] is not None

    def getmtime(self, it, a, k):
        e = self.entry(a[0])
        if e[1] is None:
            it.raise_(FileNotFoundError, "missing")
        return SV(z3.Const(f"mtime_{e[1].label}_{e[1].mtime}", R))

    def fromtimestamp(self, a, k):
        t = self.it.num(a[0])
        if t.sort() == I:
            t = z3.ToReal(t)
        from .times import TIME, UTC, aware, wall

        tz = self.it.resolve(a[1] if len(a) > 1 else k.get("tz"))
        if tz is not None and tz is not UTC:
            raise Unsupported("fromtimestamp in another zone than UTC")
        r = SV(self.ctx.fresh("datetime"), "obj", TIME)
        # without a zone: the local time, with the fold that tells it from the other one of the same reading
        self.ctx.assume(z3.And(instant(r.t) == t, aware(r.t) == (tz is UTC)))
        if tz is UTC:
            self.ctx.assume(wall(r.t) == t)
        self.ctx.assume(r.t != self.it.none_term())
        return r

    def read(self, it, f, size):
        self.usable(it, f, "r")
        self.fail(it, "read", OSError)
        n = f.node
        binary = "b" in f.mode
        if n.partial:
            return SV(self.ctx.fresh("junk"), "obj", BYTES if binary else STR)
        if not n.chunks:
            return b"" if binary else ""
        if size is not None and not (isinstance(size, int) and size < 0):
            r = SV(self.ctx.fresh("prefix"), "obj", BYTES if binary else STR)
            self.ctx.assume(truthy(r.t))
            return r
        if len(n.chunks) == 1:
            c = n.chunks[0]
            if binary and c[0] == "b":
                return c[1]
            if not binary and c[0] == "t":
                same_enc = it.eq(c[2], f.encoding)
                nl = c[3] == "" and f.newline == ""
                if isinstance(c[1], SV) and self.is_ascii(c[1]):
                    nl = True
                if c[3] == "\n" and f.newline in ("", "\n"):
                    nl = True
                same_err = c[4] is f.errors or c[4] == f.errors
                if self.ctx.branch(same_enc) and nl and same_err:
                    return c[1]
        return SV(self.ctx.fresh("other"), "obj", BYTES if binary else STR)

    # ------------------------------------------------ codecs
    JSON_OK = {"indent", "sort_keys", "separators", "ensure_ascii"}

    def json_text(self, it, v, k):
        if set(k) - self.JSON_OK:
            raise Unsupported(f"json options {sorted(set(k) - self.JSON_OK)}")
        ascii_ = it.truth(k.get("ensure_ascii", True))
        self.fail(it, "serialise", TypeError, KeyboardInterrupt)
        t = SV(self.ctx.fresh("json"), "obj", STR)
        self.ctx.extra.setdefault("json", []).append((t.t, v, ascii_))
        return t, ascii_

    def json_dumps(self, it, a, k):
        return self.json_text(it, a[0], k)[0]

    def json_dump(self, it, a, k):
        f = it.resolve(a[1])
        if not isinstance(f, Inst) or not isinstance(f.ext, FileObj):
            raise Unsupported("json.dump to something else")
        f.ext.node.partial = True
        t, ascii_ = self.json_text(it, a[0], k)
        self.write(it, f.ext, t, ascii_only=ascii_)
        return None

    def json_loads(self, it, s):
        if isinstance(s, SV):
            for t, v, _ in self.ctx.extra.get("json", []):
                if t.eq(s.t):
                    return v
        if self.ctx.choose(2, "json error"):
            it.raise_(ValueError, "json")
        return SV(self.ctx.fresh("junk"), "obj", ANY)

    def pickle_dumps(self, it, a, k):
        p = it.resolve(a[1] if len(a) > 1 else k.get("protocol"))
        if len(a) > 2 or set(k) - {"protocol"} or not (p is None or type(p) is int):
            raise Unsupported("options of pickle")
        if p in (0, 1) and self.ctx.choose(2, "not all objects can be pickled with the old protocols"):
            it.raise_(TypeError, "a class that defines __slots__ without defining __getstate__ cannot be pickled")
        self.fail(it, "serialise", TypeError, KeyboardInterrupt)
        t = SV(self.ctx.fresh("pickle"), "obj", BYTES)
        self.ctx.extra.setdefault("pickle", []).append((t.t, a[0]))
        return t

    def pickle_dump(self, it, a, k):
        f = it.resolve(a[1])
        if not isinstance(f, Inst) or not isinstance(f.ext, FileObj):
            raise Unsupported("pickle.dump to something else")
        f.ext.node.partial = True
        t = self.pickle_dumps(it, [a[0], *a[2:]], k)
        self.write(it, f.ext, t)
        return None

    def pickle_loads(self, it, s):
        if isinstance(s, SV):
            for t, v in self.ctx.extra.get("pickle", []):
                if t.eq(s.t):
                    return v
        if self.ctx.choose(2, "pickle error"):
            it.raise_(ValueError, "pickle")
        return SV(self.ctx.fresh("junk"), "obj", ANY)
