"""File-backed stores: atomic replacement (C11) and faithful round trip (C12) over the ghost file system."""
import z3

from ..core import PathEnd, PyRaise, SV, Unsupported
from ..interp import strlen
from ..models import STR
from ..values import BoundMethod, BuiltinCls, ClsV, Inst, Model
from .base import tag, unit
from .fs import ANY, BYTES, FS, Node, PATH, instant
from .times import NAIVE, TIME, install_times

KINDS = {
    "JsonFileStore": ("uberjob.stores._json_file_store", ANY, True),
    "PickleFileStore": ("uberjob.stores._pickle_file_store", ANY, False),
    "TextFileStore": ("uberjob.stores._text_file_store", STR, True),
    "BinaryFileStore": ("uberjob.stores._binary_file_store", BYTES, False),
    "TouchFileStore": ("uberjob.stores._touch_file_store", None, False),
}


def new_path(it):
    ctx = it.ctx
    p = SV(ctx.fresh("path"), "obj", STR if ctx.choose(2, "path type") == 0 else PATH)
    return p


def make_store(it, kind, path):
    mod, tagv, has_enc = KINDS[kind]
    kw = {}
    enc = None
    if has_enc and it.ctx.choose(2, "encoding") == 1:
        enc = SV(it.ctx.fresh("encoding"), "obj", STR)
        it.ctx.assume(enc.t != it.none_term())
        kw["encoding"] = enc
    store = settled(it, lambda: it.call(it.glob(f"{mod}.{kind}"), [path], kw))
    value = None if tagv is None else SV(it.ctx.fresh("value"), "obj", tagv)
    if tagv is STR:
        it.ctx.extra["encodable"] = (value, enc)
    return store, value


def settled(it, make):
    """A store is the same before and after every operation: one whose operations change it is out of reach, as nothing is known of its history."""
    start = len(it.ctx.heap)
    store = make()
    it.static += [(o, o.snap()) for o in it.ctx.heap[start:]]
    return store


def method(it, obj, name):
    return it.getattr(obj, name)


def atomic(kind):
    def run(ctx, it):
        P = ["C11", "C08"]
        old = Node("old", [("b", SV(ctx.fresh("old"), "obj", BYTES))])
        target = {}

        def safe(fs, what):
            n = fs.files[0][1]
            complete_new = n is not None and n is not old and not n.partial and n.label == "new"
            if had_old:
                ok = n is old and not old.partial and old.mtime == 0 or complete_new
            else:
                ok = n is None or complete_new
            ctx.prove(tag(P, f"{kind}.write: the target holds the complete old or the complete new value after {what}"), bool(ok))

        fs = FS(it, False, None)
        path = new_path(it)
        had_old = ctx.choose(2, "old value") == 0
        fs.files.append([fs.key(path), old if had_old else None])
        store, value = make_store(it, kind, path)
        # a staging file left by a killed process
        left = ctx.choose(2, "left over") == 1
        if left:
            suffix = it.glob("uberjob.stores._file_store.STAGING_SUFFIX")
            st = it.models.concat(it, [it.models.str_(it, path), suffix])
            ctx.assume(strlen(fs.key(path)) >= 0)
            fs.entry(st)[1] = Node("leftover", [("b", SV(ctx.fresh("left"), "obj", BYTES))], True)
            fs.leftover = fs.entry(st)[1]
        fs.faults, fs.safe = True, safe
        try:
            it.call(method(it, store, "write"), [value], {})
        except PyRaise as e:
            ctx.cover("write fails")
            fs.faults = False
            safe(fs, "the failed write")
            fresh_staging = [e for e in fs.files[1:] if e[1] is not None and e[1].label == "new"]
            began = any(True for _ in fs.files[1:])
            ctx.prove(tag(P, f"{kind}.write: no staging file is left behind when the write fails"), not fresh_staging)
            return
        ctx.cover("write succeeds")
        n = fs.files[0][1]
        ctx.prove(tag(P, f"{kind}.write: on return the target holds the new value"), n is not None and n is not old and not n.partial)
        ctx.prove(tag(P, f"{kind}.write: on return no staging file is left"), all(e[1] is None for e in fs.files[1:]))

    return run


def roundtrip(kind):
    def run(ctx, it):
        P = ["C12", "C03"]
        fs = FS(it, False, None)
        path = new_path(it)
        fs.files.append([fs.key(path), Node("old", [("b", SV(ctx.fresh("old"), "obj", BYTES))]) if ctx.choose(2) else None])
        store, value = make_store(it, kind, path)
        left = ctx.choose(2, "left over") == 1
        undisturbed = tag(["C11", "C08"], f"{kind}: a staging file left by a killed process disturbs neither a later write nor a later read")
        if left:
            st = it.models.concat(it, [it.models.str_(it, path), it.glob("uberjob.stores._file_store.STAGING_SUFFIX")])
            ctx.assume(strlen(fs.key(path)) >= 0)
            fs.entry(st)[1] = Node("leftover", [], True)
        try:
            it.call(method(it, store, "write"), [value], {})
        except PyRaise as e:
            ctx.prove(undisturbed if left else tag(P, f"{kind}.write does not raise for a value in its domain"), False)
            return
        before = [(e[0], e[1], list(e[1].chunks) if e[1] else None) for e in fs.files]
        try:
            r = it.call(method(it, store, "read"), [], {})
        except PyRaise as e:
            ctx.prove(undisturbed if left else tag(P, f"{kind}.read does not raise after a write"), False)
            return
        ctx.cover("read back")
        if left:
            ctx.prove(undisturbed, it.is_(r, value) if not isinstance(value, (str, bytes)) else it.ident(r, value))
        ctx.prove(tag(P, f"{kind}: read returns the value written"), it.is_(r, value) if not isinstance(value, (str, bytes)) else it.ident(r, value))
        ctx.prove(tag(P, f"{kind}: read changes no file"), all(e[1] is b[1] and (e[1] is None or e[1].chunks == b[2]) for e, b in zip(fs.files, before)))
        # a second write and read
        value2 = None if value is None else SV(ctx.fresh("value2"), "obj", value.tag)
        if isinstance(value2, SV) and value2.tag is STR:
            ctx.extra["encodable"] = (value2, store.attrs.get("encoding"))
        m1 = fs.files[0][1].mtime
        try:
            it.call(method(it, store, "write"), [value2], {})
            r = it.call(method(it, store, "read"), [], {})
        except PyRaise:
            ctx.prove(tag(P, f"{kind}: a second write and read do not raise"), False)
            return
        n2 = fs.files[0][1]
        ctx.prove(tag(["C12", "C03", "C05", "C08"], f"{kind}: a write leaves the file with the modified time of the write"), n2 is not None and n2.mtime > m1)
        ctx.prove(tag(P, f"{kind}: read returns the value written last"), it.is_(r, value2))

    return run


for _k in KINDS:
    _a, _r = atomic(_k), roundtrip(_k)
    _a.__doc__ = f"{_k}.write: an error or death at every file operation; the target holds the old or the new value, the staging file is gone after an error."
    _r.__doc__ = f"{_k}: read after write returns the value, for any value of the domain and also with a staging file left over."
    unit(f"stores.atomic.{_k}", ["C11", "C08"], covers=("write fails", "write succeeds"))(_a)
    unit(f"stores.roundtrip.{_k}", ["C12", "C11", "C03", "C05", "C08"], covers=("read back",))(_r)


@unit("stores.staged_write", ["C11", "C08"], covers=("fails", "succeeds"))
def staged(ctx, it):
    """staged_write and staged_write_path with an arbitrary body, which writes and may raise anything."""
    P = ["C11", "C08"]
    old = Node("old", [])
    fs = FS(it, False, None)
    path = new_path(it)
    fs.files.append([fs.key(path), old])

    def safe(fs, what):
        n = fs.files[0][1]
        ctx.prove(tag(P, f"staged_write: the target holds the complete old or the complete new value after {what}"),
                  bool(n is old and old.mtime == 0 and not old.partial or n is not None and n is not old and not n.partial))

    fs.faults, fs.safe = True, safe
    which = ctx.choose(2, "which")
    body_done = []

    def inner(v):
        if which == 0:
            it.call(method(it, v, "write"), [SV(ctx.fresh("data"), "obj", BYTES)], {})
        else:
            f = fs.open(it, [v, "wb"], {})
            fs.write(it, f.ext, SV(ctx.fresh("data"), "obj", BYTES))
            fs.close(it, f.ext)
        k = ctx.choose(3, "body")
        if k:
            it.raise_(ValueError if k == 1 else KeyboardInterrupt, "body")
        body_done.append(1)

    try:
        if which == 0:
            cm = it.call(it.glob("uberjob.stores._file_store.staged_write"), [path], {"mode": "wb"})
        else:
            cm = it.call(it.glob("uberjob.stores._file_store.staged_write_path"), [path], {})
        it.with_cm(cm, inner)
    except PyRaise:
        ctx.cover("fails")
        safe(fs, "the failure")
        ctx.prove(tag(P, "staged_write: no staging file is left behind when it fails"), all(e[1] is None for e in fs.files[1:]))
        return
    ctx.cover("succeeds")
    n = fs.files[0][1]
    ctx.prove(tag(P, "staged_write: an exception of the body is not swallowed"), bool(body_done))
    ctx.prove(tag(P, "staged_write: on return the target holds what was written"), n is not None and n is not old and not n.partial and len(n.chunks) == 1)
    ctx.prove(tag(P, "staged_write: on return no staging file is left"), all(e[1] is None for e in fs.files[1:]))


def denotes(r):
    """The instant of a modified time is that of the file: a naive one is read as local time."""
    if not isinstance(r, SV) or r.tag not in (TIME, NAIVE):
        return False
    t = z3.Function("instant_of_local_time", z3.RealSort(), z3.RealSort())(r.t) if r.tag is NAIVE else instant(r.t)
    return t == z3.Const("mtime_value_0", z3.RealSort())


@unit("stores.modified_time", ["C12", "C18", "C03", "C05", "C08"], covers=("present", "absent"))
def modified_time(ctx, it):
    """get_modified_time of every file store: None without a file, else a time that denotes the file's modification instant."""
    P = ["C12", "C18", "C03", "C05", "C08"]
    install_times(it)
    fs = FS(it, False, None)
    path = new_path(it)
    present = ctx.choose(2) == 0
    node = Node("value", [("b", SV(ctx.fresh("old"), "obj", BYTES))]) if present else None
    fs.files.append([fs.key(path), node])
    kind = sorted(KINDS)[ctx.choose(len(KINDS))]
    store, _ = make_store(it, kind, path)
    try:
        r = it.call(method(it, store, "get_modified_time"), [], {})
    except PyRaise:
        ctx.prove(tag(P, f"{kind}.get_modified_time does not raise"), False)
        return
    if not present:
        ctx.cover("absent")
        ctx.prove(tag(P, f"{kind}.get_modified_time is None when nothing is stored"), it.is_(r, None))
        return
    ctx.cover("present")
    r = it.resolve(r)
    ctx.prove(tag(P, f"{kind}.get_modified_time is a time when a value is stored"), isinstance(r, SV) and r.tag in (TIME, NAIVE))
    ctx.prove(tag(P, f"{kind}.get_modified_time denotes the modification instant of the file, hence never decreases"), denotes(r))


@unit("stores.path_source", ["C12", "C18"], covers=("present", "absent"))
def path_source(ctx, it):
    """PathSource: read returns the path; its modified time is the file's; a missing path raises exactly where documented."""
    P = ["C12", "C18"]
    install_times(it)
    fs = FS(it, False, None)
    path = new_path(it)
    present = ctx.choose(2) == 0
    required = ctx.choose(2) == 0
    fs.files.append([fs.key(path), Node("value", []) if present else None])
    store = settled(it, lambda: it.call(it.glob("uberjob.stores._path_source.PathSource"), [path], {"required": required}))
    for name in ("get_modified_time", "read"):
        try:
            r = it.resolve(it.call(method(it, store, name), [], {}))
        except PyRaise as e:
            ok = not present and required if name == "get_modified_time" else not present and not required
            ctx.prove(tag(P, f"PathSource.{name} raises only for a missing path"), bool(ok))
            ctx.cover("absent")
            continue
        if name == "read":
            ctx.prove(tag(P, "PathSource.read returns the path"), it.is_(r, path))
        elif present:
            ctx.cover("present")
            ctx.prove(tag(P, "PathSource.get_modified_time denotes the instant of the file"),
                      denotes(r))
        else:
            ctx.prove(tag(P, "PathSource.get_modified_time is None for a missing optional path"), it.is_(r, None))


@unit("stores.mounted", ["C12"], covers=("round trip",))
def mounted(ctx, it):
    """MountedStore over any underlying store that meets its own contract."""
    P = ["C12"]
    fs = FS(it, False, None)
    base = it.glob("uberjob.stores._mounted_store.MountedStore")
    remote = {"v": None}
    local = []
    value = SV(ctx.fresh("value"), "obj", ANY)

    def entry(p):
        e = fs.entry(p)
        return e

    def cls(name, bases, attrs):
        c = ClsV()
        c.name, c.module, c.node, c.bases, c.attrs, c.qual, c.fields, c.env = name, base.module, base.node, bases, attrs, "spec." + name, None, None
        return c

    def w(it, a, k):
        entry(a[0].attrs["path"])[1] = Node("local", [("v", a[1])])

    def r(it, a, k):
        n = entry(a[0].attrs["path"])[1]
        if n is None:
            it.raise_(FileNotFoundError, "missing")
        return n.chunks[0][1]

    Under = cls("Under", [], {"read": Model("read", r), "write": Model("write", w)})
    create = Model("create_store", lambda it, a, k: Inst(ctx, Under, {"path": a[0]}))

    def to_local(it, a, k):
        if remote["v"] is None:
            it.raise_(FileNotFoundError, "remote")
        entry(a[1])[1] = Node("local", list(remote["v"].chunks))

    def from_local(it, a, k):
        n = entry(a[1])[1]
        if n is None:
            it.raise_(FileNotFoundError, "local")
        remote["v"] = Node("remote", list(n.chunks))

    Store = cls("Mounted", [base], {"copy_to_local": Model("copy_to_local", to_local), "copy_from_local": Model("copy_from_local", from_local)})
    s = settled(it, lambda: it.call(Store, [create], {}))
    if ctx.choose(2, "before"):
        remote["v"] = Node("remote", [("v", SV(ctx.fresh("before"), "obj", ANY))])
    try:
        it.call(method(it, s, "write"), [value], {})
        got = it.call(method(it, s, "read"), [], {})
    except PyRaise:
        ctx.prove(tag(P, "MountedStore: write and read do not raise when the underlying operations do not"), False)
        return
    ctx.cover("round trip")
    ctx.prove(tag(P, "MountedStore: read returns the value written"), it.is_(got, value))
