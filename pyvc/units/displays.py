"""The bundled progress displays: every state is rendered, without raising, with the counts of every scope (C20)."""
import z3

from ..core import B, I, IteV, Obj, Opaque, PathEnd, PyRaise, R, SV, Unsupported, Value
from ..models import STR, as_z3, coll_len, concat, elem_num, pure, str_
from ..values import BuiltinCls, Coll, DictV, ExtCls, Fam, FamRef, Inst, ListV, Model, Schema, SetV, subst
from .base import returns, tag, unit
from .fs import ANY
from .graphs import SEQ
from .progress import COUNTS, P, SIMPLE, clock

BYTES = type("BytesSchema", (Schema,), {"name": "bytes", "truth": lambda self, it, sv: z3.Function("bytes_nonempty", Obj, B)(sv.t), "getattr": lambda self, it, sv, name: Model(name, decode) if name == "decode" else None})()
printable = z3.Function("printable_in", Obj, Obj, B)  # (string, encoding)


def decode(it, a, k):
    raise Unsupported("decode")


# ------------------------------------------------------------ sorting


def kind_of(it, v):
    """A class of values which are all comparable with each other, or None."""
    if isinstance(v, IteV):
        ks = {kind_of(it, x) for _, x in v.cases}
        return ks.pop() if len(ks) == 1 else None
    if isinstance(v, str) or isinstance(v, SV) and v.tag is STR:
        return "str"
    if isinstance(v, (int, float)) or isinstance(v, SV) and v.kind in ("int", "real", "bool"):
        return "num"
    if isinstance(v, tuple):
        ks = tuple(kind_of(it, x) for x in v)
        return None if None in ks else ("tuple",) + ks
    if isinstance(v, ListV) or hasattr(v, "instantiate"):
        segs = v.obj.segs if hasattr(v, "instantiate") else v.segs
        ks = {kind_of(it, s if kk == "one" else s.elem) for kk, s in segs}
        if not ks:
            return ("seq",)
        return None if len(ks) != 1 or None in ks else ("seq", ks.pop())
    return None


def sort_contract(it, segs, k):
    """sorted: the same elements in some order; raises anything where two keys may not be comparable."""
    if all(s[0] == "one" for s in segs):
        return NotImplemented
    if len(segs) != 1:
        raise Unsupported("sorting a mixed sequence")
    from ..loops import coll_comp

    ctx, c = it.ctx, segs[0][1]
    key = it.resolve(k.get("key"))
    if key is None:
        kinds = kind_of(it, c.elem)
    else:
        r = coll_comp(it, c, lambda elem, xs: [("one", it.call(key, [elem], {}))])
        kinds = kind_of(it, r[0][1].elem) if len(r) == 1 else None
    if kinds is None and ctx.branch(ctx.fresh("not_orderable", B)):
        ctx.cover("values that cannot be ordered")
        raise PyRaise(it.exc(Exception, ("comparison",)))
    n = coll_len(it, c)
    i = ctx.fresh("i", I)
    perm = [ctx.fresh_fn("perm", I, x.sort()) for x in c.xs]
    idx = ctx.fresh_fn("idx", *[x.sort() for x in c.xs], I)
    here = [p(i) for p in perm]
    m, e, f = c.at(here)
    inside = z3.And(0 <= i, i < n)
    facts = z3.And(as_z3(m), idx(*here) == i, *([as_z3(f)] if f is not None else []))
    ctx.assume(z3.ForAll([i], z3.Implies(inside, facts), patterns=[here[0]]))
    xs = [ctx.fresh("x", x.sort()) for x in c.xs]
    m2 = c.at(xs)[0]
    at = idx(*xs)
    ctx.assume(z3.ForAll(xs, z3.Implies(as_z3(m2), z3.And(0 <= at, at < n, *[p(at) == x for p, x in zip(perm, xs)])), patterns=[at]))
    out = ListV(ctx)
    out.segs = [("coll", Coll([i], inside, e, facts, True, n, True, "sorted"))]
    out_meta = it.ctx.extra.setdefault("sorted", {})
    out_meta[str(i)] = (idx, perm)
    return out


def sum_contract(it, s):
    """A sum of natural numbers is at least each of them."""
    ctx = it.ctx
    t = elem_num(it, s)
    total = ctx.fresh("sum", t.sort())
    q = z3.Implies(as_z3(s.mem), t >= 0)
    le = z3.Implies(as_z3(s.mem), t <= total)
    ctx.assume(z3.Implies(z3.ForAll(s.xs, q), z3.And(total >= 0, z3.ForAll(s.xs, le))))
    return SV(total)


def subterms(t, pred, out):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if pred(e):
            out.append(e)
        if z3.is_app(e):
            todo.extend(e.children())
    return out


# ------------------------------------------------------------ the state that is rendered


class ExcTypeSchema(type(ANY)):
    """The class of an exception."""

    name = "exception class"
    user = False

    def getattr(self, it, sv, name):
        if name in ("__name__", "__qualname__", "__module__"):
            return pure(it, "exc_type" + name, [sv], STR)
        raise Unsupported(f"exception class.{name}")


EXC_TYPE = ExcTypeSchema()


class Shown:
    """Any state: sections with scopes, counts (totals at least one), exceptions."""

    def __init__(self, ctx, it, sections=("stale", "run")):
        self.ctx, self.it = ctx, it
        clock(it)
        it.externs["sorted_hook"] = sort_contract
        it.externs["sum_hook"] = sum_contract
        cls = it.glob(SIMPLE + "ScopeState")
        self.scopes, self.mapping = {}, DictV(ctx)
        for s in sections:
            if ctx.choose(2, s + " known") == 0:
                continue
            x = ctx.fresh("sc")
            f = {c: ctx.fresh_fn(f"{s}_{c}", Obj, I) for c in COUNTS}
            w, dom = ctx.fresh_fn(f"{s}_elapsed", Obj, R), ctx.fresh_fn(f"{s}_known", Obj, B)
            attrs = {c: [([x], True, SV(f[c](x), "int"))] for c in COUNTS}
            attrs["weighted_elapsed"] = [([x], True, SV(w(x), "real"))]
            fam = Fam(ctx, cls, [x], attrs)
            q = z3.Const("q", Obj)
            ctx.assume(z3.ForAll([q], z3.Implies(dom(q), z3.And(*[f[c](q) >= 0 for c in COUNTS], f["total"](q) >= 1, f["completed"](q) + f["failed"](q) + f["running"](q) <= f["total"](q), w(q) >= 0)), patterns=[dom(q)]))
            w0 = ctx.fresh("known")
            ctx.assume(dom(w0))  # a section is made with its first scope
            d = DictV(ctx)
            y = ctx.fresh("k")
            d.ops = [("coll", Coll([y], dom(y), (SV(y, "obj", SEQ), FamRef(fam, [y])), name=s))]
            self.mapping.ops = self.mapping.ops + [("set", s, d)]
            self.scopes[s] = (fam, f, dom, d)
        n, self.first = ctx.fresh("n_exc", I), ctx.fresh("shown", I)
        ctx.assume(z3.And(0 <= self.first, self.first <= n))
        i = ctx.fresh("i", I)
        e = [ctx.fresh_fn(f"exc_{p}", I, Obj) for p in ("scope", "type", "value", "tb")]
        self.exceptions = ListV(ctx)
        self.exceptions.segs = [("coll", Coll([i], z3.And(0 <= i, i < n), (SV(e[0](i), "obj", SEQ), (SV(e[1](i), "obj", EXC_TYPE), SV(e[2](i), "obj", ANY), SV(e[3](i), "obj", ANY))), None, True, n, True, "exceptions"))]
        self.n_exc = n
        # trusted: the standard library formats what it is given
        ext = it.externs
        string = lambda name: Model(name, lambda it, a, k: SV(ctx.fresh("s"), "obj", STR))
        ext["traceback.format_exception"] = Model("format_exception", self.format)
        ext["textwrap.indent"] = string("indent")
        ext["html.escape"] = Model("escape", self.escape)
        now = Inst(ctx, Opaque("datetime"))
        now.ext = type("NowExt", (), {"getattr": lambda s, it, inst, name: Model(name, lambda it, a, k: SV(ctx.fresh("time"), "obj", STR)) if name in ("strftime", "isoformat") else None, "truth": lambda s, it, inst: True})()
        for k in ("utcnow", "now"):
            ext["datetime.datetime." + k] = Model(k, lambda it, a, k: now)
        it.call_contracts[SIMPLE + "ScopeState.to_progress_string"] = lambda it, a, k: self.counts(a[0])
        it.call_contracts[SIMPLE + "ScopeState.to_elapsed_string"] = lambda it, a, k: pure(it, "elapsed_of", [a[0]], STR)
        it.call_contracts[SIMPLE + "get_elapsed_string"] = self.elapsed
        it.call_contracts[SIMPLE + "get_scope_string"] = self.scope_string
        self.used = set()

    def format(self, it, a, k):
        """traceback.format_exception: it runs code of the objects that are involved, which may raise."""
        if self.ctx.choose(2, "formatted"):
            it.raise_(KeyError, "while an exception was formatted")
        return ListV(self.ctx, [("coll", self.lines(a))])

    def lines(self, a):
        i = self.ctx.fresh("line", I)
        n = self.ctx.fresh("n_lines", I)
        self.ctx.assume(n >= 0)
        return Coll([i], z3.And(0 <= i, i < n), SV(self.ctx.fresh_fn("line", I, Obj)(i), "obj", STR), None, True, n, True, "lines")

    def escape(self, it, a, k):
        v = it.resolve(a[0])
        if isinstance(v, str):
            import html

            return html.escape(v)
        if not (isinstance(v, SV) and v.tag is STR):
            it.raise_(AttributeError, "replace")
        return pure(it, "escape", [v], STR)

    def counts(self, st):
        self.used.add("counts")
        return pure(self.it, "counts_of", [st], STR)

    def elapsed(self, it, a, k):
        v = it.resolve(a[0] if a else k["elapsed"])
        if not (isinstance(v, (int, float)) or isinstance(v, SV) and v.kind in ("int", "real")):
            raise Unsupported("elapsed time that is not a number")
        return SV(it.ctx.fresh("elapsed"), "obj", STR)

    def scope_string(self, it, a, k):
        self.used.add("scope")
        v = it.resolve(a[0] if a else k["scope"])
        return pure(it, "scope_string", [v], STR) if isinstance(v, SV) else SV(it.ctx.fresh("scope_string"), "obj", STR)

    def items(self):
        return [("state", self.mapping), ("new_exception_index", SV(self.first, "int")), ("exception_tuples", self.exceptions), ("elapsed", SV(self.ctx.fresh("elapsed", R), "real"))]

    def args(self):
        e = self.ctx.fresh("elapsed", R)
        self.ctx.assume(e >= 0)
        return [self.mapping, SV(self.first, "int"), self.exceptions, SV(e, "real")]

    def done(self, s):
        fam, f, dom, d = self.scopes[s]
        q = z3.Const("q", Obj)
        return z3.ForAll([q], z3.Implies(dom(q), f["completed"](q) + f["failed"](q) == f["total"](q)), patterns=[dom(q)])


# ------------------------------------------------------------ helpers


@unit("progress.sorted_scopes", ["C20"], covers=("sorted", "values that cannot be ordered"))
def sorted_scopes(ctx, it):
    """sorted_scope_items: never raises, whatever the values of the scopes are; loses and repeats nothing."""
    t = lambda text: tag(["C20"], "sorted_scope_items: " + text)
    w = Shown(ctx, it, ("run",))
    if not w.scopes:
        raise PathEnd()
    fam, f, dom, d = w.scopes["run"]
    r = returns(ctx, t("does not raise, whatever the values of the scopes"), lambda: it.call(it.glob(SIMPLE + "sorted_scope_items"), [d], {}))
    ctx.cover("sorted")
    segs = it.iter_segs(r)
    if len(segs) != 1 or segs[0][0] != "coll" or not isinstance(segs[0][1].elem, tuple):
        raise Unsupported("result of sorted_scope_items")
    c = segs[0][1]
    q = ctx.fresh("q")
    ctx.assume(dom(q))
    meta = ctx.extra.get("sorted", {})
    m, e, _ = c.at(c.xs)
    key = it.term(e[0])
    if str(c.xs[0]) not in meta:
        ctx.prove(t("every scope is there, with its state"), z3.Exists(c.xs, z3.And(as_z3(m), key == q, it.term(e[1]) == it.term(FamRef(fam, [q])))))
    else:
        idx, perm = meta[str(c.xs[0])]
        m, e, _ = c.at([idx(q)])
        ctx.prove(t("every scope is there, with its state"), z3.And(as_z3(m), it.term(e[0]) == q, it.term(e[1]) == it.term(FamRef(fam, [q]))))
    ctx.prove(t("nothing is repeated"), z3.BoolVal(c.n is None) if c.n is None else c.n == coll_len(it, d.ops[0][1]))


@unit("progress.scope_string", ["C20"], covers=("end",))
def scope_string(ctx, it):
    """get_scope_string does not raise, whatever the values of the scope are."""
    t = lambda text: tag(["C20"], "get_scope_string: " + text)
    scope = SV(ctx.fresh("scope"), "obj", SEQ)
    kw = [{}, {"add_zero_width_spaces": True}, {"add_zero_width_spaces": False}][ctx.choose(3, "keyword")]
    v = scope if ctx.choose(2, "list") == 0 else ListV(ctx, [("one", "Total")])
    r = returns(ctx, t("does not raise"), lambda: it.call(it.glob(SIMPLE + "get_scope_string"), [v], kw))
    ctx.cover("end")
    ctx.prove(t("returns a string"), isinstance(r, str) or isinstance(r, SV) and r.tag is STR)


@unit("progress.strings", ["C20"], covers=("progress", "elapsed"))
def progress_strings(ctx, it):
    """The progress string of a scope tells its counts; the elapsed string is made from any number."""
    t = lambda text: tag(["C20"], "ScopeState: " + text)
    c = {n: ctx.fresh(n, I) for n in COUNTS}
    ctx.assume(z3.And(*[v >= 0 for v in c.values()], c["total"] >= 1, c["completed"] + c["failed"] + c["running"] <= c["total"]))
    e = ctx.fresh("elapsed", R)
    ctx.assume(e >= 0)
    st = it.call(it.glob(SIMPLE + "ScopeState"), [], dict({k: SV(v, "int") for k, v in c.items()}, weighted_elapsed=SV(e, "real")))
    if ctx.choose(2, "which"):
        r = returns(ctx, t("to_elapsed_string does not raise"), lambda: it.call(it.getattr(st, "to_elapsed_string"), [], {}))
        ctx.cover("elapsed")
        ctx.prove(t("a string is returned"), isinstance(r, str) or isinstance(r, SV) and r.tag is STR)
        return
    r = it.resolve(returns(ctx, t("to_progress_string does not raise"), lambda: it.call(it.getattr(st, "to_progress_string"), [], {})))
    ctx.cover("progress")
    known = ctx.extra.get("concatenated", {}).get(r.t.get_id()) if isinstance(r, SV) else None
    if known is None:
        raise Unsupported("shape of the progress string")
    told = [p for p in known[1] if isinstance(p, SV)]
    tells = lambda n: z3.Or(*[z3.BoolVal(False)] + [p.t == str_(it, SV(c[n], "int")).t for p in told])
    ctx.prove(t("the number completed is told"), tells("completed"))
    ctx.prove(t("the total is told"), tells("total"))
    ctx.prove(t("failures are told"), z3.Or(c["failed"] == 0, tells("failed")))


# ------------------------------------------------------------ console


class Buffer:
    def __init__(self, lines):
        self.lines = lines

    def truth(self, it, inst):
        return True

    def getattr(self, it, inst, name):
        if name == "__enter__":
            return Model(name, lambda it, a, k: inst)
        if name in ("__exit__", "close"):
            return Model(name, lambda it, a, k: None)
        if name == "getvalue":
            return Model(name, lambda it, a, k: SV(it.ctx.fresh("text"), "obj", STR))
        if name == "write":
            return Model(name, lambda it, a, k: self.write(it, a))
        return None

    def write(self, it, a):
        line = concat(it, [str_(it, x) for x in a])
        it.models.l_append(it, self.lines, [line], {})


def told(w, lines, section, name="pure:counts_of1"):
    """Whether for every scope of the section there is a line which tells its counts."""
    it, ctx = w.it, w.ctx
    fam, f, dom, d = w.scopes[section]
    ft = it.term(FamRef(fam, [z3.Const("q", Obj)])).decl()
    q = ctx.fresh("q")
    ctx.assume(dom(q))
    alts = []
    for kk, s in lines:
        elem = s.elem if kk == "coll" else s
        for v in ([x for _, x in elem.cases] if isinstance(elem, IteV) else [elem]):
            if not isinstance(v, SV):
                continue
            found = subterms(v.t, lambda e: z3.is_app(e) and e.decl().name() == name and z3.is_app(e.arg(e.num_args() - 1)) and e.arg(e.num_args() - 1).decl().eq(ft), [])
            where = subterms(v.t, lambda e: z3.is_app(e) and e.decl().name() == "pure:scope_string1", [])
            for c in found:
                key = c.arg(c.num_args() - 1).arg(0)
                for sc in [c.arg(0)] if c.num_args() > 1 else [x.arg(0) for x in where] or [key]:
                    same = z3.And(key == q, sc == q)
                    if kk == "one":
                        alts.append(same)
                        continue
                    meta = ctx.extra.get("sorted", {})
                    src = [z3.substitute(z3.And(as_z3(s.mem), same), (s.xs[0], m[0](q))) for m in meta.values()] if len(s.xs) == 1 and s.xs[0].sort() == I else []
                    alts.append(z3.Or(*src, z3.Exists(s.xs, z3.And(as_z3(s.mem), same))) if src else z3.Exists(s.xs, z3.And(as_z3(s.mem), same)))
    return z3.Or(*alts) if alts else z3.BoolVal(False)


@unit("progress.console", ["C20"], covers=("rendered", "section shown", "section skipped", "exceptions"), max_time=240.0)
def console_render(ctx, it):
    """ConsoleProgressObserver._render: does not raise; tells the counts of every scope, except of a section shown as done before."""
    t = lambda text: tag(["C20"], "ConsoleProgressObserver._render: " + text)
    w = Shown(ctx, it)
    lines = ListV(ctx)

    def stringio(it, a, k):
        b = Inst(ctx, Opaque("StringIO"))
        b.ext = Buffer(lines)
        return b

    it.externs["io.StringIO"] = Model("StringIO", stringio)

    def print_(it, a, k):
        f = it.resolve(k.get("file"))
        if not (isinstance(f, Inst) and isinstance(f.ext, Buffer)):
            raise Unsupported("print to somewhere else")
        f.ext.write(it, a)

    it.externs["builtins.print_hook"] = print_
    lock = Model("Lock", lambda it, a, k: Inst(ctx, Opaque("Lock")))
    it.externs["threading.Lock"] = it.externs["threading.Event"] = lock
    obs = it.call(it.glob(P + "_console_progress_observer.ConsoleProgressObserver"), [], {"initial_update_delay": 1, "min_update_interval": 1, "max_update_interval": 1})
    it.any_history(obs, ("_skipped_sections",))
    skipped = obs.attrs.get("_skipped_sections")
    if not isinstance(skipped, SetV):
        raise Unsupported("sections shown as done")
    was = {}
    for s in w.scopes:
        was[s] = ctx.choose(2, s + " shown as done before") == 1
        if was[s]:
            skipped.ops = skipped.ops + [("add", s)]
    r = returns(ctx, t("does not raise"), lambda: it.call(it.getattr(obs, "_render"), w.args(), {}))
    ctx.cover("rendered")
    ctx.prove(t("the text is returned"), it.resolve(r) is not None)
    if ctx._check(w.first < w.n_exc) != z3.unsat:
        ctx.cover("exceptions")
    if not w.used >= {"counts"} and not all(was.values()):
        raise Unsupported("progress strings are made in another way")
    for s in w.scopes:
        done = ctx.branch(w.done(s))
        if done and was[s]:
            ctx.cover("section skipped")
        else:
            ctx.cover("section shown")
            ctx.prove(t("the counts of every scope are told"), told(w, lines.segs, s))
        now = obs.attrs["_skipped_sections"]
        ctx.prove(t("a section is remembered as shown only if it is done"), z3.Or(z3.BoolVal(done), z3.Not(as_z3(it.models.set_contains(it, now, s)))))


@unit("progress.console_output", ["C20"], covers=("plain", "not encodable"))
def console_output(ctx, it):
    """ConsoleProgressObserver._output: does not raise, whatever the encoding of the standard output is."""
    t = lambda text: tag(["C20"], "ConsoleProgressObserver._output: " + text)
    enc = SV(ctx.fresh("encoding"), "obj", STR)
    it.externs["sys.stdout.encoding"] = enc
    safe = {"backslashreplace", "replace", "xmlcharrefreplace", "namereplace", "ignore"}
    count = [0]

    def print_(it, a, k):
        count[0] += 1
        for x in a:
            x = it.resolve(x)
            if isinstance(x, SV) and not ctx.branch(printable(x.t, enc.t)):
                ctx.cover("not encodable")
                it.raise_(UnicodeEncodeError, "encoding")
        ctx.cover("plain")

    def encode(it, a, k):
        s, rest = a[0], list(a[1:])
        e = it.resolve(rest[0] if rest else k.get("encoding", "utf-8"))
        errors = it.resolve(rest[1] if len(rest) > 1 else k.get("errors", "strict"))
        if not isinstance(errors, str):
            raise Unsupported("encode")
        if isinstance(e, str) and e.lower().replace("_", "-") in ("utf-8", "utf8"):
            raise Unsupported("encoding to UTF-8")
        if errors not in safe and not ctx.branch(printable(s.t, it.term(e))):
            it.raise_(UnicodeEncodeError, "encode")
        b = SV(ctx.fresh("bytes"), "obj", BYTES)
        ctx.extra.setdefault("encoded", {})[b.t.get_id()] = (b.t, it.term(e))
        return b

    def dec(it, sv, a, k):
        e = it.resolve(a[0] if a else k.get("encoding", "utf-8"))
        known = ctx.extra.get("encoded", {}).get(sv.t.get_id())
        if known is None or not it.term(e).eq(known[1]):
            raise Unsupported("decoding in another encoding")
        s = SV(ctx.fresh("decoded"), "obj", STR)
        ctx.assume(printable(s.t, known[1]))
        return s

    it.externs["str.encode"] = Model("str.encode", encode)
    BYTES.__class__.getattr = lambda self, it_, sv, name: Model(name, lambda it_, a, k: dec(it_, sv, a, k)) if name == "decode" else None
    it.externs["builtins.print_hook"] = print_
    it.externs["threading.Lock"] = it.externs["threading.Event"] = Model("Lock", lambda it, a, k: Inst(ctx, Opaque("Lock")))
    clock(it)
    obs = it.call(it.glob(P + "_console_progress_observer.ConsoleProgressObserver"), [], {"initial_update_delay": 1, "min_update_interval": 1, "max_update_interval": 1})
    it.any_history(obs, ("_skipped_sections",))
    returns(ctx, t("does not raise"), lambda: it.call(it.getattr(obs, "_output"), [SV(ctx.fresh("text"), "obj", STR)], {}))
    ctx.prove(t("the text is printed"), count[0] >= 1)


# ------------------------------------------------------------ HTML


HTML = P + "_html_progress_observer."


def a_string(v):
    return isinstance(v, str) or isinstance(v, SV) and v.tag is STR


@unit("progress.html_section", ["C20"], covers=("rendered",))
def html_section(ctx, it):
    """_render_section: does not raise, whatever the scopes and counts of the section are; returns a string."""
    t = lambda text: tag(["C20"], "_render_section: " + text)
    w = Shown(ctx, it, ("run",))
    if not w.scopes:
        raise PathEnd()
    rows = []

    def row(it, a, k):
        # proved in progress.html_row, for any state with a total of at least one
        st = it.resolve(a[1] if len(a) > 1 else k.get("scope_state"))
        if not isinstance(st, (FamRef, Inst)) or set(k) - {"is_bold", "scope_state"}:
            return NotImplemented
        total = it.num(it.getattr(st, "total"))
        ctx.prove(t("a row is made of a state with a total"), total >= 1)
        rows.append(1)
        return pure(it, "row", [a[0], st], STR)

    it.call_contracts[HTML + "_render_scope"] = row
    r = returns(ctx, t("does not raise"), lambda: it.call(it.glob(HTML + "_render_section"), ["Running graph", w.scopes["run"][3]], {}))
    ctx.cover("rendered")
    r = it.resolve(r)
    ctx.prove(t("a string is returned"), a_string(r))
    if not rows:
        raise Unsupported("rows are rendered in another way")
    parts = ctx.extra.get("concatenated", {}).get(r.t.get_id(), (None, [r]))[1]
    segs = []
    for p in parts:
        if isinstance(p, SV):
            segs += ctx.extra.get("joined", {}).get(p.t.get_id(), (None, [("one", p)]))[1]
    ctx.prove(t("every scope has a row with its state"), told(w, segs, "run", "pure:row2"))


@unit("progress.html_row", ["C20"], covers=("rendered",))
def html_row(ctx, it):
    """_render_scope: does not raise; tells the counts."""
    t = lambda text: tag(["C20"], "_render_scope: " + text)
    w = Shown(ctx, it, ("run",))
    if not w.scopes:
        raise PathEnd()
    fam, f, dom, d = w.scopes["run"]
    s = ctx.fresh("scope")
    ctx.assume(dom(s))
    kw = [{}, {"is_bold": True}][ctx.choose(2, "keyword")]
    r = it.resolve(returns(ctx, t("does not raise"), lambda: it.call(it.glob(HTML + "_render_scope"), [SV(s, "obj", SEQ), FamRef(fam, [s])], kw)))
    ctx.cover("rendered")
    ctx.prove(t("a string is returned"), a_string(r))
    names = [n for n in subterms(r.t, lambda e: z3.is_app(e) and e.decl().name().startswith("pure:str"), [])]
    tells = lambda n: any(x.arg(0).eq(it.term(SV(f[n](s), "int"))) for x in names)
    if not names:
        raise Unsupported("shape of a row")
    ctx.prove(t("the number completed is told"), tells("completed"))
    ctx.prove(t("the total is told"), tells("total"))
    ctx.prove(t("failures are told"), z3.Or(f["failed"](s) == 0, z3.BoolVal(tells("failed"))))


@unit("progress.html_exceptions", ["C20"], covers=("rendered",))
def html_exceptions(ctx, it):
    """_render_exception_tuples: does not raise; returns a string."""
    t = lambda text: tag(["C20"], "_render_exception_tuples: " + text)
    w = Shown(ctx, it, ())
    ctx.assume(w.n_exc >= 1)
    r = returns(ctx, t("does not raise"), lambda: it.call(it.glob(HTML + "_render_exception_tuples"), [w.exceptions], {}))
    ctx.cover("rendered")
    ctx.prove(t("a string is returned"), a_string(it.resolve(r)))


@unit("progress.html", ["C20"], covers=("rendered",), max_time=240.0)
def html_render(ctx, it):
    """HtmlProgressObserver._render: does not raise; returns bytes."""
    t = lambda text: tag(["C20"], "HtmlProgressObserver._render: " + text)
    w = Shown(ctx, it)
    it.externs["threading.Lock"] = it.externs["threading.Event"] = Model("Lock", lambda it, a, k: Inst(ctx, Opaque("Lock")))
    safe = {"backslashreplace", "replace", "xmlcharrefreplace", "namereplace", "ignore", "surrogatepass"}

    def encode(it, a, k):
        rest = list(a[1:])
        e = it.resolve(rest[0] if rest else k.get("encoding", "utf-8"))
        errors = it.resolve(rest[1] if len(rest) > 1 else k.get("errors", "strict"))
        if not isinstance(errors, str) or not isinstance(e, str):
            raise Unsupported("encode")
        if errors == "surrogatepass" and e.lower().replace("_", "-") not in ("utf-8", "utf8") or errors not in safe:
            if not ctx.branch(ctx.fresh("encodable", B)):
                it.raise_(UnicodeEncodeError, "encode")
        return SV(ctx.fresh("bytes"), "obj", BYTES)

    it.externs["str.encode"] = Model("str.encode", encode)
    rendered = []

    def section(it, a, k):
        # proved in progress.html_section, for any section with a scope
        title, mapping = it.resolve(a[0]), it.resolve(a[1] if len(a) > 1 else None)
        known = [s for s in w.scopes if w.scopes[s][3] is mapping]
        if k or not known or not isinstance(title, str):
            return NotImplemented
        rendered.append(known[0])
        r = SV(ctx.fresh("section"), "obj", STR)
        ctx.extra.setdefault("section_of", {})[r.t.get_id()] = (r.t, known[0])
        return r

    def exceptions(it, a, k):
        if k or it.resolve(a[0]) is not w.exceptions:
            return NotImplemented
        ctx.prove(t("there is an exception to show"), w.n_exc >= 1)
        return SV(ctx.fresh("exceptions"), "obj", STR)

    it.call_contracts[HTML + "_render_section"] = section
    it.call_contracts[HTML + "_render_exception_tuples"] = exceptions
    obs = it.call(it.glob(P + "_html_progress_observer.HtmlProgressObserver"), [Model("output", lambda it, a, k: None)], {"initial_update_delay": 1, "min_update_interval": 1, "max_update_interval": 1})
    it.any_history(obs, ())
    r = returns(ctx, t("does not raise"), lambda: it.call(it.getattr(obs, "_render"), w.args(), {}))
    ctx.cover("rendered")
    r = it.resolve(r)
    if rendered:
        ctx.prove(t("every section is shown"), sorted(rendered) == sorted(w.scopes))
    ctx.prove(t("bytes are returned"), isinstance(r, SV) and r.tag is BYTES or isinstance(r, bytes))


@unit("progress.html_output", ["C20"], covers=("path", "function"))
def html_output(ctx, it):
    """HtmlProgressObserver._output: the bytes go to the function, or replace the file at the path."""
    t = lambda text: tag(["C20"], "HtmlProgressObserver._output: " + text)
    got = []
    it.externs["threading.Lock"] = it.externs["threading.Event"] = Model("Lock", lambda it, a, k: Inst(ctx, Opaque("Lock")))
    clock(it)
    file = Inst(ctx, Opaque("file"))
    file.ext = type("FileExt", (), {"truth": lambda s, it, inst: True, "getattr": lambda s, it, inst, name: Model(name, lambda it, a, k: got.append(("write", a[0]))) if name == "write" else None})()
    cm = Inst(ctx, Opaque("staged file"))
    cm.ext = type("CmExt", (), {"truth": lambda s, it, inst: True, "getattr": lambda s, it, inst, name: {"__enter__": Model(name, lambda it, a, k: file), "__exit__": Model(name, lambda it, a, k: None)}.get(name)})()

    def staged(it, a, k):
        got.append(("open", a[0], a[1] if len(a) > 1 else k.get("mode")))
        return cm

    it.call_contracts["uberjob.stores._file_store.staged_write"] = staged
    is_path = ctx.choose(2, "what") == 0
    path = SV(ctx.fresh("path"), "obj", STR)
    out = "/tmp/progress.html" if is_path else Model("output", lambda it, a, k: got.append(("call", a[0])))
    it.externs["builtins.callable"] = Model("callable", lambda it, a, k: it.resolve(a[0]) is not None and not isinstance(it.resolve(a[0]), str))
    obs = it.call(it.glob(HTML + "HtmlProgressObserver"), [out], {"initial_update_delay": 1, "min_update_interval": 1, "max_update_interval": 1})
    it.any_history(obs, ())
    value = SV(ctx.fresh("bytes"), "obj", BYTES)
    returns(ctx, t("does not raise"), lambda: it.call(it.getattr(obs, "_output"), [value], {}))
    if is_path:
        ctx.cover("path")
        if len(got) != 2 or got[0][0] != "open":
            raise Unsupported("the file is written in another way")
        ctx.prove(t("the file at the path is replaced by the bytes"), got[0][1] == out and it.resolve(got[0][2]) == "wb" and it.is_(got[1][1], value))
    else:
        ctx.cover("function")
        ctx.prove(t("the function is given the bytes, once"), len(got) == 1 and it.is_(got[0][1], value))


# ------------------------------------------------------------ IPython


IPY = P + "_ipython_progress_observer.IPythonProgressObserver"


def widgets(ctx, set_title):
    x, y = ctx.fresh("key"), ctx.fresh("key")
    layout = Fam(ctx, Opaque("layout"), [y], {"align_items": [([y], True, "x")]})
    return Fam(ctx, Opaque("widget"), [x], {"layout": [([x], True, FamRef(layout, [x]))], "set_title": [([x], True, set_title)]})


@unit("progress.ipython_get", ["C20"], covers=("made", "cached"))
def ipython_get(ctx, it):
    """IPythonProgressObserver._get: the widget of a key; made and remembered the first time."""
    t = lambda text: tag(["C20"], "IPythonProgressObserver._get: " + text)
    it.externs["threading.Lock"] = it.externs["threading.Event"] = Model("Lock", lambda it, a, k: Inst(ctx, Opaque("Lock")))
    clock(it)
    obs = it.call(it.glob(IPY), [], {"initial_update_delay": 1, "min_update_interval": 1, "max_update_interval": 1})
    it.any_history(obs, ("_widget_cache",))
    if "_widget_cache" not in obs.attrs:
        raise Unsupported("widget cache")
    fam = widgets(ctx, None)
    have = ctx.fresh_fn("cached", Obj, B)
    d = DictV(ctx)
    d.ops = [("base", lambda k: have(k), lambda k: FamRef(fam, [k]))]
    obs.attrs["_widget_cache"] = d
    made = []

    def make(it, a, k):
        made.append(Inst(ctx, Opaque("widget")))
        return made[-1]

    key = [SV(ctx.fresh("k"), "obj", ANY) for _ in range(ctx.choose(4, "length"))]
    kt = it.term(tuple(key))
    cached = ctx.branch(have(kt))
    r = it.resolve(returns(ctx, t("does not raise"), lambda: it.call(it.getattr(obs, "_get"), list(key), {"default": Model("default", make)})))
    if cached:
        ctx.cover("cached")
        ctx.prove(t("a widget that was made before is used again"), isinstance(r, FamRef) and not made and it.term(r) == it.term(FamRef(fam, [kt])))
    else:
        ctx.cover("made")
        ctx.prove(t("a widget is made the first time"), len(made) == 1 and r is made[0])
        again = it.resolve(it.call(it.getattr(obs, "_get"), list(key), {"default": Model("default", make)}))
        ctx.prove(t("and remembered"), again is r)


@unit("progress.ipython", ["C20"], covers=("rendered", "section shown", "first"), max_time=240.0)
def ipython_render(ctx, it):
    """IPythonProgressObserver._render: does not raise; every scope has a bar and a label with its counts."""
    t = lambda text: tag(["C20"], "IPythonProgressObserver._render: " + text)
    w = Shown(ctx, it, ("run",))
    it.externs["threading.Lock"] = it.externs["threading.Event"] = Model("Lock", lambda it, a, k: Inst(ctx, Opaque("Lock")))
    set_title = Model("set_title", lambda it, a, k: None)

    def widget(name):
        def make(it, c, args, kwargs):
            i = Inst(ctx, c)
            i.attrs.update(layout=Inst(ctx, Opaque("layout")), set_title=set_title)
            return i
        return ExtCls("ipywidgets." + name, make)

    kinds = {n: widget(n) for n in ("VBox", "HBox", "Label", "HTML", "IntProgress", "Accordion")}
    for n, c in kinds.items():
        it.externs["ipywidgets." + n] = c
    it.externs["IPython.display.display"] = Model("display", lambda it, a, k: None)
    obs = it.call(it.glob(P + "_ipython_progress_observer.IPythonProgressObserver"), [], {"initial_update_delay": 1, "min_update_interval": 1, "max_update_interval": 1})
    it.any_history(obs, ("_widget_cache",))
    if ctx.choose(2, "rendered before"):
        if "_widget_cache" not in obs.attrs:
            raise Unsupported("widget cache")
        obs.attrs["_widget_cache"] = DictV(ctx)
    else:
        ctx.cover("first")
    roots = []

    class AnyWidget:
        def truth(self, it, inst):
            return True

        def getattr(self, it, inst, name):
            if name in inst.attrs:
                return inst.attrs[name]
            raise Unsupported(f"attribute {name} of a widget is read")

    def get(it, a, k):
        # proved in progress.ipython_get: the widget of that key, made by the factory the first time
        cache = it.resolve(obs.attrs["_widget_cache"])
        ctx.prove(t("widgets are looked up in a cache"), cache is not None)
        it.call(k["default"], [], {})
        i = Inst(ctx, Opaque("widget"), {"layout": Inst(ctx, Opaque("layout")), "set_title": set_title})
        i.ext = AnyWidget()
        if len(a) == 1:
            roots.append(i)
        return i

    it.call_contracts[IPY + "._get"] = get
    returns(ctx, t("does not raise"), lambda: it.call(it.getattr(obs, "_render"), w.args(), {}))
    ctx.cover("rendered")
    if not w.scopes:
        return
    ctx.cover("section shown")
    if not roots or not w.used >= {"counts"}:
        raise Unsupported("widgets are made in another way")

    def texts(v, depth=0):
        """The texts in a widget and the widgets in it."""
        v = it.resolve(v)
        if hasattr(v, "instantiate"):
            v = v.instantiate(it)
        if isinstance(v, (Inst, FamRef)):
            attrs = v.attrs if isinstance(v, Inst) else v.fam.attrs
            if "value" in attrs:
                x = it.getattr(v, "value")
                yield ("one", x)
            if "children" in attrs and depth < 6:
                yield from texts(it.getattr(v, "children"), depth + 1)
        elif isinstance(v, (ListV, tuple)):
            for kk, x in it.iter_segs(v):
                if kk == "one":
                    yield from texts(x, depth + 1)
                else:
                    for k2, y in texts(x.elem, depth + 1):
                        if k2 == "one":
                            yield ("coll", Coll(x.xs, x.mem, y, x.facts, x.ordered, x.n, x.distinct, x.name))

    ctx.prove(t("every scope has a widget which tells its counts"), told(w, list(texts(roots[-1])), "run"))
