"""Lemmas over the contracts: what the staleness specification (unit stale.nodes) and the spliced graph (units vstores.*) mean over a history (C03, C05, C08, C09).

The specification objects are the very ones the contracts use (stale.Spec and vstores.Spliced).  Inductions over the plan's order, which is finite and acyclic, are given as their steps: the
claim for an arbitrary node from the claim for all its predecessors.

The invariant of the stores: whatever is not out of date (without a fresh_time) holds its from-scratch value.
"""
import z3

from ..core import B, Obj
from .base import tag, unit
from .fs import instant
from .graphs import Key, RV, symbolic_plan, symbolic_registry
from .stale import Spec
from .vstores import LIT, ORIG, READ, WRITE, Spliced, constants, kind, owner


class State:
    """The stores at one moment: which have a value, their times, their contents, and the from-scratch values of the nodes."""

    def __init__(self, h, label, fresh=None):
        ctx = h.ctx
        f = ctx.fresh_fn
        self.h = h
        self.present, self.mtime, self.content, self.val = f("present_" + label, Obj, B), f("mtime_" + label, Obj, Obj), f("content_" + label, Obj, Obj), f("value_" + label, Obj, Obj)
        self.spec = Spec(h.it, h.g, h.inr, h.ent, fresh or (z3.BoolVal(False), z3.RealVal(0)), self.present, self.mtime)

    def with_fresh(self, fresh):
        h = self.h
        return Spec(h.it, h.g, h.inr, h.ent, fresh, self.present, self.mtime)

    def time(self, n):
        return instant(self.mtime(self.h.st(n)))

    def sound(self, n, spec=None):
        """The invariant, at n."""
        h = self.h
        return z3.Implies(z3.And(h.stored(n), z3.Not((spec or self.spec).S(n))), self.content(h.st(n)) == self.val(n))


class History:
    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        self.plan, self.g = symbolic_plan(it)
        self.reg, self.inr, self.ent = symbolic_registry(it, self.g)
        self.st = lambda n: RV.store(self.ent(n))
        self.src = lambda n: z3.And(self.inr(n), RV.source(self.ent(n)))
        self.stored = lambda n: z3.And(self.inr(n), z3.Not(RV.source(self.ent(n))))
        self.P = self.g.P0
        x, y = z3.Const("hx", Obj), z3.Const("hy", Obj)
        ctx.assume(z3.ForAll([x, y], z3.Implies(z3.And(self.inr(x), self.inr(y), self.st(x) == self.st(y)), x == y), patterns=[z3.MultiPattern(self.inr(x), self.inr(y))]))
        ctx.x.assumed.add("lemmas over histories: different registered nodes have different stores; a write gives its store a time later than all others; call functions are deterministic; "
                          "a source changes through updates from outside only")
        self.p = z3.Const("hp", Obj)

    def ih(self, n, claim):
        """The claim holds for all predecessors of n."""
        p = self.p
        self.ctx.assume(z3.ForAll([p], z3.Implies(self.P(p, n), claim(p)), patterns=[self.P(p, n)]))

    def everywhere(self, claim, *patterns):
        """A claim which was proved for an arbitrary node holds for all nodes."""
        p = self.p
        self.ctx.assume(z3.ForAll([p], claim(p), patterns=list(patterns)) if patterns else z3.ForAll([p], claim(p)))

    def below(self, s):
        """D(n): n is s, or depends on it."""
        ctx = self.ctx
        D, wd = ctx.fresh_fn("downstream", Obj, B), ctx.fresh_fn("downstream_by", Obj, Obj)

        def unfold(n):
            p = self.p
            ctx.assume(z3.ForAll([p], z3.Implies(z3.And(self.P(p, n), D(p)), D(n)), patterns=[self.P(p, n)]))
            ctx.assume(D(n) == z3.Or(n == s, z3.And(self.P(wd(n), n), D(wd(n)))))
        return D, unfold

    def evaluates(self, a, b, n):
        """From-scratch evaluation: the value of n is the content of its store if n is a source, otherwise a function of the values of its predecessors."""
        w = self.ctx.fresh("differs")
        st = self.st(n)
        self.ctx.assume(z3.Implies(self.src(n), z3.And(a.val(n) == a.content(st), b.val(n) == b.content(st))))
        self.ctx.assume(z3.Implies(z3.Not(self.src(n)), z3.Or(a.val(n) == b.val(n), z3.And(self.P(w, n), a.val(w) != b.val(w)))))

    def changed(self, a, b, x, present=None):
        """Only the store of x differs from state a to state b."""
        o = z3.Const("ho", Obj)
        ctx = self.ctx
        ctx.assume(z3.ForAll([o], z3.Implies(o != self.st(x), z3.And(b.present(o) == a.present(o), b.mtime(o) == a.mtime(o), b.content(o) == a.content(o))),
                             patterns=[b.present(o), b.mtime(o), b.content(o)]))
        if present is not None:
            ctx.assume(b.present(self.st(x)) if present else z3.Not(b.present(self.st(x))))

    def newest(self, a, b, x):
        """The time of the store of x is later than any before."""
        o = z3.Const("ho", Obj)
        self.ctx.assume(z3.ForAll([o], z3.Implies(a.present(o), instant(a.mtime(o)) < b.time(x)), patterns=[a.present(o)]))


def t(props, text):
    return tag(props, "lemma: " + text)


H = ["C03", "C08"]


def changes(ctx, it, by_write):
    """A source is updated from outside, or (by_write) a run writes the from-scratch value of a node: the invariant of the stores is preserved."""
    h = History(ctx, it)
    a, b = State(h, "before"), State(h, "after")
    x = ctx.fresh("x")
    ctx.assume(z3.And(h.inr(x), h.g.N0(x), h.stored(x) if by_write else h.src(x)))
    h.changed(a, b, x, True)
    h.newest(a, b, x)
    D, unfold = h.below(x)
    what = "a write" if by_write else "an update of a source"
    step = ctx.choose(3, "step")
    n = ctx.fresh("n")
    a.spec.unfold(n)
    b.spec.unfold(n)
    unfold(n)
    later = lambda p: z3.Implies(D(p), z3.Or(b.spec.S(p), z3.And(b.spec.has_m(p), b.spec.m(p) >= b.time(x))))
    old = lambda p: z3.Implies(z3.Not(D(p)), z3.And(a.spec.S(p) == b.spec.S(p), a.spec.has_m(p) == b.spec.has_m(p), z3.Implies(a.spec.has_m(p), a.spec.m(p) == b.spec.m(p))))
    # a write changes no source, so all from-scratch values stay
    same = (lambda p: a.val(p) == b.val(p)) if by_write else lambda p: z3.Implies(z3.Not(D(p)), a.val(p) == b.val(p))
    if step == 0:
        ctx.cover("later")
        h.ih(n, later)
        ctx.prove(t(H, f"what is downstream of {what} is out of date or passes on its time (step)"), later(n))
    elif step == 1:
        ctx.cover("elsewhere")
        h.ih(n, old)
        h.ih(n, same)
        h.evaluates(a, b, n)
        ctx.prove(t(H, f"what is not downstream of {what} is as out of date as before (step)"), old(n))
        ctx.prove(t(H, "a write changes no from-scratch value (step)" if by_write else f"what is not downstream of {what} has the same from-scratch value (step)"), same(n))
    else:
        ctx.cover("invariant")
        h.everywhere(later, D(h.p))
        h.everywhere(old, D(h.p))
        h.everywhere(same, b.val(h.p))
        if by_write:
            ctx.assume(b.content(h.st(x)) == b.val(x))
        ctx.assume(a.sound(n))
        ctx.prove(t(H, f"{what} leaves every value that is not out of date equal to its from-scratch value"), b.sound(n))


@unit("history.update", H, covers=("later", "elsewhere", "invariant"))
def update(ctx, it):
    """Lemma: an update of a source from outside makes out of date whatever is downstream; whatever is not out of date still holds its from-scratch value."""
    changes(ctx, it, False)


@unit("history.write", H, covers=("later", "elsewhere", "invariant"))
def write(ctx, it):
    """Lemma: a single write of a from-scratch value, at any moment of a run and whatever was written before, leaves whatever is not out of date equal to its from-scratch value."""
    changes(ctx, it, True)


@unit("history.delete", H, covers=("step", "invariant"))
def delete(ctx, it):
    """Lemma: the deletion of a stored value makes nothing up to date; whatever is not out of date still holds its from-scratch value."""
    h = History(ctx, it)
    a, b = State(h, "before"), State(h, "after")
    x, n = ctx.fresh("x"), ctx.fresh("n")
    ctx.assume(z3.And(h.stored(x), h.g.N0(x)))
    h.changed(a, b, x, False)
    a.spec.unfold(n)
    b.spec.unfold(n)
    kept = lambda p: z3.Implies(z3.Not(b.spec.S(p)), z3.And(z3.Not(a.spec.S(p)), a.spec.has_m(p) == b.spec.has_m(p), z3.Implies(a.spec.has_m(p), a.spec.m(p) == b.spec.m(p))))
    same = lambda p: a.val(p) == b.val(p)
    if ctx.choose(2, "step") == 0:
        ctx.cover("step")
        h.ih(n, kept)
        h.ih(n, same)
        h.evaluates(a, b, n)
        ctx.prove(t(H, "what is up to date after a deletion was up to date before (step)"), kept(n))
        ctx.prove(t(H, "a deletion changes no from-scratch value (step)"), same(n))
    else:
        ctx.cover("invariant")
        h.everywhere(kept, b.spec.S(h.p))
        h.everywhere(same, b.val(h.p))
        ctx.assume(a.sound(n))
        ctx.prove(t(H, "a deletion leaves every value that is not out of date equal to its from-scratch value"), b.sound(n))


@unit("history.fresh_time", H + ["C05"], covers=("step", "invariant"))
def fresh_time(ctx, it):
    """Lemma: what is up to date with a fresh_time is up to date without it and with an earlier one; so the invariant holds for whatever a run with any fresh_time regards as up to date."""
    h = History(ctx, it)
    a = State(h, "now")
    f1, f2 = z3.Real("fresh1"), z3.Real("fresh2")
    early_given = z3.Bool("an_earlier_one_is_given")
    early, late = a.with_fresh((early_given, f1)), a.with_fresh((z3.BoolVal(True), f2))
    ctx.assume(f1 <= f2)
    n = ctx.fresh("n")
    late.unfold(n)
    early.unfold(n)
    kept = lambda p: z3.Implies(z3.Not(late.S(p)), z3.And(z3.Not(early.S(p)), late.has_m(p) == early.has_m(p), z3.Implies(late.has_m(p), late.m(p) == early.m(p))))
    if ctx.choose(2, "step") == 0:
        ctx.cover("step")
        h.ih(n, kept)
        ctx.prove(t(H + ["C05"], "advancing fresh_time makes nothing up to date (step)"), kept(n))
    else:
        ctx.cover("invariant")
        h.everywhere(kept, late.S(h.p))
        ctx.assume(a.sound(n, early))
        ctx.prove(t(H, "what is up to date with a fresh_time holds its from-scratch value"), a.sound(n, late))


@unit("history.values", ["C03", "C08", "C09", "C02"], covers=("read back", "read up to date", "source", "call", "write"))
def values(ctx, it):
    """Lemma (step of an induction over the physical plan's order): every read returns, every call computes and every write stores the from-scratch value of its node."""
    h = History(ctx, it)
    a = State(h, "start")
    fresh = (z3.Bool("fresh_time_given"), z3.Real("fresh_time"))
    spec = a.with_fresh(fresh)
    constants(it)
    sp = Spliced(ctx, h.g.E0, h.g.N0, spec.S, lambda n: RV.source(h.ent(n)))
    edge = lambda u, v, k: sp.edge(h.inr, u, v, k)
    got = ctx.fresh_fn("result", Obj, Obj)          # of a call, read or literal of the physical plan
    wrote = ctx.fresh_fn("written", Obj, Obj)       # by a write
    u, k = z3.Const("hu", Obj), z3.Const("hk", Key)
    n = ctx.fresh("n")
    node = ctx.fresh("physical")
    props = ["C03", "C08", "C09"]
    # every predecessor in the physical plan has computed, read or written the from-scratch value (pool.run.*: they have finished)
    claim = lambda m: z3.If(kind(m) == WRITE, z3.Implies(h.stored(owner(m)), wrote(owner(m)) == a.val(owner(m))),
                            z3.If(kind(m) == READ, got(m) == a.val(owner(m)), z3.Implies(kind(m) == ORIG, z3.Implies(z3.Not(h.src(m)), got(m) == a.val(m)))))
    ctx.assume(z3.ForAll([u, k], z3.Implies(edge(u, node, k), claim(u))))
    ctx.assume(z3.ForAll([u], z3.Implies(h.g.N0(u), kind(u) == ORIG), patterns=[h.g.N0(u)]))
    what = ctx.choose(3, "kind")
    if what == 0:
        # a read of n: its write, if there is one, comes before (an edge of the physical plan); nothing else writes this store in the run
        ctx.assume(z3.And(kind(node) == READ, owner(node) == n, h.inr(n)))
        content = ctx.fresh("content")
        w = z3.Function("store_write", Obj, Obj)(n)
        isw = z3.And(spec.S(n), h.stored(n))
        ctx.assume(z3.Implies(isw, z3.And(kind(w) == WRITE, owner(w) == n)))
        ctx.prove(t(["C09", "C03"], "the write of an out-of-date value comes before its read"), z3.Implies(spec.S(n), edge(w, node, Key.kDep)))
        ctx.assume(content == z3.If(isw, wrote(n), a.content(h.st(n))))
        ctx.assume(got(node) == content)
        ctx.assume(a.sound(n, spec))
        ctx.assume(z3.Implies(h.src(n), a.val(n) == a.content(h.st(n))))
        ctx.cover("source" if ctx.branch(h.src(n)) else "read back" if ctx.branch(spec.S(n)) else "read up to date")
        ctx.prove(t(props, "a read returns the from-scratch value of its node"), got(node) == a.val(n))
    elif what == 1:
        ctx.cover("call")
        # a call of the plan which is not a source: its arguments are those of the plan, each replaced by the read if the argument is registered
        ctx.assume(z3.And(node == n, kind(n) == ORIG, h.g.N0(n), z3.Not(h.src(n))))
        m, key = ctx.fresh("argument"), ctx.fresh("key", Key)
        ctx.assume(z3.And(h.g.E0(m, n, key), key != Key.kDep, z3.Not(z3.And(h.src(m), z3.Not(h.inr(m))))))
        read = z3.Function("store_read", Obj, Obj)(m)
        giver = z3.If(h.inr(m), read, m)
        ctx.prove(t(props + ["C02"], "an argument comes from the node, or from the read of its store"), edge(giver, node, key))
        other = ctx.fresh("other")
        ctx.assume(z3.ForAll([u], z3.Implies(kind(u) == READ, u == z3.Function("store_read", Obj, Obj)(owner(u))), patterns=[kind(u)]))
        # in the plan an argument position has one node (plan.call)
        ctx.assume(z3.ForAll([u], z3.Implies(h.g.E0(u, n, key), u == m)))
        ctx.prove(t(props + ["C02"], "and from nowhere else"), z3.Implies(edge(other, node, key), other == giver))
        ctx.prove(t(props, "a call receives the from-scratch values of its arguments"), got(giver) == a.val(m))
    else:
        ctx.cover("write")
        ctx.assume(z3.And(kind(node) == WRITE, owner(node) == n, h.stored(n), h.inr(n), spec.S(n), h.g.N0(n)))
        ctx.prove(t(props, "what is written is what the node computed"), edge(n, node, Key.kPos(1)))
        ctx.prove(t(props, "a write writes the from-scratch value of its node"), got(n) == a.val(n))


@unit("history.order", ["C08", "C09", "C01", "C05"], covers=("step", "end"))
def order(ctx, it):
    """Lemma (step): in the physical plan, the write of a rebuilt value comes before everything that depends on the node in the plan, and before their writes and reads."""
    h = History(ctx, it)
    a = State(h, "start")
    spec = a.with_fresh((z3.Bool("fresh_time_given"), z3.Real("fresh_time")))
    lit, read, write = constants(it)
    sp = Spliced(ctx, h.g.E0, h.g.N0, spec.S, lambda n: RV.source(h.ent(n)))
    edge = lambda u, v, k: sp.edge(h.inr, u, v, k)
    x, n, m = ctx.fresh("x"), ctx.fresh("n"), ctx.fresh("m")
    key = ctx.fresh("key", Key)
    after = ctx.fresh_fn("after_the_write_of_x", Obj, B)
    u = z3.Const("hu", Obj)
    ctx.assume(z3.ForAll([u], z3.Implies(h.g.N0(u), kind(u) == ORIG), patterns=[h.g.N0(u)]))
    ctx.assume(z3.And(h.inr(x), spec.S(x), h.g.N0(x), after(write(x))))
    spec.unfold(n)
    spec.unfold(m)
    # after is closed under the edges of the physical plan; instances that the proof needs
    closed = lambda p, q, kk: ctx.assume(z3.Implies(z3.And(after(p), edge(p, q, kk)), after(q)))
    ctx.assume(h.g.E0(m, n, key))
    ctx.assume(z3.Implies(h.src(n), key == Key.kDep))
    # m is x, or downstream of x and the claim holds for it
    claim = lambda y: z3.And(spec.S(y), after(y), z3.Implies(h.inr(y), z3.And(after(write(y)), after(read(y)))))
    ctx.assume(z3.Or(m == x, claim(m)))
    closed(write(m), read(m), Key.kDep)
    closed(write(m), n, Key.kDep)
    closed(read(m), n, key)
    closed(m, n, key)
    closed(n, write(n), Key.kPos(1))
    closed(m, write(n), Key.kDep)
    closed(write(m), write(n), Key.kDep)
    closed(write(n), read(n), Key.kDep)
    ctx.cover("step")
    P = ["C08", "C09", "C01", "C05"]
    ctx.prove(t(P, "what depends on a rebuilt value is out of date"), spec.S(n))
    ctx.prove(t(P, "what depends on a rebuilt value comes after its write"), after(n))
    ctx.prove(t(P, "its own write comes after it too"), z3.Implies(h.inr(n), after(write(n))))
    ctx.prove(t(P, "and so does its read"), z3.Implies(h.inr(n), after(read(n))))
    ctx.cover("end")


@unit("history.settled", ["C05", "C08"], covers=("bound", "settled"))
def settled(ctx, it):
    """Lemma: a value written in a run, after all out-of-date values upstream were (history.order), is up to date for the next run, unless something upstream changes or fresh_time is advanced.
    After a successful run, which writes all of them, nothing is out of date."""
    h = History(ctx, it)
    a, b = State(h, "start"), State(h, "later")
    fresh = (z3.Bool("fresh_time_given"), z3.Real("fresh_time"))
    sa, sb = a.with_fresh(fresh), b.with_fresh(fresh)
    now = z3.Real("start_of_the_run")
    wrote = ctx.fresh_fn("was_written", Obj, B)
    o = z3.Const("ho", Obj)
    n = ctx.fresh("n")
    p = h.p
    A = ctx.assume
    A(z3.ForAll([p], z3.Implies(wrote(p), z3.And(h.stored(p), sa.S(p), b.present(h.st(p)), b.time(p) > now)), patterns=[wrote(p)]))
    A(z3.ForAll([p], z3.Implies(z3.And(h.inr(p), z3.Not(wrote(p))), z3.And(b.present(h.st(p)) == a.present(h.st(p)), b.mtime(h.st(p)) == a.mtime(h.st(p)))), patterns=[wrote(p)]))
    A(z3.ForAll([o], z3.Implies(a.present(o), instant(a.mtime(o)) < now), patterns=[a.present(o)]))
    A(z3.Implies(fresh[0], fresh[1] <= now))
    # Done: everything out of date that is stored there was written; closed upwards
    done = ctx.fresh_fn("upstream_of_what_was_written", Obj, B)
    A(z3.ForAll([p], z3.Implies(z3.And(done(p), h.inr(p), sa.S(p)), wrote(p)), patterns=[done(p)]))
    h.ih(n, lambda q: done(q))
    A(done(n))
    sa.unfold(n)
    sb.unfold(n)
    A(wrote(n) == wrote(n))
    if ctx.choose(2, "step") == 0:
        # for an arbitrary z that was written: all times at or above the predecessors of z are earlier than that of z
        ctx.cover("bound")
        z = ctx.fresh("z")
        A(wrote(z))
        above = ctx.fresh_fn("above_z", Obj, B)
        A(above(n))
        h.ih(n, lambda q: z3.And(above(q), z3.Implies(sb.has_m(q), sb.m(q) < b.time(z))))
        A(z3.ForAll([p], z3.Implies(z3.And(above(p), wrote(p)), b.time(p) < b.time(z)), patterns=[above(p)]))
        ctx.prove(t(["C05", "C08"], "times upstream of a value that was written are earlier than its own (step)"), z3.Implies(sb.has_m(n), sb.m(n) < b.time(z)))
    else:
        ctx.cover("settled")
        # by the first step, for n itself if it was written
        A(z3.Implies(wrote(n), z3.ForAll([p], z3.Implies(z3.And(h.P(p, n), sb.has_m(p)), sb.m(p) < b.time(n)), patterns=[h.P(p, n)])))
        same = lambda q: z3.Implies(z3.Not(sa.S(q)), z3.And(sa.has_m(q) == sb.has_m(q), z3.Implies(sa.has_m(q), sa.m(q) == sb.m(q))))
        h.ih(n, lambda q: z3.And(z3.Not(sb.S(q)), same(q)))
        ctx.prove(t(["C05", "C08"], "what was not out of date passes on the same time (step)"), same(n))
        ctx.prove(t(["C05", "C08"], "what was written, and all that was up to date, is up to date afterwards (step)"), z3.Not(sb.S(n)))


@unit("history.needed", ["C05", "C04"], covers=("up to date", "read", "nothing"))
def needed(ctx, it):
    """Lemma: what prune.plan keeps of the spliced graph: no call of an up-to-date or source node, a read only for a consumer or the output, a call without store only for something that needs it."""
    h = History(ctx, it)
    a = State(h, "start")
    spec = a.with_fresh((z3.Bool("fresh_time_given"), z3.Real("fresh_time")))
    lit, read, write = constants(it)
    sp = Spliced(ctx, h.g.E0, h.g.N0, spec.S, lambda n: RV.source(h.ent(n)))
    edge = lambda u, v, k: sp.edge(h.inr, u, v, k)
    out, w, n = ctx.fresh("output"), ctx.fresh("w"), ctx.fresh("n")
    has_out = z3.Bool("output_requested")
    required = lambda x: z3.Or(z3.And(kind(x) == WRITE, h.inr(owner(x)), spec.S(owner(x)), h.g.N0(owner(x))), z3.And(has_out, x == out))
    kept = ctx.fresh_fn("kept", Obj, B)
    nxt, key = ctx.fresh_fn("kept_for", Obj, Obj), ctx.fresh_fn("kept_by", Obj, Key)
    u = z3.Const("hu", Obj)
    A = ctx.assume
    A(z3.ForAll([u], z3.Implies(h.g.N0(u), kind(u) == ORIG), patterns=[h.g.N0(u)]))
    # prune.plan, prune.ancestors: the least set that contains what is required and is closed under predecessors
    A(z3.ForAll([u], z3.Implies(kept(u), z3.Or(required(u), z3.And(kept(nxt(u)), edge(u, nxt(u), key(u))))), patterns=[kept(u)]))
    # vstores.plan: the output of a registered node is its read
    A(z3.Implies(has_out, z3.Or(z3.And(kind(out) == READ, h.inr(owner(out))), z3.And(kind(out) == ORIG, z3.Not(h.inr(out))))))
    what = ctx.choose(3, "what")
    if what == 0:
        ctx.cover("up to date")
        A(z3.And(h.g.N0(n), h.inr(n), z3.Or(z3.Not(spec.S(n)), h.src(n))))
        ctx.prove(t(["C05", "C04"], "a call whose stored value is up to date is not executed, nor that of a source"), z3.Not(kept(n)))
        A(z3.And(kind(w) == WRITE, owner(w) == n, h.inr(n), z3.Not(spec.S(n))))
        ctx.prove(t(["C05"], "an up-to-date value is not written"), z3.And(z3.Not(required(w)), z3.ForAll([u, z3.Const("hk", Key)], z3.Not(edge(w, u, z3.Const("hk", Key))))))
    elif what == 1:
        ctx.cover("read")
        A(z3.And(kind(w) == READ, kept(w)))
        v, k = nxt(w), key(w)
        ctx.prove(t(["C05"], "a store is read only if the output is its value or a call that is executed consumes it"),
                  z3.Or(z3.And(has_out, w == out), z3.And(kept(v), kind(v) == ORIG, k != Key.kDep, h.g.E0(owner(w), v, k))))
    else:
        ctx.cover("nothing")
        x = z3.Const("hx2", Obj)
        A(z3.ForAll([x], z3.Not(spec.S(x))))
        A(z3.Not(has_out))
        # least: contained in every set that contains what is required and is closed under predecessors, the empty set for one
        empty = lambda y: z3.BoolVal(False)
        A(z3.Implies(z3.And(z3.ForAll([x], z3.Implies(required(x), empty(x)))), z3.ForAll([x], z3.Implies(kept(x), empty(x)))))
        ctx.prove(t(["C05"], "when nothing is out of date and no output is requested, nothing is executed, read or written"), z3.Not(kept(w)))
