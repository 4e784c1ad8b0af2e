"""get_argument_nodes: the positional and keyword arguments of a call, in the order in which they were given (C02, C01)."""
import z3

from ..core import I, Obj, SV, Unsupported
from ..models import as_z3
from ..values import Coll, DictV, ListV
from .base import returns, tag, unit
from .graphs import KEY, Key, NODE, GraphV, install_graph, is_call
from .physical import wellformed


def counting(it, E, t, wf):
    """The edges with positional keys into a well-formed call are as many as its positional arguments (a bijection), and so for keywords."""
    npos, nkw, parg, karg, kname = wf
    ctx = it.ctx
    ctx.x.assumed.add("two finite sets with a bijection between them have the same size (argument edges and argument positions)")

    def hook(it, c):
        if [x.sort() for x in c.xs] not in ([Obj, Key], [Obj, Obj, Key]):
            return None
        m = as_z3(c.mem)
        u, k = c.xs[-2:] if len(c.xs) == 2 else (c.xs[0], c.xs[-1])
        if len(c.xs) == 3:
            return None
        for is_, n in ((Key.is_kPos(k), npos(t)), (Key.is_kKw(k), nkw(t))):
            if ctx._check(m != z3.And(E(u, t, k), is_), timeout=4000) == z3.unsat:
                return n
        return None

    ctx.extra["card_hooks"] = [hook]

    def hint(j):
        for n, f, key in ((npos, parg, Key.kPos(j)), (nkw, karg, Key.kKw(kname(t, j), j))):
            ctx.assume(z3.Implies(z3.And(0 <= j, j < n(t)), E(f(t, j), t, key)))

    ctx.extra["index_hints"] = [hint]


@unit("args.get_argument_nodes", ["C01", "C02"], covers=("end",))
def argument_nodes(ctx, it):
    """get_argument_nodes: exactly the positional arguments in order and the keyword arguments under their names, whatever the order of the edges."""
    install_graph(it)
    g = GraphV(ctx, "g")
    wf = wellformed(it, g)
    npos, nkw, parg, karg, kname = wf
    call = SV(ctx.fresh("call"), "obj", NODE)
    t = call.t
    ctx.assume(z3.And(g.N0(t), is_call(t)))
    i, j = z3.Const("ai", I), z3.Const("aj", I)
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < nkw(t), 0 <= j, j < nkw(t), kname(t, i) == kname(t, j)), i == j), patterns=[z3.MultiPattern(kname(t, i), kname(t, j))]))
    counting(it, g.E0, t, wf)
    p = lambda text: tag(["C01", "C02"], "argument nodes: " + text)
    args, kwargs = it.as_tuple(it.resolve(returns(ctx, p("does not raise"), lambda: it.call(it.glob("uberjob.graph.get_argument_nodes"), [g, call], {}))))
    args, kwargs = it.resolve(args), it.resolve(kwargs)
    ctx.cover("end")
    segs = it.iter_segs(args)
    ctx.prove(p("as many positional arguments as positional edges"), it.eq(it.models.seq_len(it, segs), SV(npos(t))))
    at = ctx.fresh("i", I)
    if not (len(segs) == 1 and segs[0][0] == "coll" and segs[0][1].ordered and len(segs[0][1].xs) == 1 and segs[0][1].xs[0].sort() == I):
        raise Unsupported("shape of the positional arguments")
    m, e, _ = segs[0][1].at([at])
    here = z3.And(0 <= at, at < npos(t))
    ctx.prove(p("there is an argument at every position"), z3.Implies(here, as_z3(m)))
    ctx.assume(z3.Implies(here, g.E0(parg(t, at), t, Key.kPos(at))))
    ctx.prove(p("the argument at position i is the node of the edge with index i"), z3.Implies(here, it.term(e) == parg(t, at)))
    if not isinstance(kwargs, DictV) or not (len(kwargs.ops) == 1 and kwargs.ops[0][0] == "coll" and len(kwargs.ops[0][1].xs) == 1 and kwargs.ops[0][1].xs[0].sort() == I):
        raise Unsupported("shape of the keyword arguments")
    c = kwargs.ops[0][1]
    if not c.ordered:
        raise Unsupported("order of the keyword arguments")
    ctx.prove(p("as many keyword arguments as keyword edges"), it.models.coll_len(it, c) == nkw(t))
    m, e, _ = c.at([at])
    here = z3.And(0 <= at, at < nkw(t))
    ctx.prove(p("there is a keyword for every keyword edge"), z3.Implies(here, as_z3(m)))
    ctx.assume(z3.Implies(here, g.E0(karg(t, at), t, Key.kKw(kname(t, at), at))))
    ctx.prove(p("keyword i has the name of edge i"), z3.Implies(here, it.term(e[0]) == kname(t, at)))
    ctx.prove(p("keyword i has the node of edge i"), z3.Implies(here, it.term(e[1]) == karg(t, at)))
    ctx.prove(p("the graph is not changed"), not g.ops)
