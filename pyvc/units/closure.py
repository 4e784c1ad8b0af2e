"""Reachability: the least transitive relation over the edges of a graph."""
import z3

from ..core import B, Obj


class Closure:
    """R is the least transitive relation which contains P (a function of two terms)."""

    def __init__(self, ctx, P, name="reach"):
        self.ctx, self.P = ctx, P
        self.R = ctx.fresh_fn(name, Obj, Obj, B)
        u, v, w = z3.Const("cu", Obj), z3.Const("cv", Obj), z3.Const("cw", Obj)
        R = self.R
        ctx.assume(z3.ForAll([u, v], z3.Implies(P(u, v), R(u, v))))
        ctx.assume(z3.ForAll([u, v, w], z3.Implies(z3.And(R(u, v), R(v, w)), R(u, w)), patterns=[z3.MultiPattern(R(u, v), R(v, w))]))

    def __call__(self, u, v):
        return self.R(u, v)

    def least(self, prove, Q, text):
        """R is contained in Q, because Q is transitive and contains P (two obligations)."""
        ctx = self.ctx
        u, v, w = ctx.fresh("lu"), ctx.fresh("lv"), ctx.fresh("lw")
        prove(f"{text}: edges", z3.Implies(self.P(u, v), Q(u, v)))
        prove(f"{text}: paths", z3.Implies(z3.And(Q(u, v), Q(v, w)), Q(u, w)))
        a, b = z3.Const("qa", Obj), z3.Const("qb", Obj)
        ctx.assume(z3.ForAll([a, b], z3.Implies(self.R(a, b), Q(a, b)), patterns=[self.R(a, b)]))
