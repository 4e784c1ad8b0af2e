"""Datetimes: awareness, the instant they denote, and what their fields read (assumed contract of datetime)."""
import ast

import z3

from ..core import B, I, IteV, Obj, Opaque, R, SV, Unsupported
from ..interp import alloc
from ..values import BuiltinCls, Model, Schema
from .fs import instant

aware = z3.Function("is_aware", Obj, B)
wall = z3.Function("wall_time", Obj, R)
shifted = z3.Function("in_utc", Obj, Obj)
UTC = Opaque("datetime.timezone.utc")
TZ = Opaque("tzinfo")
CMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}


class Naive(Schema):
    """A naive datetime, given by what its fields read (kind real)."""

    name = "naive datetime"

    def truth(self, it, sv):
        return True

    def as_num(self, it, sv):
        return sv.t

    def isinstance(self, it, sv, cls):
        import datetime

        return isinstance(cls, BuiltinCls) and cls.cls in (datetime.datetime, datetime.date, object)

    def type_is(self, it, sv, cls):
        import datetime

        return isinstance(cls, BuiltinCls) and cls.cls is datetime.datetime

    def order(self, it, op, a, b):
        if isinstance(b, SV) and b.tag is NAIVE:
            return CMP[type(op)](a.t, b.t)
        if isinstance(b, SV) and b.tag is TIME:
            if it.ctx.branch(aware(b.t)):
                it.raise_(TypeError, "can't compare offset-naive and offset-aware datetimes")
            return CMP[type(op)](a.t, wall(b.t))
        it.raise_(TypeError, "ordering of a datetime and something else")

    def getattr(self, it, sv, name):
        if name == "tzinfo":
            return None
        raise Unsupported(f"datetime.{name}")


NAIVE = Naive()


class When(Schema):
    """Any datetime, naive (local time) or aware."""

    name = "datetime"

    def truth(self, it, sv):
        return True

    isinstance = Naive.isinstance
    type_is = Naive.type_is

    def order(self, it, op, a, b):
        f = CMP[type(op)]
        if isinstance(b, SV) and b.tag is TIME:
            if it.ctx.branch(z3.And(aware(a.t), aware(b.t))):
                return f(instant(a.t), instant(b.t))
            if it.ctx.branch(z3.Or(aware(a.t), aware(b.t))):
                it.raise_(TypeError, "can't compare offset-naive and offset-aware datetimes")
            return f(wall(a.t), wall(b.t))
        if isinstance(b, SV) and b.tag is NAIVE:
            if it.ctx.branch(aware(a.t)):
                it.raise_(TypeError, "can't compare offset-naive and offset-aware datetimes")
            return f(wall(a.t), b.t)
        it.raise_(TypeError, "ordering of a datetime and something else")

    def getattr(self, it, sv, name):
        if name == "tzinfo":
            if it.ctx.branch(aware(sv.t)):
                return TZ
            return None
        if name == "timestamp":
            return Model(name, lambda it, a, k: SV(instant(sv.t)))
        if name == "astimezone":
            def astimezone(it, a, k):
                tz = a[0] if a else k.get("tz")
                if it.resolve(tz) is None:
                    # to local time: what the fields read does not grow with the instant (daylight saving time)
                    t = z3.Function("in_local_time", Obj, Obj)(sv.t)
                    it.ctx.assume(z3.And(aware(t), instant(t) == instant(sv.t), t != it.none_term()))
                    return SV(t, "obj", TIME)
                if it.resolve(tz) is not UTC:
                    raise Unsupported("astimezone to another zone than UTC")
                it.ctx.x.assumed.add("datetime.astimezone(utc) denotes the same instant (naive values are local times); times are not within a day of datetime.min or datetime.max")
                t = shifted(sv.t)
                it.ctx.assume(z3.And(aware(t), instant(t) == instant(sv.t), wall(t) == instant(sv.t), t != it.none_term()))
                return SV(t, "obj", TIME)
            return Model(name, astimezone)
        if name == "replace":
            def replace(it, a, k):
                if a or set(k) - {"tzinfo"}:
                    raise Unsupported("datetime.replace")
                if not k:
                    return sv
                tz = it.resolve(k["tzinfo"])
                if tz is None:
                    return SV(wall(sv.t), "real", NAIVE)
                if tz is UTC:
                    t = z3.Function("labelled_utc", Obj, Obj)(sv.t)
                    it.ctx.assume(z3.And(aware(t), instant(t) == wall(sv.t), wall(t) == wall(sv.t), t != it.none_term()))
                    return SV(t, "obj", TIME)
                raise Unsupported("datetime.replace(tzinfo)")
            return Model(name, replace)
        raise Unsupported(f"datetime.{name}")


TIME = When()


def install_times(it):
    it.externs["datetime.timezone.utc"] = UTC
    it.externs["datetime.UTC"] = UTC
