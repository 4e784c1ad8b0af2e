"""Units: a unit is a set of obligations about some functions of the repository, explored path by path."""
import os
import time
import traceback

from ..core import Budget, Explorer, PathEnd, PyRaise, Unsupported
from ..interp import Interp
from ..values import Inst

UNITS = {}


class Unit:
    def __init__(self, name, fn, props, max_time, max_paths, covers, timeout_ms):
        self.name, self.fn, self.props, self.max_time, self.max_paths = name, fn, props, max_time, max_paths
        self.covers, self.timeout_ms = covers, timeout_ms


def unit(name, props, *, max_time=150.0, max_paths=20000, covers=(), timeout_ms=5000):
    def deco(fn):
        UNITS[name] = Unit(name, fn, props, max_time, max_paths, covers, timeout_ms)
        return fn

    return deco


def tag(props, text):
    return f"[{','.join(props)}] {text}"


def returns(ctx, name, thunk):
    """The value of thunk(), which must not raise."""
    try:
        return thunk()
    except PyRaise as e:
        ctx.prove(f"{name} ({describe_exc(e.exc)[:60]})", False)
        raise PathEnd()


def prop_tags(name):
    if name.startswith("["):
        return set(name[1:name.index("]")].split(","))
    return None


def describe_exc(e):
    if isinstance(e, Inst):
        c = e.cls
        return f"{getattr(c, 'name', c)}{e.attrs.get('args', '')}"
    return repr(e)


def run_unit(name, tier):
    u = UNITS[name]
    smt_dir = os.environ.get("PYVC_SMT_DIR")
    scale = 1.0 if tier == "quick" else 5.0
    x = Explorer(name, max_paths=u.max_paths * (1 if tier == "quick" else 3), max_time=u.max_time * scale, timeout_ms=int(u.timeout_ms * (1 if tier == "quick" else 3)),
                 smt_dir=smt_dir)
    t0 = time.time()
    status, why = "ok", ""
    try:
        def path(ctx):
            it = Interp(ctx)
            try:
                u.fn(ctx, it)
            except (Unsupported, Budget):
                raise
            except BaseException:
                it.check_static()
                raise
            it.check_static()

        x.run(path)
    except Unsupported as e:
        status, why = "unsupported", str(e)
        if os.environ.get("PYVC_TRACE"):
            why += traceback.format_exc()[-2500:]
    except Budget as e:
        status, why = "budget", str(e)
    except PyRaise as e:
        status, why = "unsupported", f"unexpected exception {describe_exc(e.exc)}"
    except RecursionError:
        status, why = "unsupported", "recursion in the verifier"
    except PathEnd:
        status, why = "internal", "path end escaped"
    except Exception:
        status, why = "internal", traceback.format_exc()[-1500:]
    obl = [{"name": o.name, "status": o.status, "detail": o.detail, "backend": o.backend, "time": round(o.time, 4)} for o in x.obligations]
    if status == "ok":
        if not obl:
            status, why = "vacuous", "no obligation was generated"
        else:
            missing = [c for c in u.covers if c not in x.reached]
            if missing:
                status, why = "vacuous", "never reached: " + ", ".join(missing)
    return {"unit": name, "status": status, "why": why, "obligations": obl, "functions": sorted(x.persist.get("executed", ())), "paths": x.paths,
            "covers": x.reached, "seconds": round(time.time() - t0, 2), "assumed": sorted(x.assumed), "solver_time": round(x.solver_time, 2),
            "queries": x.queries, "props": list(u.props)}
