"""Runs the deductive units of a property, each in its own process."""
import json
import multiprocessing
import os
import time
import traceback


class Deduct:
    def __init__(self, units, prop=None):
        """Obligation names start with the properties they serve: "[C01,C04] ..."; the others serve every property of their unit."""
        units = [dict(u, obligations=[o for o in u["obligations"] if serves(o["name"], prop)]) for u in units]
        self.units = units
        self.failed = []
        self.out = []
        for u in units:
            for o in u["obligations"]:
                if o["status"] == "failed" and not any(f["unit"] == u["unit"] and f["name"] == o["name"] for f in self.failed):
                    self.failed.append({"unit": u["unit"], "name": o["name"], "solver_output": o["detail"], "backend": o["backend"]})
            undecided = [o for o in u["obligations"] if o["status"] == "unknown"]
            if u["status"] != "ok":
                self.out.append(f"{u['unit']}: {u['status']}: {u['why']}")
            elif undecided:
                self.out.append(f"{u['unit']}: undecided: " + "; ".join(sorted({o["name"] for o in undecided})[:4]))

    @property
    def clean(self):
        return bool(self.units) and not self.failed and not self.out

    def coverage(self):
        if not self.units:
            return {}
        obl = [o for u in self.units for o in u["obligations"]]
        by = {}
        for o in obl:
            if o["status"] == "discharged":
                by[o["backend"]] = by.get(o["backend"], 0) + 1
        return {
            "obligations": len(obl),
            "discharged": sum(o["status"] == "discharged" for o in obl),
            "discharged_by": by,
            "solver_time_s": round(sum(u["solver_time"] for u in self.units), 2),
            "solver_queries": sum(u["queries"] for u in self.units),
            "paths": sum(u["paths"] for u in self.units),
            "functions_under_contract": sorted({f for u in self.units for f in u["functions"]}),
            "units": [{"unit": u["unit"], "status": u["status"], "why": u["why"], "obligations": len(u["obligations"]),
                       "discharged": sum(o["status"] == "discharged" for o in u["obligations"]), "paths": u["paths"],
                       "covers": u["covers"], "seconds": u["seconds"],
                       "names": sorted({o["name"] for o in u["obligations"]})[:200]} for u in self.units],
            "out_of_reach": self.out,
            "trusted_base": sorted({x for u in self.units for x in u["assumed"]}) + TRUSTED,
        }

    def assumptions(self):
        return sorted({x for u in self.units for x in u["assumed"]})


def serves(name, prop):
    if prop is None or not name.startswith("["):
        return True
    return prop in name[1:name.index("]")].split(",")


TRUSTED = ["pyvc: the interpreter of Python's semantics and its models of the standard library", "z3 4.x (python binding)", "cvc5 1.1.2 as second opinion"]


def empty():
    return Deduct([])


def run_property(prop, tier):
    try:
        from .units import PROPERTIES
    except ImportError:
        return empty()
    names = PROPERTIES.get(prop, [])
    if not names:
        return empty()
    return Deduct(run_units(names, tier), prop)


def _worker(name, tier, conn):
    try:
        from .units import run_unit

        conn.send(run_unit(name, tier))
    except BaseException:
        conn.send({"unit": name, "status": "internal", "why": traceback.format_exc()[-1500:], "obligations": [], "functions": [], "paths": 0,
                   "covers": {}, "seconds": 0, "assumed": [], "solver_time": 0, "queries": 0})
    conn.close()


def run_units(names, tier, jobs=None, limit=None):
    jobs = jobs or min(8, os.cpu_count() or 1)
    limit = limit or (240 if tier == "quick" else 1500)
    ctx = multiprocessing.get_context("fork")
    todo = list(names)
    running = {}
    results = {}
    while todo or running:
        while todo and len(running) < jobs:
            n = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(n, tier, w))
            p.start()
            w.close()
            running[n] = (p, r, time.time())
        for n, (p, r, t0) in list(running.items()):
            if r.poll(0.02):
                try:
                    results[n] = r.recv()
                except EOFError:
                    results[n] = None
            elif time.time() - t0 > limit or not p.is_alive():
                results[n] = None
            else:
                continue
            if results[n] is None:
                results[n] = {"unit": n, "status": "budget", "why": f"no answer within {limit} s or the process ended", "obligations": [],
                              "functions": [], "paths": 0, "covers": {}, "seconds": round(time.time() - t0, 1), "assumed": [],
                              "solver_time": 0, "queries": 0}
            p.kill()
            p.join()
            del running[n]
    return [results[n] for n in names]
