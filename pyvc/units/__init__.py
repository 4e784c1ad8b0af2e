"""The deductive units, by property."""
from . import base, graphs, physical, pool, retry, stale, stores, vstores, pruning, acyclic, scheduler, runs, arguments, plans, trace, plan_api, progress, displays, small, history
from .base import UNITS, prop_tags, run_unit

PROPERTIES = {}
for _u in UNITS.values():
    for _p in _u.props:
        PROPERTIES.setdefault(_p, []).append(_u.name)
