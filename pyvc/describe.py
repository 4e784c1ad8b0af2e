"""python -m pyvc.describe [RESULTS]: writes UNITS.md, the list of units with their contracts and obligation names, from a run."""
import os

from . import runner
from .units import PROPERTIES
from .units.base import UNITS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    results = {r["unit"]: r for r in runner.run_units(sorted(UNITS), "quick")}
    out = ["# Units", "", "Written by `python -m pyvc.describe`; the numbers are those of its last run (the evidence files have those of every run).", "",
           f"{len(results)} units, {sum(len(r['obligations']) for r in results.values())} obligations, "
           f"{sum(o['status'] == 'discharged' for r in results.values() for o in r['obligations'])} discharged.", "", "## By property", ""]
    for p in sorted(PROPERTIES):
        n = sum(runner.serves(o["name"], p) for u in PROPERTIES[p] for o in results[u]["obligations"])
        out.append(f"* **{p}** ({n} obligations): " + ", ".join(f"`{u}`" for u in PROPERTIES[p]))
    out += ["", "## Units", ""]
    for name in UNITS:
        r, u = results[name], UNITS[name]
        out.append(f"### {name}")
        out.append("")
        out.append(" ".join((u.fn.__doc__ or "").split()))
        out.append("")
        out.append(f"{r['status']}; {len(r['obligations'])} obligations on {r['paths']} paths. Executes: " + ", ".join(f"`{f.replace('uberjob.', '')}`" for f in r["functions"]))
        out.append("")
        out += [f"* {n}" for n in sorted({o["name"] for o in r["obligations"]})]
        out.append("")
    with open(os.path.join(HERE, "UNITS.md"), "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
