"""The check of one property: layer A (deductive obligations) and layer B (bounded stand-in and replay)."""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNTIME_PYTHON = "/opt/venv/bin/python"


def harness(prop, seed, seconds, out, extra=()):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    try:
        os.unlink(out)
    except OSError:
        pass
    cmd = [RUNTIME_PYTHON, "-m", "harness.main", prop, "--seed", str(seed), "--seconds", str(seconds), "--out", out, *extra]
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=seconds + 200)
        tail = p.stdout[-2000:]
    except subprocess.TimeoutExpired:
        tail = "timeout"
    try:
        with open(out) as f:
            return json.load(f), " ".join(cmd)
    except (OSError, ValueError):
        return {"n": 0, "nontrivial": 0, "stats": {}, "violations": [], "errors": [{"error": tail}], "lost_workers": 0, "wall_s": 0}, " ".join(cmd)


def confirm(prop, path):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([RUNTIME_PYTHON, "-m", "harness.main", prop, "--replay", path], cwd=HERE, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    return p.returncode == 1 and "REPRODUCED" in p.stdout, p.stdout[-3000:]


def known_findings():
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding:"):
                fields = line[len("finding:"):].strip().split(" ", 1)
                out.append((fields[0].split("=", 1)[1], fields[1]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--only", choices=["A", "B"])
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    start = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    from . import runner

    deduct = runner.run_property(prop, tier) if a.only != "B" else runner.empty()
    clean = deduct.clean
    base = {"quick": 18.0, "thorough": 240.0}[tier]
    budget = a.seconds if a.seconds is not None else base if clean else 2.5 * base
    res, cmd = harness(prop, seed, budget, os.path.join(HERE, "replays", f"{prop}.harness.json")) if a.only != "A" else (
        {"n": 0, "nontrivial": 0, "stats": {}, "violations": [], "errors": [], "lost_workers": 0, "wall_s": 0}, "")
    replay = os.path.join("replays", f"{prop}.json")
    violation = None
    unconfirmed = []
    for v in res["violations"]:
        rec = {"property": prop, "kind": "failing-input", "replay_cmd": f"cd {HERE} && {RUNTIME_PYTHON} -m harness.main {prop} --replay {replay}",
               "violation": v, "failed_obligations": deduct.failed}
        with open(os.path.join(HERE, replay), "w") as f:
            json.dump(rec, f, indent=1)
        ok, text = confirm(prop, replay)
        if ok:
            rec["observed_on_replay"] = text
            with open(os.path.join(HERE, replay), "w") as f:
                json.dump(rec, f, indent=1)
            violation = "input"
            break
        unconfirmed.append(v)
    if violation is None and deduct.failed:
        violation = "proof"
        with open(os.path.join(HERE, replay), "w") as f:
            json.dump({"property": prop, "kind": "failed-obligation", "failed_obligations": deduct.failed,
                       "note": "no failing input was found by the bounded search"}, f, indent=1)
    findings = [t for p, t in known_findings() if p == prop]
    cov = deduct.coverage()
    cov["checker_cmd"] = f"bin/check {prop} --tier {tier}"
    cov["bounded_standin"] = {
        "cmd": cmd, "evaluations": res["n"], "distinct_nontrivial": res["nontrivial"], "stats": res["stats"], "budget_s": budget,
        "wall_s": res.get("wall_s"), "harness_errors": len(res["errors"]), "first_error": res["errors"][:1],
        "lost_workers": res["lost_workers"], "unconfirmed": unconfirmed[:3],
        "label": "bounded: random programs, histories, schedules and faults; never counted as proved",
    }
    level = "proof" if cov.get("obligations") else "exploration"
    if level == "exploration":
        cov["evaluations"] = res["n"]
        cov["distinct_nontrivial"] = res["nontrivial"]
        cov["rule"] = "seeded random cases; non-trivial when at least one counted event happened"
        cov["samples"] = [{"seed": seed, "stats": res["stats"]}]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": deduct.assumptions(),
          "wall_s": round(time.time() - start, 2), "violations": 1 if violation else 0, "known_findings": findings}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}] obligations {cov.get('obligations', 0)}, discharged {cov.get('discharged', 0)}, "
          f"out of reach {len(cov.get('out_of_reach', []))}, solver {cov.get('solver_time_s', 0)} s; "
          f"bounded stand-in: {res['n']} cases, {len(res['errors'])} harness errors; {ev['wall_s']} s")
    for x in cov.get("out_of_reach", []):
        print("  out of reach (bounded stand-in decides):", x)
    for t in findings:
        print(f"KNOWN-FINDING: property={prop} {t}")
    if violation == "input":
        for b in rec["violation"]["observed"]:
            print("  observed:", b)
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if violation == "proof":
        for text in list(dict.fromkeys(f'{o["unit"]} :: {o["name"]}' for o in deduct.failed))[:10]:
            print("  failed obligation:", text)
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
