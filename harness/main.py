"""python -m harness.main C01 --seed 1 --seconds 20 [--jobs 8] [--replay FILE] --out result.json"""
import argparse
import json
import multiprocessing
import os
import sys
import time
import traceback
import zlib

os.environ.setdefault("PYTHONHASHSEED", "0")


def table():
    from . import registry_of_checks

    return registry_of_checks.CHECKS


def one(prop, seed, i):
    fns = table()[prop]
    fn = fns[i % len(fns)]
    return fn.__name__, fn(seed, i)


def worker(prop, base, k, jobs, seconds, limit, q):
    stats, viol, n = {}, [], 0
    end = time.time() + seconds
    errors = []
    i = k
    nontrivial = 0
    try:
        sys.setrecursionlimit(3000)
        while time.time() < end and n < limit:
            seed = zlib.crc32(f"{prop}/{base}/{i}".encode())
            try:
                name, (bad, st) = one(prop, seed, i)
            except MemoryError:
                break
            except Exception:
                errors.append({"seed": seed, "i": i, "error": traceback.format_exc()[-2500:]})
                bad, st = [], {}
                if len(errors) > 200:
                    break
            n += 1
            if any(st.values()):
                nontrivial += 1
            for key, v in st.items():
                stats[key] = stats.get(key, 0) + v
            if bad:
                viol.append({"scenario": name, "seed": seed, "i": i, "observed": [str(b)[:600] for b in bad[:5]]})
                if len(viol) >= 3:
                    break
            i += jobs
    except BaseException:
        errors.append({"seed": seed, "i": i, "error": "worker died: " + traceback.format_exc()[-2500:]})
    finally:
        q.put({"n": n, "nontrivial": nontrivial, "stats": stats, "violations": viol, "errors": errors})
        q.close()
        q.join_thread()
        os._exit(0)


def run(prop, seed, seconds, jobs, limit):
    ctx = multiprocessing.get_context("fork")
    table()[prop]
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(prop, seed, k, jobs, seconds, limit, q)) for k in range(jobs)]
    for p in ps:
        p.start()
    out = []
    deadline = time.time() + seconds + 140
    while len(out) < jobs and time.time() < deadline:
        try:
            out.append(q.get(timeout=1))
        except Exception:
            if not any(p.is_alive() for p in ps):
                try:
                    while True:
                        out.append(q.get(timeout=0.5))
                except Exception:
                    break
    for p in ps:
        if p.is_alive():
            p.kill()
    res = {"n": 0, "nontrivial": 0, "stats": {}, "violations": [], "errors": [], "lost_workers": jobs - len(out)}
    for o in out:
        res["n"] += o["n"]
        res["nontrivial"] += o["nontrivial"]
        for k, v in o["stats"].items():
            res["stats"][k] = res["stats"].get(k, 0) + v
        res["violations"] += o["violations"]
        res["errors"] += o["errors"][:20]
    res["violations"].sort(key=lambda v: v["i"])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=15)
    ap.add_argument("--limit", type=int, default=10**9)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        v = rec["violation"]
        for attempt in range(20):
            name, (bad, st) = one(a.prop, v["seed"], v["i"])
            if bad:
                print("REPRODUCED", name)
                for b in bad:
                    print(" ", b)
                os._exit(1)
        print("not reproduced in 20 attempts")
        os._exit(0)
    t = time.time()
    res = run(a.prop, a.seed, a.seconds, a.jobs, a.limit)
    res["wall_s"] = round(time.time() - t, 2)
    text = json.dumps(res, indent=1)
    if a.out:
        with open(a.out, "w") as f:
            f.write(text)
    else:
        print(text[:6000])
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
