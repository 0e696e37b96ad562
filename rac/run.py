"""/opt/venv/bin/python -m rac.run PROP --seed S --tier T --budget SEC --out F | --replay F"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import numpy as np


def attempt(chk, params):
    from .lib import Fail, quiet
    try:
        with quiet():
            chk(json.loads(json.dumps(params)))
        return None
    except Fail as e:
        return {"message": str(e), "key": e.key}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return {"message": f"unexpected {type(e).__name__}: {e} at {[(f.filename.split('/')[-1], f.lineno) for f in tb[-4:]]}", "key": "exception"}


def worker(prop, names, seed, w, nw, budget, tier, q):
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    mod = importlib.import_module(f"rac.{prop}")
    checks = [c for c in mod.CHECKS if c["name"] in names]
    t0 = time.time()
    out = {"cases": {}, "violations": [], "time": {}, "seen": {}, "samples": []}

    def note(c, p):
        h = hashlib.md5(json.dumps([c["name"], p], sort_keys=True).encode()).hexdigest()
        if h not in out["seen"]:
            out["seen"][h] = 1
            if sum(x["check"] == c["name"] for x in out["samples"]) < 1:
                out["samples"].append({"check": c["name"], "params": p})
    mult = getattr(mod, "QUICK", 6) if tier == "quick" else getattr(mod, "THOROUGH", 40)
    state = [[c, np.random.default_rng([seed, w, k]), 0, c["n"] * mult, False] for k, c in enumerate(checks)]
    # fixed edge cases first (split between workers)
    for c, rng, *_ in state:
        for k, p in enumerate(c.get("edge", [])):
            if k % nw == w:
                v = attempt(c["check"], p)
                note(c, p)
                out["cases"][c["name"]] = out["cases"].get(c["name"], 0) + 1
                if v:
                    out["violations"].append(dict(v, check=c["name"], params=p))
    live = True
    while live and time.time() - t0 < budget:
        live = False
        for s in state:
            c, rng, done, n, dead = s
            if dead or done >= max(1, -(-n // nw)) or "gen" not in c:
                continue
            if time.time() - t0 >= budget:
                break
            live = True
            p = c["gen"](rng)
            t = time.time()
            v = attempt(c["check"], p)
            note(c, p)
            out["time"][c["name"]] = out["time"].get(c["name"], 0) + time.time() - t
            s[2] += 1
            out["cases"][c["name"]] = out["cases"].get(c["name"], 0) + 1
            if v:
                out["violations"].append(dict(v, check=c["name"], params=p))
                if sum(x["check"] == c["name"] and x["key"] == v["key"] for x in out["violations"]) >= 3:
                    s[4] = True
    q.put(out)


def run(prop, seed, tier, budget, nw):
    mod = importlib.import_module(f"rac.{prop}")
    names = [c["name"] for c in mod.CHECKS]
    ctx = mp.get_context("fork")
    nw = min(nw, getattr(mod, "WORKERS", nw))
    ps = []
    for w in range(nw):
        q = ctx.SimpleQueue()
        p = ctx.Process(target=worker, args=(prop, names, seed, w, nw, budget, tier, q))
        p.start()
        ps.append((p, q))
    tot = {"cases": {}, "violations": [], "time": {}, "errors": [], "distinct": 0, "samples": []}
    seen = set()
    t0 = time.time()
    hard = budget + 120
    for p, q in ps:
        while p.is_alive() and q.empty() and time.time() - t0 < hard:
            time.sleep(0.05)
        if q.empty():
            tot["errors"].append(f"worker ended without an answer (exit {p.exitcode})")
            p.kill()
            continue
        o = q.get()
        p.join(5)
        if p.is_alive():
            p.kill()
        for k, v in o["cases"].items():
            tot["cases"][k] = tot["cases"].get(k, 0) + v
        for k, v in o["time"].items():
            tot["time"][k] = round(tot["time"].get(k, 0) + v, 2)
        tot["violations"] += o["violations"]
        seen |= set(o["seen"])
        tot["distinct"] = len(seen)
        for x in o["samples"]:
            if not any(x["check"] == y["check"] for y in tot["samples"]):
                tot["samples"].append(x)
    return tot


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--tier", default="quick")
    a.add_argument("--budget", type=float, default=30)
    a.add_argument("--workers", type=int, default=4)
    a.add_argument("--out")
    a.add_argument("--replay")
    a = a.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        mod = importlib.import_module(f"rac.{a.prop}")
        c = {c["name"]: c for c in mod.CHECKS}[r["check"]]
        v = attempt(c["check"], r["params"])
        print("replay:", "contract holds" if v is None else "VIOLATED: " + v["message"])
        sys.exit(0 if v is None else 1)
    r = run(a.prop, a.seed, a.tier, a.budget, a.workers)
    if a.out:
        json.dump(r, open(a.out, "w"))
    else:
        print(json.dumps(r["cases"]), r["time"], r["errors"])
        for v in r["violations"][:12]:
            print(v["check"], v["key"], v["message"][:300], json.dumps(v["params"])[:200])


if __name__ == "__main__":
    main()
