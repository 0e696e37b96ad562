"""Executable contract of C16: same seed, same answer, whatever happened before."""
from .lib import *
import copy
import hashlib
import os
import subprocess
import sys
import json as _json

SAMPLERS = ["sobol", "latin", "morris", "morris_opt", "morris_groups", "fast_sampler", "finite_diff", "ff"]
ANALYZERS = ["sobol", "sobol_2", "morris", "morris_groups", "fast", "rbd_fast", "dgsm", "delta", "pawn", "rsa", "hdmr", "enhanced_hdmr", "discrepancy", "ff"]
SLOW = {"hdmr", "enhanced_hdmr", "sobol_2"}


def prob(D=3, groups=None):
    p = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[-1.0, 2.0 + i] for i in range(D)]}
    if groups:
        p["groups"] = groups
    return p


def do_sample(m, seed):
    import SALib.sample.sobol as so, SALib.sample.latin as la, SALib.sample.morris as mo, SALib.sample.fast_sampler as fa, SALib.sample.finite_diff as fd, SALib.sample.ff as ff
    if m == "sobol":
        return so.sample(prob(), 8, seed=seed)
    if m == "latin":
        return la.sample(prob(4, ["b", "a", "b", "c"]), 9, seed=seed)
    if m == "morris":
        return mo.sample(prob(), 5, seed=seed)
    if m == "morris_opt":
        return mo.sample(prob(), 6, optimal_trajectories=3, seed=seed)
    if m == "morris_groups":
        return mo.sample(prob(4, ["b", "a", "b", "c"]), 5, num_levels=6, seed=seed)
    if m == "fast_sampler":
        return fa.sample(prob(), 70, M=3, seed=seed)
    if m == "finite_diff":
        return fd.sample(prob(), 6, delta=0.02, seed=seed)
    return ff.sample(prob(), seed=seed)


def data(D, N, s=5):
    g = np.random.default_rng(s)
    X = g.random((N, D)) * 3 - 1
    Y = X[:, 0] ** 2 + X @ np.arange(1, D + 1) + 0.2 * g.normal(size=N)
    return X, Y


def do_analyze(m, seed):
    import importlib
    A = importlib.import_module("SALib.analyze." + m.split("_2")[0].replace("morris_groups", "morris"))
    if m in ("sobol", "sobol_2"):
        X, Y = data(3, 8 * 8 if m == "sobol_2" else 8 * 5)
        return A.analyze(prob(), Y, calc_second_order=m == "sobol_2", num_resamples=9, seed=seed)
    if m in ("morris", "morris_groups"):
        import SALib.sample.morris as mo
        p = prob() if m == "morris" else prob(4, ["b", "a", "b", "c"])
        X = mo.sample(p, 7, seed=3)
        return A.analyze(p, X, np.sin(X).sum(axis=1), num_resamples=9, seed=seed)
    if m == "fast":
        return A.analyze(prob(), data(3, 3 * 70)[1], M=3, num_resamples=7, seed=seed)
    if m == "rbd_fast":
        return A.analyze(prob(), *data(3, 80), M=5, num_resamples=7, seed=seed)
    if m == "dgsm":
        import SALib.sample.finite_diff as fd
        X = fd.sample(prob(), 7, seed=3)
        return A.analyze(prob(), X, np.sin(X).sum(axis=1), num_resamples=9, seed=seed)
    if m == "delta":
        return A.analyze(prob(), *data(3, 60), num_resamples=4, seed=seed)
    if m == "hdmr":
        return A.analyze(prob(), *data(3, 310), maxorder=2, K=2, R=300, seed=seed)
    if m == "enhanced_hdmr":
        return A.analyze(prob(), *data(3, 320), max_order=2, poly_order=2, bootstrap=2, subset=300, seed=seed)
    if m == "ff":
        import SALib.sample.ff as ff
        return A.analyze(prob(), ff.sample(prob(), seed=1), np.arange(8.0), second_order=True, seed=seed)
    return A.analyze(prob(), *data(3, 60), seed=seed)


def flat(r, depth=0):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return [flat(x, depth + 1) for x in r.ravel()]
    if isinstance(r, np.ndarray):
        return ["a", str(r.shape), hashlib.sha256(np.ascontiguousarray(np.nan_to_num(r, nan=1e300) if r.dtype.kind == "f" else r).tobytes()).hexdigest()]
    if isinstance(r, dict):
        return {str(k): flat(v, depth + 1) for k, v in sorted(r.items(), key=lambda t: str(t[0])) if str(k).lower() not in ("rt",)}
    if isinstance(r, (list, tuple)):
        return [flat(x, depth + 1) for x in r]
    if isinstance(r, (float, np.floating)):
        return repr(float(r))
    if r is None or isinstance(r, (int, str, bool, np.integer)):
        return str(r)
    if hasattr(r, "to_numpy"):
        return flat(r.to_numpy(), depth + 1)
    return type(r).__name__


def disturb(k, rng):
    np.random.seed(k % 1000)
    for _ in range(k % 7):
        np.random.rand(3)
    if k % 3 == 0:
        do_sample(SAMPLERS[k % len(SAMPLERS)], k % 11)
    if k % 4 == 1:
        import random
        random.seed(k)


def gen(rng):
    kind = "s" if rng.integers(3) == 0 else "a"
    L = SAMPLERS if kind == "s" else [m for m in ANALYZERS if m not in SLOW or rng.integers(5) == 0]
    seed = int([0, 0, 1, rng.integers(1, 100), rng.integers(0, 2**31)][int(rng.integers(5))])
    return {"kind": kind, "m": L[int(rng.integers(len(L)))], "seed": seed, "h1": int(rng.integers(10000)), "h2": int(rng.integers(10000)), "other": int(rng.integers(1, 1000))}


def check(a):
    f = do_sample if a["kind"] == "s" else do_analyze
    rng = None
    disturb(a["h1"], rng)
    r1 = flat(f(a["m"], a["seed"]))
    np.random.seed(a["h2"])
    np.random.rand(a["h2"] % 13)
    f(a["m"], a["other"])
    disturb(a["h2"], rng)
    r2 = flat(f(a["m"], a["seed"]))
    req(r1 == r2, f"{a['kind']}:{a['m']} with seed {a['seed']} twice: same result whatever was drawn before", key=f"{a['kind']}:{a['m']}")
    if a["kind"] == "s" and a["m"] not in ("ff",):
        g1 = flat(f(a["m"], np.random.default_rng(a["seed"])))
        np.random.rand(3)
        g2 = flat(f(a["m"], np.random.default_rng(a["seed"])))
        req(g1 == g2, "a freshly made generator gives the same result", key=f"gen:{a['m']}")


PROC = r'''
import sys, json, warnings; warnings.simplefilter("ignore")
import numpy as np
from rac import C16
np.random.seed(int(sys.argv[1]))
out = {}
for k, m in json.loads(sys.argv[2]):
    f = C16.do_sample if k == "s" else C16.do_analyze
    out[k + m] = C16.flat(f(m, int(sys.argv[3])))
print("@@" + json.dumps(out))
'''


def gen_p(rng):
    return {"seed": int([0, 7, rng.integers(1, 10**6)][int(rng.integers(3))]), "h": int(rng.integers(1000)), "hash": int(rng.integers(1, 10**6)), "slow": bool(rng.integers(4) == 0)}


def check_p(a):
    ms = [("s", m) for m in SAMPLERS] + [("a", m) for m in ANALYZERS if m not in SLOW or a["slow"]]
    outs = []
    for h, hs in ((a["h"], a["hash"]), (a["h"] + 1, 0)):
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        r = subprocess.run([sys.executable, "-c", PROC, str(h), _json.dumps(ms), str(a["seed"])], env=env, capture_output=True, text=True, timeout=100, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        req("@@" in r.stdout, "the process finishes: " + r.stderr[-300:])
        outs.append(_json.loads(r.stdout.split("@@")[1]))
    for k in outs[0]:
        req(outs[0][k] == outs[1][k], f"{k}: same result in every process", key="proc:" + k)


CHECKS = [{"name": "same seed same result", "gen": gen, "check": check, "n": 240, "edge": [{"kind": k, "m": m, "seed": s, "h1": 5, "h2": 9, "other": 3} for k, L in (("s", SAMPLERS), ("a", ANALYZERS)) for m in L for s in (0, 12)]},
          {"name": "across processes", "gen": gen_p, "check": check_p, "n": 8}]
