"""Executable contract of C29."""
from .lib import *
from SALib.analyze import sobol, morris, fast, rbd_fast, dgsm, delta
from SALib.sample import morris as smo, finite_diff as sfd


def gen(rng):
    D = int(rng.integers(1, 6))
    return {"p": rproblem(rng, D, groups=bool(rng.integers(2)), wide=False), "m": ["sobol", "morris", "fast", "dgsm"][int(rng.integers(4))], "n": int(rng.integers(1, 120)), "second": bool(rng.integers(2)), "seed": seedint(rng), "ok": bool(rng.integers(4) == 0), "extra": bool(rng.integers(2))}


def block(a):
    p = a["p"]
    D = p["num_vars"]
    gl, names = eff_groups(p)
    G = len(names)
    if a["m"] == "sobol":
        return 2 * G + 2 if a["second"] else G + 2
    if a["m"] == "morris":
        return len(uniq(p.get("groups") or p["names"])) + 1
    return D if a["m"] == "fast" else D + 1


def run(a, Y, X, conf=0.9):
    m, p = a["m"], a["p"]
    if m == "sobol":
        return sobol.analyze(p, Y, calc_second_order=a["second"], num_resamples=3, conf_level=conf, seed=1)
    if m == "morris":
        return morris.analyze(p, X, Y, num_resamples=3, conf_level=conf, seed=1)
    if m == "fast":
        return fast.analyze(p, Y, M=1, num_resamples=3, conf_level=conf, seed=1)
    return dgsm.analyze(p, X, Y, num_resamples=3, conf_level=conf, seed=1)


def check(a):
    b = block(a)
    g = np.random.default_rng(a["seed"])
    n = a["n"]
    m = a["m"]
    if a["ok"]:
        n = b * (6 + n % 5) if m != "fast" else b * (7 + n % 40)
        if m == "morris":
            X = smo.sample(dict(a["p"]), n // b, seed=3)
        elif m == "dgsm":
            X = sfd.sample(dict(a["p"]), n // b, seed=3)
        else:
            X = None
        run(a, g.normal(size=n), X)
        return
    if n % b == 0:
        return
    X = g.random((n + 5 if a["extra"] and m == "morris" else n, a["p"]["num_vars"]))
    if m == "morris":
        X = smo.sample(dict(a["p"]), n // b + 1, seed=3)[: n]
    raises(Exception, lambda: run(a, g.normal(size=n), X), f"{m}: {n} outputs are no multiple of {b}", key=m)


def gen_c(rng):
    D = int(rng.integers(1, 4))
    return {"p": rproblem(rng, D, wide=False), "m": ["sobol", "morris", "fast", "dgsm", "rbd_fast", "delta"][int(rng.integers(6))], "conf": float([0, 1, -rng.random(), 1 + rng.random(), 95, -1e-9, 1 + 1e-9, rng.normal() * 50][int(rng.integers(8))]), "second": bool(rng.integers(2)), "seed": seedint(rng)}


def check_c(a):
    c = a["conf"]
    g = np.random.default_rng(a["seed"])
    D = a["p"]["num_vars"]
    if 0 < c < 1:
        return
    m = a["m"]
    if m in ("rbd_fast", "delta"):
        X = g.random((60, D))
        Y = X.sum(axis=1)
        f = (lambda cl: rbd_fast.analyze(a["p"], X, Y, M=3, num_resamples=3, conf_level=cl, seed=1)) if m == "rbd_fast" else (lambda cl: delta.analyze(a["p"], X, Y, num_resamples=2, conf_level=cl, seed=1))
    else:
        n = block(a) * 8
        X = smo.sample(dict(a["p"]), 8, seed=3) if m == "morris" else sfd.sample(dict(a["p"]), 8, seed=3) if m == "dgsm" else None
        Y = g.normal(size=n)
        f = lambda cl: run(a, Y, X, cl)
    raises(Exception, lambda: f(c), f"{m}: confidence level {c}", key="conf:" + m)
    f(0.9)


CHECKS = [{"name": "output lengths", "gen": gen, "check": check, "n": 1200}, {"name": "confidence levels", "gen": gen_c, "check": check_c, "n": 400}]
