"""Executable contract of C17: the caller's data stay as they were."""
from .lib import *
import copy
from SALib.sample import sobol as s_so, latin as s_la, morris as s_mo, fast_sampler as s_fa, finite_diff as s_fd, ff as s_ff, saltelli as s_sa
from SALib.analyze import sobol, morris, fast, rbd_fast, dgsm, delta, pawn, rsa, discrepancy, ff, hdmr, enhanced_hdmr
from SALib import ProblemSpec
from .C16 import flat

SAMP = ["sobol", "saltelli", "latin", "morris", "morris_opt", "fast", "fd", "ff"]
ANA = ["sobol", "morris", "fast", "rbd_fast", "dgsm", "delta", "pawn", "rsaX", "rsaY", "discrepancy", "ff", "hdmr", "ehdmr"]


def gen(rng):
    D = rdim(rng, 2, 4, 7)
    p = rproblem(rng, D, groups=bool(rng.integers(2)), wide=False)
    if rng.integers(4) == 0:
        p["groups"] = None
    if rng.integers(4) == 0:
        p["dists"] = [["unif", "unif", "norm", "lognorm"][int(rng.integers(4))] for _ in range(D)]
        p["bounds"] = [[float(b[0]), abs(float(b[1])) + abs(float(b[0])) + 0.1] for b in p["bounds"]]
    elif rng.integers(4) == 0:
        p["dists"] = None
    kind = int(rng.integers(2))
    m = SAMP[int(rng.integers(len(SAMP)))] if kind == 0 else ANA[int(rng.integers(len(ANA) if rng.integers(8) == 0 else len(ANA) - 2))]
    return {"p": p, "kind": kind, "m": m, "seed": seedint(rng), "spec": bool(rng.integers(3) == 0), "const": bool(rng.integers(6) == 0)}


def samp(m, p, seed):
    if m == "sobol":
        return s_so.sample(p, 4, seed=seed)
    if m == "saltelli":
        return s_sa.sample(p, 4)
    if m == "latin":
        return s_la.sample(p, 5, seed=seed)
    if m == "morris":
        return s_mo.sample(p, 5, seed=seed)
    if m == "morris_opt":
        return s_mo.sample(p, 5, optimal_trajectories=2, seed=seed)
    if m == "fast":
        return s_fa.sample(p, 20, M=2, seed=seed)
    if m == "fd":
        return s_fd.sample(p, 4, seed=seed)
    return s_ff.sample(p, seed=seed)


def mk(p):
    return copy.deepcopy(p)


def check(a):
    p0 = a["p"]
    if a["m"] in ("ff", "discrepancy") and "dists" in p0:
        p0 = {k: v for k, v in p0.items() if k != "dists"}
    p = ProblemSpec(mk(p0)) if a["spec"] else mk(p0)
    before = mk(dict(p))
    if a["kind"] == 0:
        r1 = samp(a["m"], p, a["seed"])
        ok = {k: v for k, v in p.items() if k != "sample_scaled"}
        want = {k: v for k, v in before.items() if k != "sample_scaled"}
        if not want.get("groups"):
            want.pop("groups", None)
            g = ok.pop("groups", None)
            req(g in (None, list(p0["names"])), f"{a['m']}: group list filled in with the names, got {g}")
        req(ok == want, f"{a['m']}: problem unchanged: {ok} was {want}", key="sample:" + a["m"])
        r1 = r1.copy()
        r2 = samp(a["m"], p, a["seed"])
        req((r1 == r2).all(), f"{a['m']}: the same sample again", key="again:" + a["m"])
        return
    D = p0["num_vars"]
    if a["m"] == "rsaX":
        pass
    g = np.random.default_rng(a["seed"])
    m = a["m"]
    pd_ = {k: v for k, v in p0.items() if k != "dists"}
    bnd = np.array([b[:2] for b in p0["bounds"]])
    if m == "sobol":
        G = len(eff_groups(pd_)[1])
        X, Y = None, g.normal(size=8 * (2 * G + 2))
    elif m == "morris":
        X = s_mo.sample(mk(p0), 6, seed=a["seed"])
        Y = g.normal(size=len(X))
    elif m == "fast":
        X, Y = None, g.normal(size=70 * D)
    elif m == "dgsm":
        X = s_fd.sample(mk(p0), 6, seed=a["seed"])
        Y = g.normal(size=len(X))
    elif m == "ff":
        X = s_ff.sample(mk({k: v for k, v in p0.items() if k != "dists"}))
        Y = g.normal(size=len(X))
    else:
        N = 320 if "hdmr" in m else 60
        X = bnd[:, 0] + g.random((N, D)) * (bnd[:, 1] - bnd[:, 0])
        Y = X.sum(axis=1) + g.normal(size=N)
    X0 = None if X is None else X.copy()
    Y0 = Y.copy()
    s = a["seed"] % 1000

    def run():
        if m == "sobol":
            return sobol.analyze(p, Y, num_resamples=5, seed=s)
        if m == "morris":
            return morris.analyze(p, X, Y, num_resamples=5, seed=s, scaled=bool(s % 2))
        if m == "fast":
            return fast.analyze(p, Y, M=3, num_resamples=4, seed=s)
        if m == "rbd_fast":
            return rbd_fast.analyze(p, X, Y, M=4, num_resamples=4, seed=s)
        if m == "dgsm":
            return dgsm.analyze(p, X, Y, num_resamples=4, seed=s)
        if m == "delta":
            return delta.analyze(p, X, Y, num_resamples=3, seed=s)
        if m == "pawn":
            return pawn.analyze(p, X, Y, S=4, seed=s)
        if m[:3] == "rsa":
            return rsa.analyze(p, X, Y, bins=4, target=m[3], seed=s)
        if m == "discrepancy":
            return discrepancy.analyze(p, X, Y, seed=s)
        if m == "ff":
            return ff.analyze(p, X, Y, second_order=True, seed=s)
        if m == "hdmr":
            return hdmr.analyze(p, X, Y, maxorder=2, K=1, seed=s)
        return enhanced_hdmr.analyze(p, X, Y, max_order=2, poly_order=2, bootstrap=1, seed=s)

    r1 = flat(run())
    now = {k: dict(p)[k] for k in before if k in p} if a["spec"] and m == "hdmr" else dict(p)  # hdmr adds its results to a specification
    req(now == before, f"{m}: problem unchanged: {now} was {before}", key="problem:" + m)
    if X is not None:
        req(X.shape == X0.shape and (X == X0).all(), f"{m}: X unchanged", key="X:" + m)
    req((Y == Y0).all(), f"{m}: Y unchanged", key="Y:" + m)
    r2 = flat(run())
    req(r1 == r2, f"{m}: the same analysis again", key="again:" + m)


CHECKS = [{"name": "arguments untouched", "gen": gen, "check": check, "n": 400}]
