"""Executable contract of C28: tables carry each index next to the right name."""
from .lib import *
import itertools
from SALib.sample import morris as smo, finite_diff as sfd, ff as sff
from SALib.analyze import sobol, morris, fast, rbd_fast, dgsm, delta, pawn, rsa, discrepancy, ff, hdmr, enhanced_hdmr
from SALib import ProblemSpec

M = ["sobol", "sobol", "sobol", "morris", "fast", "rbd_fast", "dgsm", "delta", "pawn", "rsa", "discrepancy", "ff", "hdmr", "ehdmr"]


def gen(rng):
    m = M[int(rng.integers(len(M) if rng.integers(6) == 0 else len(M) - 2))]
    D = int(rng.integers(2, 7)) if "hdmr" not in m else int(rng.integers(2, 4))
    return {"p": rproblem(rng, D, groups=bool(rng.integers(2)), wide=False), "m": m, "second": bool(rng.integers(3)), "seed": seedint(rng), "spec": bool(rng.integers(3) == 0)}


def tab(df, names, Si, keys, what):
    req(list(df.index) == list(names), f"{what}: rows {list(df.index)} are {list(names)}", key=what)
    req(sorted(df.columns) == sorted(keys), f"{what}: columns {list(df.columns)}", key=what)
    for k in keys:
        close(df[k].to_numpy(dtype=float), np.asarray(Si[k], dtype=float), f"{what}: {k}", 0, 0, key=what)


def ungrouped(p):
    return {k: v for k, v in p.items() if k != "groups"}


def own(got, per_par, gl, names, p, what, mean):
    """each row of the result belongs to the name at its position: the mean of that group's own parameters"""
    per_par = np.asarray(per_par, dtype=float)
    for i, n in enumerate(names):
        mem = [j for j in range(p["num_vars"]) if (gl or p["names"])[j] == n]
        close(got[i], mean(per_par[mem], axis=0), f"{what} of {n}", 1e-9, 1e-12, key=what)


def check(a):
    p, m = a["p"], a["m"]
    D = p["num_vars"]
    g = np.random.default_rng(a["seed"])
    bd = np.array(p["bounds"])
    gl, names = eff_groups(p)
    G = len(names)
    s = a["seed"] % 1000
    q = ProblemSpec(p) if a["spec"] else p
    N = 320 if "hdmr" in m else 60
    X = bd[:, 0] + g.random((N, D)) * (bd[:, 1] - bd[:, 0])
    Y = X @ np.arange(1, D + 1) + g.normal(size=N)
    if m == "sobol":
        Y = g.normal(size=16 * ((2 * G + 2) if a["second"] else G + 2))
        Si = sobol.analyze(q, Y, calc_second_order=a["second"], num_resamples=4, seed=s)
        dfs = Si.to_df()
        req(len(dfs) == (3 if a["second"] else 2), "tables")
        tab(dfs[0], names, Si, ["ST", "ST_conf"], "ST")
        tab(dfs[1], names, Si, ["S1", "S1_conf"], "S1")
        if a["second"]:
            pr = list(itertools.combinations(range(G), 2))
            req([tuple(z) for z in dfs[2].index] == [(names[i], names[j]) for i, j in pr], f"pairs {list(dfs[2].index)}", key="S2")
            for k in ("S2", "S2_conf"):
                close(dfs[2][k].to_numpy(), [Si[k][i, j] for i, j in pr], k, 0, 0, key="S2")
                req(not dfs[2][k].isna().any(), "every pair has its entry")
        return
    if m == "morris":
        X = smo.sample(dict(p), 5, seed=s)
        Y = g.normal(size=len(X))
        Si = morris.analyze(q, X, Y, num_resamples=5, seed=s)
        names = uniq(p.get("groups") or p["names"])
        df = Si.to_df()
        req(list(df.index) == names, f"rows {list(df.index)}")
        for k in ("mu", "mu_star", "mu_star_conf"):
            close(df[k].to_numpy(dtype=float), np.ma.filled(Si[k], np.nan), k, 0, 0)
        return
    if m == "fast":
        Si = fast.analyze(q, g.normal(size=D * 70), M=3, num_resamples=3, seed=s)
        return tab(Si.to_df(), p["names"], Si, ["S1", "ST", "S1_conf", "ST_conf"], m)
    if m == "rbd_fast":
        Si = rbd_fast.analyze(q, X, Y, M=4, num_resamples=3, seed=s)
        return tab(Si.to_df(), p["names"], Si, ["S1", "S1_conf"], m)
    if m == "dgsm":
        X = sfd.sample(dict(p), 5, seed=s)
        Si = dgsm.analyze(q, X, g.normal(size=len(X)), num_resamples=3, seed=s)
        return tab(Si.to_df(), p["names"], Si, ["vi", "vi_std", "dgsm", "dgsm_conf"], m)
    if m == "delta":
        Si = delta.analyze(q, X, Y, num_resamples=2, seed=s, method="sobol")
        df = Si.to_df()
        req(list(df.index) == p["names"], "rows")
        for k in ("S1", "S1_conf"):
            close(df[k].to_numpy(), Si[k], k, 0, 0)
        return
    if m == "pawn":
        Si = pawn.analyze(q, X, Y, S=4, seed=s)
        U = pawn.analyze(ungrouped(p), X, Y, S=4, seed=s)
        for k in ("minimum", "mean", "median", "maximum", "CV", "stdev"):
            own(Si[k], U[k], gl, names, p, f"pawn {k}", np.mean)
        return tab(Si.to_df(), names, Si, ["minimum", "mean", "median", "maximum", "CV", "stdev"], m)
    if m == "rsa":
        Si = rsa.analyze(q, X, Y, bins=5, seed=s)
        U = rsa.analyze(ungrouped(p), X, Y, bins=5, seed=s)
        own([Si[n] for n in names], [U[n] for n in p["names"]], gl, names, p, "rsa", np.nanmean)
        df = Si.to_df()
        req(list(df.columns) == names and len(df) == 5, "columns are the names")
        for n in names:
            close(df[n].to_numpy(), Si[n], n, 0, 0)
        return
    if m == "discrepancy":
        Si = discrepancy.analyze(q, X, Y)
        own(Si["s_discrepancy"], discrepancy.analyze(ungrouped(p), X, Y)["s_discrepancy"], gl, names, p, "discrepancy", np.mean)
        return tab(Si.to_df(), names, Si, ["s_discrepancy"], m)
    if m == "ff":
        p2 = {k: v for k, v in p.items()}
        X = sff.sample(p2)
        k = X.shape[1]
        Y = g.normal(size=len(X))
        Si = ff.analyze(p2, X, Y, second_order=a["second"])
        me, ie = Si.to_df()
        nm = p["names"] + [f"dummy_{i}" for i in range(k - D)]
        tab(me, nm, Si, ["ME"], m)
        if a["second"]:
            req([tuple(z) for z in ie.index] == [tuple(z) for z in Si["interaction_names"]], "interaction rows")
            close(ie["IE"].to_numpy(), Si["IE"], "IE", 0, 0)
        else:
            req(ie is None, "no interactions")
        return
    Si = hdmr.analyze(q, X, Y, maxorder=2, K=1, seed=s) if m == "hdmr" else enhanced_hdmr.analyze(q, X, Y, max_order=2, poly_order=2, bootstrap=1, seed=s)
    T = p["names"] + [f"{x}/{y}" for x, y in itertools.combinations(p["names"], 2)]
    tab(Si.to_df(), T, Si, ["Sa", "Sb", "S", "ST", "Sa_conf", "Sb_conf", "S_conf", "ST_conf"], m)


CHECKS = [{"name": "tables", "gen": gen, "check": check, "n": 500}]
