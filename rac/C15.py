"""Executable contract of C15."""
from .lib import *
from SALib.util import compute_groups_matrix, extract_group_names, _check_groups, _define_problem_with_groups, ProblemSpec
from SALib.sample import sobol, saltelli, morris, latin
from SALib.analyze import sobol as asobol, morris as amorris, pawn, rsa, discrepancy


def anygroups(rng, D):
    k = int(rng.integers(4))
    if k == 0:
        return rgroups(rng, D)
    pool = [["g"], ["b", "a"], ["10", "9", "1"], ["Z z", "a_b", "", "C"]][int(rng.integers(4))]
    return [pool[int(i)] for i in rng.integers(0, len(pool), size=D)]


def gen(rng):
    D = rdim(rng, 1, 8, 20)
    return {"g": anygroups(rng, D)}


def check(a):
    g = a["g"]
    M, names = compute_groups_matrix(g)
    u = uniq(g)
    req(list(names) == u, f"group names {list(names)} are not {u}")
    want = np.array([[1 if x == n else 0 for n in u] for x in g])
    close(M, want, "membership matrix")
    p = {"num_vars": len(g), "names": [f"x{i}" for i in range(len(g))], "bounds": [[0, 1]] * len(g), "groups": g}
    n, k = extract_group_names(p)
    want = u if len(u) > 1 else p["names"]
    req(list(n) == want and k == len(want), f"extract_group_names gives {n}, {k}")
    for none in (None, [], p["names"], "absent"):
        q = dict(p, groups=none)
        if none == "absent":
            del q["groups"]
        n, k = extract_group_names(q)
        req(list(n) == p["names"] and k == len(g), "groups default to the parameters")
        req(not _check_groups(q), "no groups")
        req(_define_problem_with_groups(dict(q))["groups"] == p["names"], "groups filled in with the names")
    r = _check_groups(p)
    req((r is g or r == g) if len(u) > 1 else not r, "_check_groups")
    for bad in (g + ["more"], g[:-1]):
        if bad:
            raises(ValueError, lambda: _define_problem_with_groups(dict(p, groups=bad)), "group list of the wrong length")
            raises(ValueError, lambda: ProblemSpec(dict(p, groups=bad)), "ProblemSpec with a group list of the wrong length")
            raises(ValueError, lambda: morris.sample(dict(p, groups=bad), 3), "morris with a group list of the wrong length")


def gen_agree(rng):
    D = int(rng.integers(2, 6))
    p = rproblem(rng, D, wide=False)
    p["groups"] = anygroups(rng, D)
    return {"p": p, "N": int(rng.integers(2, 9)), "second": bool(rng.integers(2)), "seed": seedint(rng)}


def check_agree(a):
    p, N = a["p"], a["N"]
    b = np.array(p["bounds"])
    with quiet():
        D = p["num_vars"]
        G = len(uniq(p["groups"]))
        E = G if G > 1 else D
        f = lambda X: (((X - b[:, 0]) / (b[:, 1] - b[:, 0])) @ np.arange(1, D + 1)) ** 2 + 1
        for s in (sobol, saltelli):
            X = s.sample(dict(p), N, calc_second_order=a["second"])
            req(len(X) == N * ((2 if a["second"] else 1) * E + 2), "row count of the design")
            S = asobol.analyze(dict(p), f(X), calc_second_order=a["second"], num_resamples=3, seed=1)
            req(len(S["S1"]) == E and len(S["ST"]) == E, f"{s.__name__}: analysis has {len(S['S1'])} entries, design {E}")
            t = S.to_df()
            req(len(t[0]) == E, "table rows")
        X = morris.sample(dict(p), N, seed=a["seed"])
        req(len(X) == N * (G + 1), "Morris row count")
        S = amorris.analyze(dict(p), X, f(X), num_resamples=3, seed=1)
        req(len(S["mu_star"]) == G and len(S["names"]) == G, "Morris groups")
        X = latin.sample(dict(p), 40, seed=a["seed"])
        Y = f(X)
        for m, key in ((pawn, "median"), (discrepancy, "s_discrepancy")):
            S = m.analyze(dict(p), X, Y)
            req(len(S[key]) == E and len(S["names"]) == E, f"{m.__name__}: {len(S[key])} values, {len(S['names'])} names, {E} groups")
        S = rsa.analyze(dict(p), X, Y, bins=4)
        req(list(S["names"]) == (uniq(p["groups"]) if G > 1 else p["names"]), "rsa groups")
        req(S.to_df().shape == (4, E), "rsa table")


def gen_single(rng):
    D = int(rng.integers(1, 5))
    p = rproblem(rng, D, wide=False)
    p["groups"] = ["g"] * D
    return {"p": p, "np": bool(rng.integers(2))}


def check_single(a):
    p = a["p"]
    called = []

    def an(problem, X, Y):
        called.append(1)
        return {}

    with quiet():
        sp = ProblemSpec(dict(p))
        X = np.random.default_rng(0).random((8, p["num_vars"]))
        sp.set_samples(X).set_results(X.sum(1))
    raises(ValueError, lambda: sp.analyze(an, **({"nprocs": 1} if a["np"] else {})), "analysis of a single group")
    req(not called, "analysis of a single group ran")
    if p["num_vars"] > 1:
        del p["groups"]
        with quiet():
            sp = ProblemSpec(dict(p))
            sp.set_samples(X).set_results(X.sum(1))
            sp.analyze(an)
        req(len(called) == 1, "analysis of ungrouped parameters runs")


CHECKS = [
    {"name": "names and matrix", "gen": gen, "check": check, "n": 200},
    {"name": "samplers and analysers agree", "gen": gen_agree, "check": check_agree, "n": 40},
    {"name": "single group refused", "gen": gen_single, "check": check_single, "n": 20},
]
