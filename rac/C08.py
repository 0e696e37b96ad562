"""Executable contract of C08."""
from .lib import *
from SALib.sample import morris


def gen(rng):
    D = rdim(rng, 1, 6, 18)
    p = rproblem(rng, D, groups=bool(rng.integers(2)), wide=False)
    k = int(rng.integers(4))
    return {"p": p, "N": int(rng.integers(2, 9)), "L": int([2, 4, 6, 8, 10, 12][int(rng.integers(6))]), "seed": seedint(rng), "opt": [None, None, "local", "brute"][k]}


def check(a):
    p, N, L = a["p"], a["N"], a["L"]
    D = p["num_vars"]
    kw = {}
    T = N
    if a["opt"] and N > 2:
        T = 2 if N == 3 else 3
        kw = dict(optimal_trajectories=T, local_optimization=a["opt"] == "local")
    X = morris.sample(dict(p), N, num_levels=L, seed=a["seed"], **kw)
    g = p.get("groups") or p["names"]
    names = uniq(g)
    G = len(names)
    req(X.shape == (T * (G + 1), D), f"{T} trajectories of {G+1} points, got {X.shape}")
    b = np.array(p["bounds"])
    U = (X - b[:, 0]) / (b[:, 1] - b[:, 0])
    k = U * (L - 1)
    req(np.allclose(k, np.round(k), atol=1e-6) and (U > -1e-9).all() and (U < 1 + 1e-9).all(), "every coordinate on the p-level grid of the range")
    delta = L / (2 * (L - 1))
    U = np.round(k) / (L - 1)
    for t in range(T):
        tr = U[t * (G + 1):(t + 1) * (G + 1)]
        moved = []
        for s in range(G):
            d = tr[s + 1] - tr[s]
            ch = [j for j in range(D) if abs(d[j]) > 1e-9]
            req(ch, "every step moves a group")
            grp = {g[j] for j in ch}
            req(len(grp) == 1, f"step moves exactly one group, moved {grp}")
            gr = grp.pop()
            req(ch == [j for j in range(D) if g[j] == gr], "all parameters of the group move")
            req(np.allclose(np.abs(d[ch]), delta, atol=1e-9), f"moves are delta={delta}, got {d[ch]}")
            moved.append(gr)
        req(sorted(moved) == sorted(names), "each group moves once per trajectory")


def gen_s(rng):
    return {"D": int(rng.integers(1, 5)), "L": int([2, 4, 6, 8][int(rng.integers(4))]), "seed": seedint(rng)}


def check_s(a):
    """whole support: both directions, every start level and every order occur"""
    p = {"num_vars": a["D"], "names": [f"x{i}" for i in range(a["D"])], "bounds": [[0.0, 1.0]] * a["D"]}
    X = morris.sample(p, 300, num_levels=a["L"], seed=a["seed"])
    k = np.round(X * (a["L"] - 1)).astype(int)
    for j in range(a["D"]):
        req(set(k[:, j]) == set(range(a["L"])), f"parameter {j} visits every grid level")
    tr = X.reshape(300, a["D"] + 1, a["D"])
    first = np.argmax(np.abs(tr[:, 1] - tr[:, 0]), axis=1)
    req(set(first) == set(range(a["D"])), "any parameter may move first")


CHECKS = [{"name": "trajectories", "gen": gen, "check": check, "n": 240}, {"name": "support", "gen": gen_s, "check": check_s, "n": 16}]
