"""Executable contract of C09."""
from .lib import *
import math
from itertools import combinations
from SALib.sample import morris
from SALib.sample.morris.brute import BruteForce
from SALib.sample.morris.local import LocalOptimisation
from SALib.sample.morris.strategy import SampleMorris


def ref_dist(m, l):
    return sum(float(np.sqrt(((a - b) ** 2).sum())) for a in m for b in l)


def score(c, dm):
    return float(np.sqrt(sum(dm[i, j] ** 2 for i, j in combinations(c, 2))))


def gen(rng):
    D = int(rng.integers(1, 5))
    N = int(rng.integers(3, 9))
    return {"N": N, "D": D, "G": int(rng.integers(1, D + 1)), "k": int(rng.integers(2, N)), "seed": seedint(rng), "dup": bool(rng.integers(5) == 0), "how": ["local", "brute"][int(rng.integers(2))], "raw": bool(rng.integers(3))}


def mk(a):
    rng = np.random.default_rng(a["seed"])
    X = rng.integers(0, 4, size=(a["N"] * (a["G"] + 1), a["D"])) / 3.0 if a["raw"] else rng.random((a["N"] * (a["G"] + 1), a["D"]))
    if a["dup"]:
        X[a["G"] + 1:2 * (a["G"] + 1)] = X[:a["G"] + 1]
    return X


def check(a):
    N, D, G, k = a["N"], a["D"], a["G"], a["k"]
    X = mk(a)
    st = LocalOptimisation() if a["how"] == "local" else BruteForce()
    X0 = X.copy()
    out = SampleMorris(st).sample(X, N, D, k, G)
    req(np.array_equal(X, X0), "input trajectories unmodified")
    req(out.shape == (k * (G + 1), D), f"k whole trajectories, got {out.shape}")
    trs = X.reshape(N, G + 1, D)
    pick = [list(np.where((trs == o).all(axis=(1, 2)))[0]) for o in out.reshape(k, G + 1, D)]
    req(all(pick), "each selected trajectory is one of the inputs, whole and unmodified")
    idx = st._sample(X, N, D, k, G)
    req(len(idx) == k and len(set(int(i) for i in idx)) == k and all(0 <= i < N for i in idx), f"k distinct trajectory indices, got {idx}")
    close(out, np.concatenate([trs[i] for i in idx]), "output is the chosen trajectories in order")
    if not a["dup"]:
        flat = [q[0] for q in pick]
        req(len(set(flat)) == k or a["raw"], "k different trajectories")
    dm = np.array([[ref_dist(trs[i], trs[j]) if i != j and not np.array_equal(trs[i], trs[j]) else 0.0 for j in range(N)] for i in range(N)])
    if a["how"] == "brute":
        best = max(score(c, dm) for c in combinations(range(N), k))
        req(score(idx, dm) >= best * (1 - 1e-5) - 1e-6, f"spread {score(idx, dm)} of {idx} is the maximum {best}")


def gen_dist(rng):
    return {"D": int(rng.integers(1, 5)), "G": int(rng.integers(1, 5)), "seed": seedint(rng), "N": int(rng.integers(2, 6)), "same": bool(rng.integers(4) == 0), "raw": True, "dup": False}


def check_dist(a):
    X = mk(a)
    trs = X.reshape(a["N"], a["G"] + 1, a["D"])
    st = LocalOptimisation()
    m, l = trs[0], trs[0].copy() if a["same"] else trs[1]
    d = float(st.compute_distance(m, l))
    close(d, float(st.compute_distance(l, m)), "distance is symmetric", 1e-5)
    req(float(st.compute_distance(m, m)) == 0, "distance of a trajectory to itself is zero")
    if not np.array_equal(m, l):
        close(d, ref_dist(m, l), "distance is the sum of Euclidean distances of all point pairs", 1e-5)
    M = st.compute_distance_matrix(X, a["N"], a["D"], a["G"], local_optimization=True)
    B = BruteForce().compute_distance_matrix(X, a["N"], a["D"], a["G"])
    for i in range(a["N"]):
        for j in range(a["N"]):
            w = 0 if i == j or np.array_equal(trs[i], trs[j]) else ref_dist(trs[i], trs[j])
            close(float(M[i, j]), w, f"distance matrix [{i},{j}]", 1e-5)
            if i > j:
                close(float(B[i, j]), w, f"brute-force distance matrix [{i},{j}]", 1e-5)


def gen_chunk(rng):
    n = int(rng.integers(1, 9))
    return {"n": n, "len": int([n, 2 * n, 3 * n, rng.integers(0, 5 * n + 1), rng.integers(0, 5 * n + 1)][int(rng.integers(5))]), "N": int(rng.integers(3, 10)), "k": int(rng.integers(2, 5)), "seed": seedint(rng)}


def check_chunk(a):
    """whatever the chunk size, all combinations are scored, in order"""
    b = BruteForce()
    if hasattr(b, "grouper"):
        ch = list(b.grouper(a["n"], range(a["len"])))
        req([x for c in ch for x in c] == list(range(a["len"])) and all(len(c) for c in ch), f"chunks of {a['n']} of {a['len']} items: {ch}")
    N, k = a["N"], min(a["k"], a["N"])
    rng = np.random.default_rng(a["seed"])
    S = rng.random(int(math.comb(N, k)))
    req(list(b.find_maximum(S, N, k)) == list(list(combinations(range(N), k))[int(S.argmax())]), "the best score's combination")


def gen_big(rng):
    # more combinations than one chunk of the search holds
    k = int(rng.integers(2, 4))
    return {"k": k, "N": int({2: rng.integers(1500, 1700), 3: rng.integers(183, 200)}[k]), "at": float(rng.random()), "seed": seedint(rng)}


def check_big(a):
    """the chosen combination has the largest spread also when the combinations are scored in chunks: the most distant trajectories come last"""
    N, k = a["N"], a["k"]
    b = BruteForce()
    rng = np.random.default_rng(a["seed"])
    X = rng.random((N * 2, k)) * 0.01
    far = list(range(N - k, N)) if a["at"] < 0.5 else sorted(int(i) for i in rng.choice(N, k, replace=False))
    for n_, i in enumerate(far):
        X[2 * i:2 * i + 2, n_] += 10
    if not hasattr(b, "find_most_distant"):
        return
    got = sorted(int(i) for i in b._sample(X, N, k, k, 1))
    req(got == far, f"the {k} most distant of {N} trajectories are {far}, got {got}")


def check_rej(a):
    p = {"num_vars": 2, "names": ["a", "b"], "bounds": [[0.0, 1.0]] * 2}
    raises(ValueError, lambda: morris.sample(p, a["N"], optimal_trajectories=a["k"], local_optimization=a["local"], seed=1), f"k={a['k']} of N={a['N']}")


def check_e2e(a):
    """selection from the sampler's own trajectories"""
    p = {"num_vars": 3, "names": ["a", "b", "c"], "bounds": [[0.0, 1.0]] * 3}
    full = morris.sample(dict(p), 7, seed=a["seed"]).reshape(7, 4, 3)
    sel = morris.sample(dict(p), 7, optimal_trajectories=a["k"], local_optimization=a["local"], seed=a["seed"]).reshape(a["k"], 4, 3)
    ix = [[i for i in range(7) if np.array_equal(full[i], s)] for s in sel]
    req(all(ix), "the selected trajectories are among the generated ones")


CHECKS = [
    {"name": "selection", "gen": gen, "check": check, "n": 200},
    {"name": "distance", "gen": gen_dist, "check": check_dist, "n": 100},
    {"name": "chunks", "gen": gen_chunk, "check": check_chunk, "n": 120},
    {"name": "many combinations", "gen": gen_big, "check": check_big, "n": 1, "edge": [{"k": 3, "N": 190, "at": 0.0, "seed": 1}]},
    {"name": "refused", "edge": [{"N": n, "k": k, "local": l} for n, k in ((4, 4), (4, 5), (4, 1), (6, -1), (4, 6)) for l in (True, False)] + [{"N": 200, "k": 11, "local": False}], "check": check_rej, "n": 0},
    {"name": "too many combinations", "edge": [{"N": 4000, "k": 10, "local": False}], "check": lambda a: raises(ValueError, lambda: BruteForce().find_most_distant(np.zeros((4, 2)), a["N"], 2, a["k"], 1), "too many combinations"), "n": 0},
    {"name": "end to end", "edge": [{"seed": s, "k": k, "local": l} for s in range(4) for k in (2, 3, 6) for l in (True, False)], "check": check_e2e, "n": 0},
]
