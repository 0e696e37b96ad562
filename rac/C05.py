"""Executable contract of C05."""
from .lib import *
from SALib.analyze import sobol

WORKERS = 2


def gen(rng):
    D = rdim(rng, 1, 5, 8)
    return {"p": rproblem(rng, D, groups=bool(rng.integers(2))), "N": int(rng.integers(2, 12)), "second": bool(rng.integers(2)), "R": int(rng.integers(2, 10)),
            "conf": float(rng.uniform(0.05, 0.99)), "seed": seedint(rng), "keep": bool(rng.integers(2)), "procs": [1, 2, 3, 4, 7, None][int(rng.integers(6))], "const": bool(rng.integers(6) == 0)}


def check(a):
    p = a["p"]
    _, gn = eff_groups(p)
    D = len(gn)
    second = a["second"] and D > 1
    S = 2 * D + 2 if second else D + 2
    Y = np.random.default_rng(a["seed"]).normal(size=a["N"] * S)
    if a["const"]:
        M = Y.reshape(a["N"], S)
        M[:, 0] = M[:, -1] = 1.0
        Y = M.reshape(-1)
    kw = dict(calc_second_order=second, num_resamples=a["R"], conf_level=a["conf"], seed=a["seed"], keep_resamples=a["keep"])
    s = sobol.analyze(p, Y, **kw)
    q = sobol.analyze(p, Y, parallel=True, n_processors=a["procs"], **kw)
    req(set(s.keys()) == set(q.keys()), f"same entries: {sorted(s)} vs {sorted(q)}")
    for k in s:
        close(q[k], s[k], f"parallel {k}", 1e-10, 1e-12)


def gen_tasks(rng):
    return {"D": int(rng.integers(1, 9)), "second": bool(rng.integers(2)), "n": [1, 2, 3, 4, 5, 6, 9, 17, 40][int(rng.integers(9))]}


def check_tasks(a):
    """every index is computed by exactly one task"""
    D, second = a["D"], a["second"]
    if second and D < 2:
        return
    tasks, n = sobol.create_task_list(D, second, a["n"])
    req(n == a["n"], "number of processes kept")
    flat = [tuple(t) for chunk in tasks for t in chunk]
    want = [(d, j, None) for j in range(D) for d in ("S1", "S1_conf", "ST", "ST_conf")]
    if second:
        want += [(d, j, k) for j in range(D) for k in range(j + 1, D) for d in ("S2", "S2_conf")]
    req(sorted(map(str, flat)) == sorted(map(str, want)), "the task list holds every index once")


CHECKS = [{"name": "parallel = serial", "gen": gen, "check": check, "n": 60}, {"name": "task list", "gen": gen_tasks, "check": check_tasks, "n": 150}]
