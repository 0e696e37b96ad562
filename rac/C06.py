"""Executable contract of C06."""
from .lib import *
import math
import os as _os
import scipy.stats
from SALib.sample import sobol_sequence
from SALib.sample.directions import directions

_npz = np.load(_os.path.join(_os.path.dirname(scipy.stats.__file__), "_sobol_direction_numbers.npz"))
POLY, VINIT = _npz["poly"], _npz["vinit"]


def ref_dirs(d, L):
    """direction numbers v_1..v_L (as 31-bit integers) of coordinate d, from scipy's copy of the table"""
    if d == 0:
        return [1 << (31 - j) for j in range(1, L + 1)]
    p = int(POLY[d])
    s = p.bit_length() - 1
    m = [int(x) for x in VINIT[d][:s]]
    V = [m[j] << (31 - (j + 1)) for j in range(min(s, L))]
    coef = [(p >> (s - 1 - k)) & 1 for k in range(s)]  # a_1..a_{s-1}, 1
    for j in range(s, L):
        v = V[j - s] ^ (V[j - s] >> s)
        for k in range(1, s):
            if coef[k - 1]:
                v ^= V[j - k]
        V.append(v)
    return V


def ref_points(n, d):
    L = max(1, (n - 1).bit_length())
    V = ref_dirs(d, L)
    i = np.arange(n, dtype=np.int64)
    gray = i ^ (i >> 1)  # closed form of the sequence: x_i = XOR of the v_b over the bits b of the Gray code of i
    x = np.zeros(n, dtype=np.int64)
    for b in range(L):
        x ^= np.where((gray >> b) & 1, V[b], 0)
    return x / 2.0 ** 31


def gen(rng):
    return {"N": int([rng.integers(1, 40), rng.integers(1, 600), 2 ** rng.integers(0, 10)][int(rng.integers(3))]), "D": int(rng.integers(1, 25)), "m": int(rng.integers(1, 40)), "run": int(rng.integers(0, 8)), "at": int(rng.integers(0, 20))}


def check(a):
    N, D = a["N"], a["D"]
    X = sobol_sequence.sample(N, D)
    req(X.shape == (N, D), "shape")
    req((X[0] == 0).all(), "point 0 is the origin")
    k = X * 2 ** 31
    req((k == np.floor(k)).all() and (X >= 0).all() and (X < 1).all(), "multiples of 2^-31 in [0,1)")
    m = min(a["m"], N)
    req(np.array_equal(sobol_sequence.sample(m, D), X[:m]), "prefixes agree")
    for d in range(D):
        req(np.array_equal(X[:, d], ref_points(N, d)), f"coordinate {d} is the published Sobol' sequence")
    # van der Corput: aligned runs of 2^r points
    r = a["run"]
    n = 2 ** r
    if n <= N:
        s = (a["at"] % (N // n)) * n
        cells = np.floor(X[s:s + n] * n).astype(int)
        for d in range(D):
            req(sorted(cells[:, d]) == list(range(n)), f"aligned run [{s},{s+n}) of coordinate {d} has one point per cell")


def check_table(a):
    """a block of the table's dimensions against the independent copy"""
    for d in range(a["lo"], min(a["hi"], len(directions) + 1)):
        got = sobol_sequence  # noqa
        row = [int(x) for x in directions[d - 1]]
        p = int(POLY[d])
        s = p.bit_length() - 1
        av = row[0]
        req(len(row) - 1 == s, f"dimension {d}: degree {len(row)-1}, published {s}")
        req(av == (p >> 1) & ((1 << (s - 1)) - 1), f"dimension {d}: polynomial {av}")
        req(row[1:] == [int(x) for x in VINIT[d][:s]], f"dimension {d}: initial numbers")


def check_far(a):
    """one far dimension, many bits"""
    N, d = a["N"], a["d"]
    X = sobol_sequence.sample(N, d + 1)[:, d] if d < 60 else None
    if X is not None:
        req(np.array_equal(X, ref_points(N, d)), f"coordinate {d}, {N} points")


def gen_far(rng):
    return {"N": int(rng.integers(1000, 3000)), "d": int(rng.integers(20, 42))}


def gen_row(rng):
    d = int(rng.integers(1, NT + 1)) if rng.integers(2) else int(rng.integers(1, 300))
    s = int(POLY[d]).bit_length() - 1
    b = min(19, int(rng.integers(1, s + 5)))
    return {"d": d, "N": 2 ** b + int([0, 1, rng.integers(2 ** b)][int(rng.integers(3))])}


def check_row(a):
    """any one row of the table, long enough for the recurrence to run past its degree"""
    d, N = a["d"], a["N"]
    if getattr(sobol_sequence, "directions", None) is not directions:
        return
    try:
        sobol_sequence.directions = [directions[d - 1]]
        X = sobol_sequence.sample(N, 2)
    finally:
        sobol_sequence.directions = directions
    req(np.array_equal(X[:, 1], ref_points(N, d)), f"coordinate {d}, {N} points")


def check_rej(a):
    raises(ValueError, lambda: sobol_sequence.sample(a["N"], a["D"]), "request beyond the table")


def check_lim(a):
    n = len(directions) + 1
    X = sobol_sequence.sample(2, n)
    req(X.shape == (2, n) and (X[1] == 0.5).all(), "the last dimension is available")


def check_lsz(a):
    v = a["v"]
    w = 1
    while v & 1:
        v >>= 1
        w += 1
    req(sobol_sequence.index_of_least_significant_zero_bit(a["v"]) == w, "index of the lowest zero bit")


NT = len(directions)
CHECKS = [
    {"name": "sequence", "gen": gen, "check": check, "n": 120},
    {"name": "direction table", "edge": [{"lo": k, "hi": k + 2000} for k in range(1, NT + 1, 2000)], "check": check_table, "n": 0},
    {"name": "far dimensions", "gen": gen_far, "check": check_far, "n": 12},
    {"name": "single rows", "gen": gen_row, "check": check_row, "n": 10},
    {"name": "requests refused", "edge": [{"N": 4, "D": NT + 2}, {"N": 4, "D": NT + 50}, {"N": 2 ** 31 + 1, "D": 0}, {"N": 2 ** 33, "D": 0}], "check": check_rej, "n": 0},
    {"name": "table limit", "edge": [{}], "check": check_lim, "n": 0},
    {"name": "lowest zero bit", "gen": lambda rng: {"v": int(rng.integers(0, 2 ** int(rng.integers(1, 32))))}, "check": check_lsz, "n": 400, "edge": [{"v": 2 ** k - 1} for k in range(32)]},
]
