"""C01: uniform scaling maps the unit cube onto the bounds; unscaling inverts it."""
from .common import *

META = {}


def setup(v, legal):
    C = v.C
    D, N = v.int("D", 1), v.int("N", 1)
    lo, hi = ufn("lo", Int, Real), ufn("hi", Int, Real)
    k = z3.Int("k_")
    if legal:
        v.pre(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < D), lo(k) < hi(k)), patterns=[lo(k)]))
    else:
        bad = z3.Int("bad")
        v.pre(0 <= bad, bad < D, lo(bad) >= hi(bad))
    return D, N, lo, hi


def scaling(v, entry):
    D, N, lo, hi = setup(v, True)
    f = v.target(entry)
    v.under("SALib.util._scale_samples", "SALib.util.util_funcs._check_bounds")

    def run():
        P = problem(v, D)
        a, u = v.mat("u", N, D)
        before = heap_get(P.ref)
        if entry.endswith("._scale_samples"):
            f(a, P["bounds"])
            res = a
        else:
            res = f(a, P)
            v.prove("problem marked as scaled", P.get("sample_scaled") is True)
            now = heap_get(P.ref)
            v.prove("other problem entries untouched", all(now.get(x) is before[x] for x in before) and set(now) == set(before) | {"sample_scaled"})
        v.prove("scaled in place", res.ref == a.ref)
        i, j = v.fresh_int("i", 0, N), v.fresh_int("j", 0, D)
        x = res.read(i, j)
        v.prove("shape kept", z3.And(toint(res.shape[0]) == N, toint(res.shape[1]) == D))
        v.prove_eq("entry (i,j) is lo_j + u*(hi_j-lo_j)", x, lo(j) + u(i, j) * (hi(j) - lo(j)))
        v.case(z3.And(0 <= u(i, j), u(i, j) <= 1, lo(j) < hi(j)))
        v.prove("entry within its own bounds", z3.And(lo(j) <= x, x <= hi(j)))

    v.explore(run)


def unscaling(v):
    D, N, lo, hi = setup(v, True)
    f = v.target("SALib.util._unscale_samples")
    g = v.target("SALib.util._scale_samples")

    def run():
        P = problem(v, D)
        a, u = v.mat("u", N, D)
        f(a, P["bounds"])
        i, j = v.fresh_int("i", 0, N), v.fresh_int("j", 0, D)
        v.case(lo(j) < hi(j))
        v.prove_eq("entry (i,j) is (x-lo_j)/(hi_j-lo_j)", a.read(i, j), (u(i, j) - lo(j)) / (hi(j) - lo(j)))
        b, _ = v.mat("u", N, D)
        g(b, P["bounds"])
        f(b, P["bounds"])
        v.prove_eq("unscale(scale(u)) = u", b.read(i, j), u(i, j))

    v.explore(run)


def illegal(v, entry):
    D, N, lo, hi = setup(v, False)
    f = v.target(entry)

    def run():
        P = problem(v, D)
        a, u = v.mat("u", N, D)
        try:
            f(a, P if entry.endswith(".scale_samples") else P["bounds"])
        except ValueError:
            v.prove("ValueError for a reversed or empty interval", True)
            return
        v.prove("ValueError for a reversed or empty interval", z3.BoolVal(False))

    v.explore(run)


CONTRACTS = [
    ("scale_samples", lambda v: scaling(v, "SALib.util.scale_samples")),
    ("_scale_samples", lambda v: scaling(v, "SALib.util._scale_samples")),
    ("_unscale_samples", unscaling),
    ("scale_samples rejects", lambda v: illegal(v, "SALib.util.scale_samples")),
    ("_scale_samples rejects", lambda v: illegal(v, "SALib.util._scale_samples")),
    ("_unscale_samples rejects", lambda v: illegal(v, "SALib.util._unscale_samples")),
]
