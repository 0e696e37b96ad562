"""C02: non-uniform scaling applies each column's own inverse CDF."""
from .common import *

META = {}
DISTS = ["unif", "logunif", "triang", "norm", "truncnorm", "lognorm", "weibull"]
B = ufn("B", Int, Int, Real)
LEN = ufn("rowlen", Int, Int)
DN = ufn("distname", Int, Obj)


def rows(D):
    return PList.sym(D, lambda i: PList.sym(LEN(toint(i)), lambda k: B(toint(i), toint(k))))


def legal(C, j):
    """well-formed specification of column j (from the property statement)"""
    L = C.literal
    b0, b1, b2, b3 = [B(j, k) for k in range(4)]
    n = LEN(j)
    return z3.Or(
        z3.And(DN(j) == L("unif"), n == 2, b0 < b1),
        z3.And(DN(j) == L("logunif"), n == 2, 0 < b0, b0 < b1),
        z3.And(DN(j) == L("triang"), z3.Or(z3.And(n == 3, b1 >= 0, b0 < b1, 0 <= b2, b2 < 1), z3.And(n == 2, b0 > 0, 0 <= b1, b1 < 1))),
        z3.And(DN(j) == L("norm"), n == 2, b1 > 0),
        z3.And(DN(j) == L("truncnorm"), n == 4, b3 > 0, b0 < b1),
        z3.And(DN(j) == L("lognorm"), n == 2, b1 > 0),
        z3.And(DN(j) == L("weibull"), z3.Or(n == 2, n == 3), b0 > 0, b1 > 0),
    )


def illegal(C, j):
    """malformed in one of the ways the property lists"""
    L = C.literal
    b0, b1, b2, b3 = [B(j, k) for k in range(4)]
    n = LEN(j)
    return z3.Or(
        z3.And([DN(j) != L(d) for d in DISTS]),
        z3.And(DN(j) == L("unif"), b0 >= b1),
        z3.And(DN(j) == L("logunif"), z3.Or(b0 >= b1, b0 <= 0)),
        z3.And(DN(j) == L("triang"), n == 3, z3.Or(b2 < 0, b2 >= 1, b0 >= b1)),
        z3.And(DN(j) == L("triang"), n == 2, z3.Or(b1 < 0, b1 >= 1, b0 <= 0)),
        z3.And(DN(j) == L("triang"), n != 2, n != 3),
        z3.And(DN(j) == L("norm"), b1 <= 0),
        z3.And(DN(j) == L("truncnorm"), z3.Or(b3 <= 0, b0 >= b1)),
        z3.And(DN(j) == L("lognorm"), b1 <= 0),
        z3.And(DN(j) == L("weibull"), z3.Or(n == 2, n == 3), z3.Or(b0 <= 0, b1 <= 0)),
        z3.And(DN(j) == L("weibull"), n != 2, n != 3),
    )


def setup(v):
    C = v.C
    for d in DISTS:
        C.literal(d)
    return v.int("D", 1), v.int("N", 1)


def prob(v, D, nd):
    names, _ = v.names("pname", D)
    return PDict({"num_vars": wrapdim(D), "names": names, "bounds": rows(D), "dists": PList.sym(nd, lambda i: DN(toint(i)))})


def values(v):
    C = v.C
    D, N = setup(v)
    f = v.target("SALib.util.scale_samples")
    v.under("SALib.util._nonuniform_scale_samples")
    k = z3.Int("k_")
    v.pre(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < D), legal(C, k)), patterns=[DN(k)]))
    v.pre(z3.ForAll([k], LEN(k) >= 2, patterns=[LEN(k)]))

    def run():
        P = prob(v, D, D)
        a, u = v.mat("u", N, D)
        c0 = heap_get(a.ref)
        X = f(a, P)
        v.prove("input matrix untouched", heap_get(a.ref) is c0 and X.ref != a.ref)
        v.prove("problem marked as scaled", P.get("sample_scaled") is True)
        v.prove("shape kept", z3.And(toint(X.shape[0]) == N, toint(X.shape[1]) == D))
        i, j = v.fresh_int("i", 0, N), v.fresh_int("j", 0, D)
        x = X.read(i, j)
        w = u(i, j)
        b = [B(j, q) for q in range(4)]
        is_ = lambda d: DN(j) == C.literal(d)
        z = ufn("ppf_stdnorm", Real, Real)
        R3 = [Real] * 4
        tri = ufn("ppf_triang", *([Real] * 5))
        wei = ufn("ppf_weibull", *([Real] * 5))
        lou = ufn("ppf_loguniform", *([Real] * 6))
        trn = ufn("ppf_truncnorm", *([Real] * 6))
        exp = npshim.EXP
        leg = legal(C, j)
        zero, one = z3.RealVal(0), z3.RealVal(1)

        def case(name, cond, val):
            save = list(C.pc)
            C.pc += [leg, cond]
            v.prove_eq(f"column j is the {name} quantile", x, val)
            C.pc[:] = save

        case("unif", is_("unif"), b[0] + w * (b[1] - b[0]))
        case("logunif", is_("logunif"), lou(w, b[0], b[1], zero, one))
        case("triang (3 values)", z3.And(is_("triang"), LEN(j) == 3), tri(w, b[2], b[0], norm(b[1] - b[0])))
        case("triang (2 values)", z3.And(is_("triang"), LEN(j) == 2), tri(w, b[1], zero, b[0]))
        case("norm", is_("norm"), b[0] + b[1] * z(w))
        case("lognorm", is_("lognorm"), exp(norm(b[0] + b[1] * z(w))))
        case("truncnorm", is_("truncnorm"), trn(w, norm((b[0] - b[2]) / b[3]), norm((b[1] - b[2]) / b[3]), b[2], b[3]))
        case("weibull (2 values)", z3.And(is_("weibull"), LEN(j) == 2), wei(w, b[0], zero, b[1]))
        case("weibull (3 values)", z3.And(is_("weibull"), LEN(j) == 3), wei(w, b[0], b[2], b[1]))

    v.explore(run)


def rejects(v):
    C = v.C
    D, N = setup(v)
    f = v.target("SALib.util.scale_samples")
    bad = z3.Int("bad")
    k = z3.Int("k_")
    v.pre(0 <= bad, bad < D, illegal(C, bad))
    v.pre(z3.ForAll([k], LEN(k) >= 2, patterns=[LEN(k)]))

    def run():
        P = prob(v, D, D)
        a, u = v.mat("u", N, D)
        try:
            f(a, P)
        except ValueError:
            v.prove("ValueError for an illegal column", True)
            return
        # the path returned: it must be impossible
        C.pc += [DN(bad) == DN(bad), LEN(bad) >= 2]
        v.prove("ValueError for an illegal column", z3.BoolVal(False))

    v.explore(run)


def mismatch(v):
    C = v.C
    D, N = setup(v)
    nd = v.int("nd", 0)
    v.pre(nd != D)
    f = v.target("SALib.util.scale_samples")

    def run():
        P = prob(v, D, nd)
        a, u = v.mat("u", N, D)
        try:
            f(a, P)
        except ValueError:
            v.prove("ValueError for a wrong number of distributions", True)
            return
        v.prove("ValueError for a wrong number of distributions", z3.BoolVal(False))

    v.explore(run)


CONTRACTS = [("scale_samples with dists", values), ("illegal column", rejects), ("wrong number of dists", mismatch)]
