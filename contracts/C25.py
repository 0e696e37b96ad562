"""C25: discrepancy indices are normalised per parameter or group."""
from .common import *

META = {}
np = npshim
MOD = "SALib.analyze.discrepancy"
DISC = ufn("DISCREPANCY", KeySort, KeySort, Int, Obj, Real)


class Qmc:
    """assumed contract of scipy.stats.qmc"""

    def __init__(self, v):
        self.v = v

    def scale(self, sample, l_bounds=None, u_bounds=None, reverse=False):
        X = as_arr(sample)
        rd = X.reader()
        cell = lambda b: (lambda j: toreal(as_arr(b).read(j))) if isinstance(b, (Arr, PList)) else (lambda j: toreal(b))
        lo, hi = cell(l_bounds), cell(u_bounds)
        if reverse:
            f = lambda r, j: (toreal(rd(r, j)) - lo(j)) / (hi(j) - lo(j))
        else:
            f = lambda r, j: toreal(rd(r, j)) * (hi(j) - lo(j)) + lo(j)
        return Arr(X.shape, CFn(lambda r, j: f(toint(r), toint(j))), "real")

    def discrepancy(self, sample, iterative=False, method="CD", **k):
        if iterative is not False or k:
            raise Unsupported("qmc.discrepancy called with other options")
        X = as_arr(sample)
        self.v.prove("two columns", toint(X.shape[1]) == 2)
        m = term(method)
        r = DISC(key_of(X, z3.IntVal(0)), key_of(X, z3.IntVal(1)), toint(X.shape[0]), m)
        return wrap(r)


def indices(v, grouped):
    C = v.C
    D, N = v.int("D", 1), v.int("N", 1)
    m = v.module(MOD)
    v.under(MOD + ".analyze")
    v.stub(MOD, "qmc", Qmc(v), "assumed contract of scipy.stats.qmc: scale(reverse=True) maps x to (x-l)/(u-l); discrepancy is a positive function of the two columns")

    def run():
        p = problem(v, D, groups=grouped)
        lo, hi = ufn("lo", Int, Real), ufn("hi", Int, Real)
        X, x = v.mat("X", N, D)
        Y, y = v.mat("Y", N)
        method = z3.Const("method", Obj)
        a, b, c, d = z3.Const("a_k", KeySort), z3.Const("b_k", KeySort), z3.Int("n_k"), z3.Const("m_k", Obj)
        v.given(z3.ForAll([a, b, c, d], DISC(a, b, c, d) > 0, patterns=[DISC(a, b, c, d)]))
        if grouped:
            nu, uk, gi = group_view(p["groups"], D)
            v.given(nu >= 2)
            j0 = v.fresh_int("j0", 0, D)
            v.given(ufn("group", Int, Obj)(j0) != ufn("pname", Int, Obj)(j0))  # groups equal to the names: the ungrouped contract
        Si = m.analyze(p, X, Y, method=wrap(method), seed=None)
        mn, mx = toreal(np.min(Y)), toreal(np.max(Y))
        disc = lambda j: DISC(key_of(seq(N, lambda r: (x(r, j) - lo(j)) / (hi(j) - lo(j)))), key_of(seq(N, lambda r: (y(r) - mn) / (mx - mn))), N, method)
        tot = SUM(D, disc)
        s = as_arr(Si["s_discrepancy"])
        if not grouped:
            j = v.fresh_int("j", 0, D)
            v.prove("one value per parameter", toint(s.shape[0]) == D)
            v.prove_eq("discrepancy of (parameter by its bounds, output by its range) over the sum over all parameters", s.read(j), disc(j) / tot)
            v.prove_eq("the values sum to one over the parameters", z3.If(norm(tot) == 0, 0, SUM(D, lambda j: disc(j)) / tot), z3.If(norm(tot) == 0, z3.RealVal(0), z3.RealVal(1)))
            v.prove("names of the parameters", Si["names"] is p["names"])
        else:
            k = v.fresh_int("k", 0, nu)
            v.prove("one value per group", toint(s.shape[0]) == nu)
            gf = ufn("group", Int, Obj)
            mine = lambda j: gf(j) == uk(k)
            n = toreal(np.sum(seq(D, lambda j: z3.If(mine(j), z3.IntVal(1), z3.IntVal(0)), "int")))
            v.prove_eq("mean over the parameters of the group", s.read(k), SUM(D, lambda j: z3.If(mine(j), disc(j) / tot, z3.RealVal(0))) / n)
            v.prove_eq("name of the group", as_arr(Si["names"]).read(k), uk(k))

    v.explore(run)


CONTRACTS = [("analyze[no groups]", lambda v: indices(v, False)), ("analyze[groups]", lambda v: indices(v, True))]
