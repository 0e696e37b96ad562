"""C22: PAWN statistics are taken over a proper partition of the sample."""
from .common import *

META = {}
np = npshim
MOD = "SALib.analyze.pawn"
Q = ufn("NANQUANTILE", KeySort, Int, Real, Real)
KS = ufn("KS2", KeySort, KeySort, KeySort, Int, Real)
STATS = ("nanmin", "nanmean", "nanmedian", "nanmax", "nanstd")
NANF = {s: ufn("np_" + s, KeySort, Int, Real) for s in STATS}


class NanNS:
    """numpy with the NaN statistics as functions of the sequence they are given"""

    def __init__(self, v):
        for s in STATS:
            setattr(self, s, self._stat(s))

    @staticmethod
    def _stat(s):
        def f(a, axis=None, **k):
            a = as_arr(a)
            if k or a.ndim != 1 or axis not in (None, 0):
                raise Unsupported(f"np.{s} called in another way")
            return wrap(NANF[s](key_of(a), toint(a.shape[0])))
        return f

    @staticmethod
    def nanquantile(a, q, **k):
        a = as_arr(a)
        if k or a.ndim != 1:
            raise Unsupported("np.nanquantile called in another way")
        kx, n = key_of(a), toint(a.shape[0])
        if isinstance(q, (Arr, PList)):
            q = as_arr(q)
            rd = q.reader()
            return Arr(q.shape, CFn(lambda i: Q(kx, n, norm(toreal(rd(i))))), "real")
        return wrap(Q(kx, n, norm(toreal(q))))

    quantile = nanquantile

    def __getattr__(self, n):
        return getattr(npshim, n)


def filt_key(s):
    """names for (which positions are selected, the values)"""
    if not isinstance(s, FiltArr):
        raise Unsupported(f"not a selection: {type(s)}")
    n = toint(s.n)
    return key_of(Arr((wrapdim(n),), CFn(lambda t: z3.If(s.cond(toint(t)), z3.RealVal(1), z3.RealVal(0))), "real")), key_of(Arr((wrapdim(n),), CFn(lambda t: toreal(s.val(toint(t)))), "real"))


class KsRes:
    def __init__(self, s):
        self.statistic = s


def setup(v):
    v.stub(MOD, "np", NanNS(v), "assumed contracts of np.nanquantile, nanmin, nanmean, nanmedian, nanmax, nanstd: functions of the values")

    def ks(a, b, *x, **k):
        if x or k:
            raise Unsupported("ks_2samp called with options")
        ck, vk = filt_key(a)
        b = as_arr(b)
        return KsRes(wrap(KS(ck, vk, key_of(b), toint(b.shape[0]))))

    v.stub(MOD, "ks_2samp", ks, "assumed contract of scipy.stats.ks_2samp: statistic is a function of the two samples, in [0,1]")


def indices(v, grouped):
    C = v.C
    D, N, S = v.int("D", 1), v.int("N", 1), v.int("S", 1)
    m = v.module(MOD)
    v.under(MOD + ".analyze")
    setup(v)

    def run():
        p = problem(v, D, groups=grouped)
        if grouped:
            nu, uk, gi = group_view(p["groups"], D)
            v.given(nu >= 2)
            j0 = v.fresh_int("j0", 0, D)
            gf = ufn("group", Int, Obj)
            v.given(gf(j0) != ufn("pname", Int, Obj)(j0))
        else:
            distinct(v, p["names"], D)
        X, x = v.mat("X", N, D)
        Y, y = v.mat("Y", N)
        Si = m.analyze(p, X, Y, S=wrap(S), seed=wrap(v.int("seed", 0)))
        ky = key_of(Y)

        def stat(name, j):
            kx = key_of(seq(N, lambda t: x(t, j)))
            edge = lambda s: Q(kx, N, norm(toreal(s) / toreal(S)))

            def inside(t, s):
                return z3.And(x(t, j) >= edge(s), z3.Or(x(t, j) < edge(s + 1), z3.And(s == S - 1, x(t, j) <= edge(s + 1))))

            def cell(s):
                sel = lambda t: z3.If(inside(t, s), z3.IntVal(1), z3.IntVal(0))
                kc = key_of(seq(N, lambda t: z3.If(inside(t, s), z3.RealVal(1), z3.RealVal(0))))
                return z3.If(SUMI(N, sel) == 0, toreal(np.nan), KS(kc, ky, ky, N))

            return NANF[name](key_of(seq(S, cell)), S)

        spec = {"minimum": lambda j: stat("nanmin", j), "mean": lambda j: stat("nanmean", j), "median": lambda j: stat("nanmedian", j),
                "maximum": lambda j: stat("nanmax", j), "CV": lambda j: stat("nanstd", j) / stat("nanmean", j), "stdev": lambda j: stat("nanstd", j)}
        if not grouped:
            j = v.fresh_int("j", 0, D)
            for k, f in spec.items():
                a = as_arr(Si[k])
                v.prove(f"{k}: one value per parameter", toint(a.shape[0]) == D)
                v.prove_eq(f"{k} over the slices of parameter j", a.read(j), f(j))
            jn = v.fresh_int("jn", 0, D)
            v.prove_eq("names of the parameters", as_arr(Si["names"]).read(jn), ufn("pname", Int, Obj)(jn))
        else:
            g = v.fresh_int("g", 0, nu)
            mine = lambda j: gf(j) == uk(g)
            n = toreal(np.sum(seq(D, lambda j: z3.If(mine(j), z3.IntVal(1), z3.IntVal(0)), "int")))
            for k, f in spec.items():
                a = as_arr(Si[k])
                v.prove(f"{k}: one value per group", toint(a.shape[0]) == nu)
                v.prove_eq(f"{k} is the mean over the group's parameters", a.read(g), SUM(D, lambda j: z3.If(mine(j), f(j), z3.RealVal(0))) / n)
            v.prove_eq("name of the group", as_arr(Si["names"]).read(g), uk(g))

    v.explore(run)


def cover(v):
    """lemma: the slices cut at non-decreasing edges from the smallest to the largest value hold every sample exactly once"""
    C = v.C
    S = v.int("S", 1)

    def run():
        e = z3.Function("edge", Int, Real)
        a, b = z3.Ints("a b")
        v.given(z3.ForAll([a, b], z3.Implies(a <= b, e(a) <= e(b)), patterns=[z3.MultiPattern(e(a), e(b))]))
        x = v.real("x")
        v.given(z3.And(e(0) <= x, x <= e(S)))
        inside = lambda s: z3.And(x >= e(s), z3.Or(x < e(s + 1), z3.And(s == S - 1, x <= e(s + 1))))
        s1, s2 = v.fresh_int("s1", 0, S), v.fresh_int("s2", 0, S)
        # (x equal to the largest value sits in the last slice; an empty slice has equal edges)
        v.prove("no sample in two slices", z3.Implies(z3.And(inside(s1), inside(s2), s1 < s2), z3.BoolVal(False)))
        # induction on the slices: after k slices either x was met or x >= e(k)
        k = v.int("k", 0)
        v.prove("every sample in a slice (induction step)", z3.Implies(z3.And(k < S, x >= e(k)), z3.Or(inside(k), x >= e(k + 1))))
        v.prove("every sample in a slice (last step)", z3.Implies(x >= e(S - 1), inside(S - 1)))

    v.explore(run)


CONTRACTS = [("analyze[no groups]", lambda v: indices(v, False)), ("analyze[groups]", lambda v: indices(v, True)), ("slices partition", cover)]
