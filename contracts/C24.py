"""C24: regional sensitivity compares inside-bin and outside-bin outcomes for every bin."""
from .common import *
from .C22 import filt_key, Q, NanNS

META = {}
np = npshim
MOD = "SALib.analyze.rsa"
CVM = ufn("CVM2", KeySort, KeySort, KeySort, KeySort, Int, Real)
NUF = ufn("DISTINCT_SELECTED", KeySort, KeySort, Int, Int)
RSA = ufn("RSA", Int, Int, Real)


class RsaNS(NanNS):
    """numpy with quantiles and the number of distinct selected values as functions of the sequence"""

    def __init__(self):
        pass

    @staticmethod
    def unique(a, **k):
        if not isinstance(a, FiltArr) or k:
            return npshim.unique(a, **k)
        c, x = filt_key(a)
        r = type("U", (), {})()
        r.size = wrap(NUF(c, x, toint(a.n)))
        r.shape = (r.size,)
        return r

    @staticmethod
    def nanmean(a, axis=None, **k):
        if k:
            raise Unsupported("np.nanmean called in another way")
        if isinstance(a, FiltMat):
            return a.reduce(lambda s: wrap(nanmean_of(s)), axis)
        raise Unsupported("np.nanmean of this")


NM = ufn("NANMEAN_SELECTED", KeySort, KeySort, Int, Real)


def nanmean_of(s):
    c, x = filt_key(s)
    return NM(c, x, toint(s.n))


class Stat:
    def __init__(self, s):
        self.statistic = s


def setup(v):
    v.stub(MOD, "np", RsaNS(), "assumed contracts of np.quantile, np.unique(...).size, np.nanmean: functions of the (selected) values")

    def cvm(a, b, **k):
        if k:
            raise Unsupported("cramervonmises_2samp called with options")
        ca, xa = filt_key(a)
        cb, xb = filt_key(b)
        return Stat(wrap(CVM(ca, xa, cb, xb, toint(a.n))))

    v.stub(MOD, "cramervonmises_2samp", cvm, "assumed contract of scipy.stats.cramervonmises_2samp: statistic is a function of the two samples")


def table(v, target):
    """rsa: cell (bin, parameter)"""
    C = v.C
    D, N, S = v.int("D", 1), v.int("N", 1), v.int("bins", 1)
    m = v.module(MOD)
    v.under(MOD + ".rsa", MOD + "._has_samples")
    setup(v)

    def run():
        X, x = v.mat("X", N, D)
        Y, y = v.mat("Y", N)
        R = as_arr(m.rsa(X, Y, wrap(S), target))
        v.prove("one row per bin", toint(R.shape[0]) == S)
        v.prove("one column per parameter", toint(R.shape[1]) == D)
        j, s = v.fresh_int("j", 0, D), v.fresh_int("s", 0, S)
        cond = (lambda t: x(t, j)) if target == "X" else y
        other = y if target == "X" else (lambda t: x(t, j))
        kc = key_of(seq(N, cond))
        edge = lambda k: Q(kc, N, norm(toreal(k) / toreal(S)))

        def inside(t):
            return z3.And(z3.Or(edge(s) < cond(t), z3.And(s == 0, edge(s) <= cond(t))), cond(t) <= edge(s + 1))

        ind = lambda f: key_of(seq(N, lambda t: z3.If(f(t), z3.RealVal(1), z3.RealVal(0))))
        kin, kout = ind(inside), ind(lambda t: z3.Not(inside(t)))
        n_in = SUMI(N, lambda t: z3.If(inside(t), z3.IntVal(1), z3.IntVal(0)))
        n_out = SUMI(N, lambda t: z3.If(inside(t), z3.IntVal(0), z3.IntVal(1)))
        ko, ky = key_of(seq(N, other)), key_of(seq(N, y))
        for first in (True, False):
            save = list(C.pc)
            C.pc.append(s == 0 if first else s > 0)
            if C.feasible(z3.BoolVal(True)):
                v.prove_eq("first bin" if first else "later bin", R.read(s, j),
                       z3.If(z3.Or(n_in == 0, n_out == 0, NUF(kin, ky, N) <= 1), toreal(np.nan), CVM(kin, ko, kout, ko, N)))
            C.pc[:] = save

    v.explore(run)


def wrapper(v, grouped):
    """analyze: the table's columns per parameter or group, the bins"""
    C = v.C
    D, N, S = v.int("D", 1), v.int("N", 1), v.int("bins", 1)
    m = v.module(MOD)
    v.under(MOD + ".analyze")
    setup(v)
    got = {}

    def rsa(X, y, bins=10, target="X"):
        got.update(X=X, y=y, bins=bins, target=target)
        return Arr((wrapdim(S), wrapdim(D)), CFn(lambda s, j: RSA(toint(s), toint(j))), "real")

    v.stub(MOD, "rsa", rsa, "callee contract: rsa gives one row per bin, one column per parameter (proved in its own contract)")

    def run():
        got.clear()
        p = problem(v, D, groups=grouped)
        if grouped:
            nu, uk, gi = group_view(p["groups"], D)
            v.given(nu >= 2)
            j0 = v.fresh_int("j0", 0, D)
            gf = ufn("group", Int, Obj)
            v.given(gf(j0) != ufn("pname", Int, Obj)(j0))
        else:
            distinct(v, p["names"], D)
        t = z3.Int("t")
        for w in ("names", "bins", "target"):
            v.given(z3.ForAll([t], ufn("pname", Int, Obj)(t) != term(w)))
            v.given(z3.ForAll([t], ufn("group", Int, Obj)(t) != term(w)))
        X, x = v.mat("X", N, D)
        Y, y = v.mat("Y", N)
        Si = m.analyze(p, X, Y, bins=wrap(S), target="Y")
        v.prove("analyses the samples, outputs, bins and target given", z3.BoolVal(got["X"] is X and got["y"] is Y and got["target"] == "Y"))
        v.prove_eq("with the number of bins given", toint(got["bins"]), S)
        b = as_arr(Si["bins"])
        v.prove("one label per bin", toint(b.shape[0]) == S)
        s = v.fresh_int("s", 0, S)
        v.prove_eq("bin s starts at s/bins", b.read(s), toreal(s) / toreal(S))
        v.prove("target recorded", z3.BoolVal(Si["target"] == "Y"))
        if grouped:
            g = v.fresh_int("g", 0, nu)
            name = uk(g)
            ind = key_of(seq(D, lambda j: z3.If(gf(j) == name, z3.RealVal(1), z3.RealVal(0))))
            want = NM(ind, key_of(seq(D, lambda j: RSA(s, j))), D)
        else:
            g = v.fresh_int("g", 0, D)
            name = ufn("pname", Int, Obj)(g)
            want = RSA(s, g)
        v.prove_eq("name in place", as_arr(Si["names"]).read(g), name)
        col = as_arr(Si[wrap(name)])
        v.prove("one value per bin", toint(col.shape[0]) == S)
        v.prove_eq("column under its name", col.read(s), want)

    v.explore(run)


CONTRACTS = [("rsa[X]", lambda v: table(v, "X")), ("rsa[Y]", lambda v: table(v, "Y")), ("analyze[no groups]", lambda v: wrapper(v, False)), ("analyze[groups]", lambda v: wrapper(v, True))]
