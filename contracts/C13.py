"""C13: finite-difference designs perturb one parameter per row; DGSM uses those rows."""
from .common import *

META = {}
np = npshim
FD, DG = "SALib.sample.finite_diff", "SALib.analyze.dgsm"
RANGES = ("unif", "logunif", "truncnorm")


def design(v, dists):
    """finite_diff.sample over a symbolic problem"""
    C = v.C
    D, N, skip = v.int("D", 1), v.int("N", 1), v.int("skip", 0)
    m = v.module(FD)
    v.under(FD + ".sample")
    got = capture_scale(v)
    asked = []
    B = z3.Function("base", Int, Int, Real)

    def seq(n, d):
        asked.append((toint(n), toint(d)))
        return Arr((wrapdim(toint(n)), wrapdim(toint(d))), CFn(lambda i, j: B(toint(i), toint(j))), "real")

    v.stub("SALib.sample.sobol_sequence", "sample", seq, "callee contract: sobol_sequence.sample gives an (n x D) matrix (C06)")

    def run():
        extra = {}
        if dists:
            dn, df = v.names("dist", D)
            extra["dists"] = dn
        p = problem(v, D, **extra)
        lo, hi = ufn("lo", Int, Real), ufn("hi", Int, Real)
        delta = v.real("delta")
        X = m.sample(p, wrap(N), delta=wrap(delta), seed=wrap(v.int("seed", 0)), skip_values=wrap(skip))
        v.prove("one base sequence of N + skipped points in D columns", z3.And(z3.BoolVal(len(asked) == 1), asked[0][0] == N + skip, asked[0][1] == D) if asked else False)
        v.prove("scaled once by the problem", got["n"] == 1 and got["problem"] is p)
        v.prove("N blocks of D+1 rows", z3.And(toint(X.shape[0]) == N * (D + 1), toint(X.shape[1]) == D))
        i, j, c = v.fresh_int("i", 0, N), v.fresh_int("j", 0, D), v.fresh_int("c", 0, D)
        x = lambda k: T(k, B(i + skip, k))
        P = D + 1
        v.prove_eq("first row of a block is the scaled base point", X.read(i * P, c), x(c))
        row = X.read(i * P + j + 1, c)
        save = list(C.pc)
        C.pc.append(c != j)
        v.prove_eq("other parameters keep the base value", row, x(c))
        C.pc[:] = save
        own = X.read(i * P + j + 1, j)
        moved = x(j) + x(j) * delta
        mn = z3.If(moved <= hi(j), moved, hi(j))
        clipped = z3.If(mn >= lo(j), mn, lo(j))
        if dists:
            is_ = lambda s: df(j) == C.literal(s)
            conf = z3.Or(*[is_(s) for s in RANGES])
            tri = is_("triang")
            v.prove("a range-bounded parameter moves by delta times its value, pulled back into the range", z3.Implies(conf, toreal(own) == clipped))
            v.prove("other distributions are not confined to their parameters", z3.Implies(z3.Not(z3.Or(conf, tri)), toreal(own) == moved))
        else:
            v.prove_eq("the parameter moves by delta times its value, pulled back into the range", own, clipped)
            C.pc.append(lo(j) <= hi(j))
            v.prove("no uniform parameter leaves its bounds", z3.And(lo(j) <= toreal(own), toreal(own) <= hi(j)))

    v.explore(run)


def indices(v):
    """dgsm.analyze: rows of the blocks"""
    C = v.C
    D, N, R = v.int("D", 1), v.int("N", 1), v.int("R", 2)
    m = v.module(DG)
    v.under(DG + ".analyze", DG + ".calc_vi_stats", DG + ".calc_vi_mean", DG + ".calc_dgsm")

    def run():
        p = problem(v, D)
        lo, hi = ufn("lo", Int, Real), ufn("hi", Int, Real)
        X, x = v.mat("X", N * (D + 1), D)
        Y, y = v.mat("Y", N * (D + 1))
        conf = v.real("conf")
        v.given(z3.And(conf > 0, conf < 1))
        S = m.analyze(p, X, Y, num_resamples=wrap(R), conf_level=wrap(conf), seed=wrap(v.int("seed", 0)))
        j = v.fresh_int("j", 0, D)
        P = D + 1
        q = lambda i: (y(i * P + j + 1) - y(i * P)) / (x(i * P + j + 1, j) - x(i * P, j))
        sq = Arr((wrapdim(N),), CFn(lambda i: q(toint(i)) * q(toint(i))), "real")
        base = Arr((wrapdim(N),), CFn(lambda i: y(toint(i) * P)), "real")
        v.prove_eq("vi is the mean squared difference quotient", S["vi"].read(j), np.mean(sq))
        v.prove_eq("vi_std is their standard deviation", S["vi_std"].read(j), np.std(sq))
        w = hi(j) - lo(j)
        pi = toreal(np.pi)
        v.prove_eq("dgsm", S["dgsm"].read(j), toreal(np.mean(sq)) * w * w / (toreal(np.var(base)) * pi * pi))
        v.prove("names of the parameters", S["names"] is p["names"])
        ev = [e for e in C.events if e[0] in ("draw", "loop")]
        v.expect("one draw of resampled rows per parameter", len(ev) == 1 and ev[0][0] == "loop" and ev[0][3][0] == "draw")
        fn, sh = ev[0][3][2], ev[0][3][3]
        r_, i_ = v.fresh_int("r", 0, R), v.fresh_int("i", 0, N)
        v.prove("N rows per resample", z3.And(toint(sh[0]) == R, toint(sh[1]) == N))
        g = fn(r_, i_).decl()
        v.prove("drawn with replacement among the base rows", z3.And(0 <= g(j, r_, i_), g(j, r_, i_) < N))
        any_row(v, ev[0], N)
        boot = Arr((wrapdim(R),), CFn(lambda r: SUM(N, lambda i: q(g(j, toint(r), i)) * q(g(j, toint(r), i))) / toreal(N)), "real")
        Z = ufn("ppf_stdnorm", Real, Real)(norm(z3.Q(1, 2) + conf / 2))
        v.prove_eq("dgsm_conf is the quantile times the sample standard deviation of the resampled vi", S["dgsm_conf"].read(j), Z * toreal(np.std(boot, ddof=1)))

    v.explore(run)


def refuse(v):
    """lengths that are no whole number of blocks"""
    C = v.C
    D, n = v.int("D", 1), v.int("n", 1)
    m = v.module(DG)
    v.under(DG + ".analyze")

    def run():
        p = problem(v, D)
        v.given(n % (D + 1) != 0)
        X, x = v.mat("X", n, D)
        Y, y = v.mat("Y", n)
        try:
            m.analyze(p, X, Y)
        except RuntimeError:
            v.prove("refused", True)
            return
        v.prove("refused", False)

    v.explore(run)


CONTRACTS = [("finite_diff.sample[uniform]", lambda v: design(v, False)), ("finite_diff.sample[any distributions]", lambda v: design(v, True)), ("dgsm.analyze", indices), ("dgsm.analyze refuses", refuse)]
