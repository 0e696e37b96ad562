"""C11: the FAST design follows the search curve with one block per driver parameter."""
from .common import *

META = {}
np = npshim
FS = "SALib.sample.fast_sampler"
SIN, ASIN, PI = npshim.SIN, npshim.ARCSIN, npshim.PI


def trig(v):
    """what is used of the transcendental functions"""
    x = z3.Real("x")
    v.given(z3.ForAll([x], z3.And(-1 <= SIN(x), SIN(x) <= 1), patterns=[SIN(x)]))
    v.given(z3.ForAll([x], z3.Implies(z3.And(-1 <= x, x <= 1), z3.And(-PI / 2 <= ASIN(x), ASIN(x) <= PI / 2)), patterns=[ASIN(x)]))
    v.given(PI > 3)
    v.assume_text("|sin| <= 1, |arcsin| <= pi/2 on [-1,1], pi > 3 (facts about the mathematical functions; libm rounding not modelled)")


def design(v, many):
    C = v.C
    D, N, M = v.int("D", 1), v.int("N", 1), v.int("M", 1)
    m = v.module(FS)
    v.under(FS + ".sample")
    got = capture_scale(v)

    trig(v)

    def run():
        v.given(N > 4 * M * M)
        w0 = (N - 1) / (2 * M)  # integer division = floor
        mm = w0 / (2 * M)
        v.given(mm >= D - 1 if many else mm < D - 1)
        p = problem(v, D)
        X = m.sample(p, wrap(N), M=wrap(M), seed=wrap(v.int("seed", 0)))
        U = got["in"]
        v.prove("scaled once by the problem", got["n"] == 1 and got["problem"] is p)
        v.prove("N*D rows, D columns", z3.And(toint(U.shape[0]) == N * D, toint(U.shape[1]) == D, toint(X.shape[0]) == N * D))
        i, j, r = v.fresh_int("i", 0, D), v.fresh_int("j", 0, D), v.fresh_int("r", 0, N)
        row = i * N + r
        v.prove_eq("the result is the scaled design", X.read(row, j), T(j, U.read(row, j)))
        ph = [e for e in C.events if e[0] in ("draw1", "loop")]
        v.expect("one phase per block", len(ph) == 1 and ph[0][0] == "loop" and ph[0][3][0] == "draw1" and ph[0][3][1] == "random")
        phi1 = ph[0][3][2]
        phi = 2 * PI * z3.substitute(phi1, (ph[0][1], i))
        v.prove("phases are drawn from [0, 2 pi)", z3.And(phi >= 0, phi < 2 * PI))
        k = z3.If(j < i, j, j - 1)

        def comp_of(k):
            if many:  # the whole parts of D-1 equally spaced values from 1 to m
                return toreal(z3.ToInt(norm(z3.If(D - 1 > 1, 1 + toreal(k) * (toreal(mm) - 1) / toreal(D - 2), z3.RealVal(1)))))
            return toreal(k % mm + 1)

        comp = comp_of(k)
        s = 2 * PI / toreal(N) * toreal(r)
        save = list(C.pc)
        for nm, cs, kk in (("own frequency in its block", i == j, None), ("complementary frequencies before the driver", j < i, j), ("complementary frequencies after the driver", j > i, j - 1)):
            C.pc[:] = save + [cs]
            om = toreal(w0) if kk is None else comp_of(kk)
            v.prove_eq("the search curve: " + nm, v.resolve(norm(toreal(U.read(row, j)))), z3.RealVal("1/2") + ASIN(norm(SIN(v.resolve(norm(om * s + phi))))) / PI)
        C.pc[:] = save
        c = toreal(U.read(row, j))
        v.prove("every unscaled value is in [0,1]", z3.And(c >= 0, c <= 1))
        v.prove("complementary frequencies are at least 1", z3.Implies(i != j, comp >= 1))
        v.prove("complementary frequencies are at most max(1, base/(2M))", z3.Implies(i != j, comp <= z3.If(mm > 1, toreal(mm), z3.RealVal(1))))

    v.explore(run)


def refuse(v):
    C = v.C
    D, N, M = v.int("D", 1), v.int("N"), v.int("M", 1)
    m = v.module(FS)
    v.under(FS + ".sample")

    def run():
        v.given(N <= 4 * M * M)
        try:
            m.sample(problem(v, D), wrap(N), M=wrap(M))
        except ValueError:
            v.prove("refused with ValueError", True)
            return
        v.prove("refused with ValueError", False)

    v.explore(run)


CONTRACTS = [("sample[few parameters]", lambda v: design(v, True)), ("sample[many parameters]", lambda v: design(v, False)), ("sample refuses", refuse)]
