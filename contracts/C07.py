"""C07: Latin hypercube samples hit every stratum of every parameter exactly once."""
from .common import *

META = {}


def lhs(v, grouped):
    C = v.C
    D, N = v.int("D", 1), v.int("N", 1)
    m = v.module("SALib.sample.latin")
    v.under("SALib.sample.latin.sample")
    got = capture_scale(v)

    def run():
        p = problem(v, D, groups=grouped)
        if grouped:
            nu, uk, gi = group_view(p["groups"], D)
            C.pc += [nu >= 2]
            v.under("SALib.util.compute_groups_matrix")
        else:
            gi = lambda j: toint(j)
        X = m.sample(p, wrap(N), seed=wrap(v.int("seed", 0)))
        U = got["in"]
        v.expect("scaled once, from the finished design", got["n"] == 1)
        v.prove("the problem is the one scaled by", got["problem"] is p)
        v.prove("N rows", z3.And(toint(U.shape[0]) == N, toint(X.shape[0]) == N))
        v.prove("D columns", z3.And(toint(U.shape[1]) == D, toint(X.shape[1]) == D))
        j, j2 = v.fresh_int("j", 0, D), v.fresh_int("j2", 0, D)
        s, s2 = v.fresh_int("s", 0, N), v.fresh_int("s2", 0, N)
        q = v.fresh_int("q", 0, N)
        v.prove_eq("the result is the scaled design", X.read(s, j), T(j, U.read(s, j)))
        c = norm(toreal(U.read(s, j)))
        # the stratum of a cell: the shuffled row index
        ap = apps(c, ".perm!")
        v.expect("one permutation decides the stratum", len(ap) == 1)
        sig = ap[0]
        inside = lambda x, k: z3.And(toreal(k) <= x * toreal(N), x * toreal(N) < toreal(k) + 1)
        v.prove("each cell lies in its stratum", inside(c, sig))
        v.prove("strata are 0..N-1", z3.And(0 <= sig, sig < N))
        at = lambda s_, j_: z3.substitute(sig, (s, s_), (j, j_))
        v.prove("two rows never share a stratum", z3.Implies(s != s2, at(s, j) != at(s2, j)))
        # every stratum is hit: the row is the inverse permutation of the stratum
        inv = C.inverse[sig.decl().name()]
        w = inv(sig.children()[:-1], q)[0]
        v.prove("every stratum is hit", z3.And(0 <= w, w < N, at(w, j) == q))
        v.prove("columns of one group share the permutation", z3.Implies(gi(j) == gi(j2), at(s, j) == at(s, j2)))
        a1, a2 = sig.children()[:-1], at(s, j2).children()[:-1]
        v.prove("columns of different groups use different draws of the permutation", z3.Implies(gi(j) != gi(j2), z3.Or([x != y for x, y in zip(a1, a2)] or [z3.BoolVal(False)])))

    v.explore(run)


CONTRACTS = [("latin.sample[no groups]", lambda v: lhs(v, False)), ("latin.sample[groups]", lambda v: lhs(v, True))]
