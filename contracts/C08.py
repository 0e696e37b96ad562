"""C08: Morris trajectories move one group at a time by the documented step on the grid."""
from .common import *

META = {}


def design(v, grouped):
    C = v.C
    D, N = v.int("D", 1), v.int("N", 1)
    h = v.int("half_levels", 1)
    m = v.module("SALib.sample.morris.morris")
    v.under(*["SALib.sample.morris.morris." + f for f in ("sample", "_sample_morris", "_generate_trajectory", "_compute_b_star", "_generate_p_star", "_generate_x_star", "_compute_delta", "_check_if_num_levels_is_even", "_check_group_membership")])
    got = capture_scale(v)

    def run():
        p = problem(v, D, groups=grouped)
        src = p["groups"] if grouped else p["names"]
        nu, uk, gi = group_view(src, D)
        if not grouped:
            distinct(v, p["names"], D)
        L = 2 * h
        X = m.sample(p, wrap(N), num_levels=wrap(L), seed=wrap(v.int("seed", 0)))
        U = got["in"]
        v.expect("scaled once, from the finished design", got["n"] == 1)
        t, r, r1 = v.fresh_int("t", 0, N), v.fresh_int("r", 0, nu + 1), v.fresh_int("r1", 0, nu)
        j, j2 = v.fresh_int("j", 0, D), v.fresh_int("j2", 0, D)
        k = v.fresh_int("k", 0, nu)
        P = nu + 1
        v.prove("N trajectories of G+1 points", z3.And(toint(U.shape[0]) == N * P, toint(X.shape[0]) == N * P))
        v.prove("D columns", z3.And(toint(U.shape[1]) == D, toint(X.shape[1]) == D))
        v.prove_eq("the result is the scaled design", X.read(t * P + r, j), T(j, U.read(t * P + r, j)))
        cell = lambda r_, j_: norm(toreal(U.read(t * P + r_, j_)))
        c = cell(r, j)
        delta = toreal(L) / (2 * (toreal(L) - 1))
        # the level of a coordinate
        base = [a for a in apps(c, ".integers!")]
        perms = apps(c, ".perm!")
        v.expect("grid draw, direction draw and one permutation", len(base) == 2 and len(perms) == 1)
        pos = perms[0]
        sig = lambda j_: z3.substitute(pos, (j, j_))
        # a row difference
        d = norm(cell(r1 + 1, j) - cell(r1, j))
        moved = sig(j) == r1
        v.prove("a step changes a coordinate by exactly delta up or down, or not at all", z3.Or(d == 0, d == delta, d == -delta))
        v.prove("a coordinate moves exactly at its group's step", (d != 0) == moved)
        v.prove("columns of one group move together", z3.Implies(gi(j) == gi(j2), sig(j) == sig(j2)))
        v.prove("columns of different groups move at different steps", z3.Implies(gi(j) != gi(j2), sig(j) != sig(j2)))
        v.prove("each group has a step", z3.And(0 <= sig(j), sig(j) < nu))
        # every step moves a group: the inverse permutation names it
        inv, hit = C.inverse[pos.decl().name()](pos.children()[:-1], r1)
        fk = npshim.unique_model(src, "first").uniq[3]
        w = fk(inv)
        v.prove("every step moves the columns of one group", z3.And(0 <= w, w < D, sig(w) == r1))
        # the grid: coordinate * (L-1) is the base level, or half the levels above it
        v.expect("grid draw and direction draw", all(C.valid(toint(b.children()[-1]) == j) for b in base))
        two = [b for b in base if C.valid(z3.And(0 <= b, b < 2), 8000)]
        grid = [b for b in base if C.valid(z3.And(0 <= b, b < h), 8000) and not any(b.eq(x) for x in two)]
        v.expect("grid draw and direction draw", len(grid) == 1 and len(two) == 1)
        g, way = grid[0], two[0]
        save = list(C.pc)
        for up in (0, 1):
            for done in (True, False):
                for small in (True, False):
                    C.pc[:] = save + [way == up, (sig(j) < r) if done else (sig(j) >= r), h == 1 if small else h > 1]
                    x = v.resolve(c)
                    if small:
                        x = norm(z3.substitute(x, (h, z3.IntVal(1))))
                        g0 = z3.IntVal(0)
                    else:
                        g0 = g
                    # a coordinate that goes up starts at the base level, one that goes down ends there
                    lev = g0 + (h if (up == 1) == done else 0)
                    lev = z3.substitute(lev, (h, z3.IntVal(1))) if small else lev
                    L1 = z3.RealVal(1) if small else toreal(L) - 1
                    v.prove_eq(f"every coordinate is a grid level [{'up' if up else 'down'}, {'moved' if done else 'not moved'}, {'2 levels' if small else 'more levels'}]", norm(x * L1), toreal(lev))
                    v.prove(f"the level is one of 0..p-1 [{'up' if up else 'down'}, {'moved' if done else 'not moved'}, {'2 levels' if small else 'more levels'}]", z3.And(0 <= lev, lev <= L - 1))
        C.pc[:] = save

    v.explore(run)


def odd(v):
    """odd numbers of levels are allowed (a warning), other sizes are refused"""


CONTRACTS = [("morris.sample[groups]", lambda v: design(v, True)), ("morris.sample[no groups]", lambda v: design(v, False))]
