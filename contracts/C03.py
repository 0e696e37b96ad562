"""C03: Sobol'/Saltelli designs have the exact radial A/AB/BA/B row structure."""
from .common import *

META = {}


def design(v, modname, second, grouped):
    D, N = v.int("D", 1), v.int("N", 1)
    m = v.module(modname)
    v.under(modname + ".sample")
    stub_scale(v)
    C = v.C
    skip = v.int("skip", 0)
    SEQ = ufn("SEQ", Int, Int, Real)
    if modname.endswith("saltelli"):
        def seq(n, d):
            C.events.append(("seq", n, d))
            return Arr((wrapdim(toint(n)), wrapdim(toint(d))), CFn(lambda i, j: SEQ(toint(i), toint(j))), "real")
        v.L.load("SALib.sample.sobol_sequence").sample = seq
        v.assume_text("callee contract: sobol_sequence.sample(n,d)[i,j] is the i-th point of one fixed sequence (C06)")

    def run():
        p = problem(v, D, groups=grouped)
        if grouped:
            groups = p["groups"]
            nu, uk, gi = group_view(groups, D)
            C.pc += [nu >= 2, z3.Not(tobool(groups == p["names"]))]
            v.under("SALib.util.compute_groups_matrix", "SALib.util.util_funcs._check_groups")
        kw = {"calc_second_order": second, "skip_values": wrap(skip)}
        X = m.sample(p, wrap(N), **kw)
        i = v.fresh_int("i", 0, N)
        j = v.fresh_int("j", 0, D)
        Dg = nu if grouped else D
        S = (2 * Dg + 2) if second else (Dg + 2)
        k = v.fresh_int("k", 0, Dg)
        ink = (gi(j) == k) if grouped else (j == k)
        if modname.endswith("saltelli"):
            base = lambda c: SEQ(i + skip, c)
        else:
            e = [f for f in C.events if f[0] == "qmc.Sobol"]
            v.prove("one scipy Sobol' engine of dimension 2D", z3.BoolVal(len(e) == 1) if not e else toint(e[0][1]) == 2 * D)
            f = C.last_sobol
            base = lambda c: f(norm(skip + i), c)
        A = lambda j: T(j, base(j))
        B = lambda j: T(j, base(j + D))
        v.prove("rows = N*S", toint(X.shape[0]) == N * S)
        v.prove("columns = D", toint(X.shape[1]) == D)
        v.prove_eq("row iS is A_i", X.read(i * S, j), A(j))
        v.prove_eq("row iS+1+k is A_i with group k from B_i", X.read(i * S + 1 + k, j), z3.If(ink, B(j), A(j)))
        if second:
            v.prove_eq("row iS+1+Dg+k is B_i with group k from A_i", X.read(i * S + 1 + Dg + k, j), z3.If(ink, A(j), B(j)))
        v.prove_eq("last row of block i is B_i", X.read(i * S + S - 1, j), B(j))

    v.explore(run)


CONTRACTS = []
for _m in ("sobol", "saltelli"):
    for _s in (True, False):
        for _g in (False, True):
            CONTRACTS.append((f"{_m}.sample[{'2nd' if _s else '1st'},{'groups' if _g else 'no groups'}]",
                              lambda v, a=_m, b=_s, c=_g: design(v, "SALib.sample." + a, b, c)))
