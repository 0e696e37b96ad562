"""C15: groups are honoured consistently."""
from .common import *

META = {}


def matrix(v):
    C = v.C
    D = v.int("D", 1)
    f = v.target("SALib.util.compute_groups_matrix")

    def run():
        g, gf = v.names("group", D)
        M, names = f(g)
        names = as_arr(names)
        nu, uk, gi = group_view(g, D)
        v.prove("one row per parameter", toint(M.shape[0]) == D)
        v.prove("one column per distinct group", toint(M.shape[1]) == nu)
        v.prove("one name per column", toint(names.shape[0]) == nu)
        i, k, l = v.fresh_int("i", 0, D), v.fresh_int("k", 0, nu), v.fresh_int("l", 0, nu)
        v.prove_eq("membership: 1 exactly in the column named like the parameter's group", M.read(i, k), z3.If(names.read(k) == gf(i), z3.IntVal(1), z3.IntVal(0)))
        v.prove("column names are distinct", z3.Implies(k != l, names.read(k) != names.read(l)))
        v.prove("every parameter's group has a column", z3.And(0 <= gi(i), gi(i) < nu, names.read(gi(i)) == gf(i)))
        # order of first appearance: everything before the first member of k belongs to an earlier group
        u = npshim.unique_model(g, "first").uniq
        v.prove("columns in order of first appearance", z3.Implies(i < u[3](k), gi(i) != k))
        v.prove("earlier column appears first", z3.Implies(k < l, u[3](k) < u[3](l)))

    v.explore(run)


def extract(v, mode):
    C = v.C
    D = v.int("D", 1)
    f = v.target("SALib.util.extract_group_names")

    def run():
        p = problem(v, D, groups=mode in ("groups", "one"))
        if mode == "groups":
            g = p["groups"]
            i = v.fresh_int("w", 0, D)
            a, b = as_arr(g).reader(), as_arr(p["names"]).reader()
            C.pc += [group_view(g, D)[0] >= 2, a(i) != b(i)]
        if mode == "one":
            C.pc += [group_view(p["groups"], D)[0] == 1]
        if mode == "none":
            p["groups"] = None
        elif mode == "empty":
            p["groups"] = PList([])
        src = p["groups"] if mode == "groups" else p["names"]
        names, n = f(p)
        nu, uk, gi = group_view(src, D)
        names_a = as_arr(names)
        v.prove("number of groups", toint(n) == nu)
        v.prove("as many names as groups", toint(names_a.shape[0]) == nu)
        k = v.fresh_int("k", 0, nu)
        i = v.fresh_int("i", 0, D)
        v.prove("name k is the k-th distinct one in order of first appearance", names_a.read(k) == uk(k))
        sf = as_arr(src).reader()
        v.prove("every parameter is in a listed group", names_a.read(gi(i)) == sf(i))

    v.explore(run)


def checks(v, mode):
    """_check_groups: the list itself, or False for none/trivial/single"""
    C = v.C
    D = v.int("D", 1)
    f = v.target("SALib.util.util_funcs._check_groups")

    def run():
        p = problem(v, D, groups=mode not in ("absent",))
        if mode == "none":
            p["groups"] = None
        if mode == "empty":
            p["groups"] = PList([])
        if mode == "names":
            p["groups"] = p["names"]
        if mode == "groups":
            g = p["groups"]
            nu, uk, gi = group_view(g, D)
            i = v.fresh_int("w", 0, D)
            a, b = as_arr(g).reader(), as_arr(p["names"]).reader()
            C.pc += [nu >= 2, a(i) != b(i)]
        if mode == "one":
            g = p["groups"]
            nu, uk, gi = group_view(g, D)
            C.pc += [nu == 1]
        r = f(p)
        if mode == "groups":
            v.prove("a genuine group list is returned as it is", r is p["groups"])
        else:
            v.prove("no groups", r is False)

    v.explore(run)


def define(v, mode):
    C = v.C
    D = v.int("D", 1)
    f = v.target("SALib.util._define_problem_with_groups")

    def run():
        p = problem(v, D, groups=mode in ("ok", "bad"))
        if mode == "none":
            p["groups"] = None
        if mode == "empty":
            p["groups"] = PList([])
        if mode == "bad":
            n = z3.Int("ng")
            C.pc += [n >= 1, n != D]
            p["groups"] = v.names("group", n)[0]
            try:
                f(p)
            except ValueError:
                v.prove("ValueError for a group list of the wrong length", True)
                return
            v.prove("ValueError for a group list of the wrong length", z3.BoolVal(False))
            return
        g = p.get("groups")
        r = f(p)
        if mode == "ok":
            v.prove("given groups kept", r["groups"] is g)
        else:
            v.prove("each parameter is its own group", r["groups"] is p["names"])

    v.explore(run)


def single(v):
    """ProblemSpec.analyze refuses one parameter or one group"""
    C = v.C
    D = v.int("D", 1)
    m = v.module("SALib.util.problem")
    v.under("SALib.util.problem.ProblemSpec.analyze")

    def run():
        p = problem(v, D, groups=True)
        spec = spec_of(m, p)
        C.pc += [z3.Or(D == 1, group_view(p["groups"], D)[0] == 1)]
        called = []
        spec._samples = v.mat("X", v.int("N", 1), D)[0]
        spec._results = v.mat("Y", v.int("N", 1))[0]
        try:
            spec.analyze(lambda *a, **k: called.append(1))
        except ValueError:
            v.prove("refused", not called)
            return
        v.prove("refused", z3.BoolVal(False))

    v.explore(run)


CONTRACTS = [("single group refused by ProblemSpec.analyze", single), ("compute_groups_matrix", matrix)]
for _m in ("groups", "absent", "none", "empty", "one"):
    CONTRACTS.append((f"extract_group_names[{_m}]", lambda v, m=_m: extract(v, m)))
for _m in ("groups", "absent", "none", "empty", "names", "one"):
    CONTRACTS.append((f"_check_groups[{_m}]", lambda v, m=_m: checks(v, m)))
for _m in ("ok", "absent", "none", "empty", "bad"):
    CONTRACTS.append((f"_define_problem_with_groups[{_m}]", lambda v, m=_m: define(v, m)))
