"""C28: result tables carry each index next to the right parameter, group or pair."""
from .common import *
from pyvc.libs import pair_index

META = {}
np = npshim


class Frame:
    """a pandas.DataFrame made from a dict of columns and an index: row k is labelled index[k] and holds column[k]"""

    def __init__(self, data, index=None, columns=None):
        self.index, self.names = index, columns
        self.cols = dict(data._base()) if isinstance(data, PDict) and not set(data._d) & {"\0family"} else data


class PdNS:
    DataFrame = Frame

    def __getattr__(self, n):
        return getattr(libs.pd_ns, n)


def frames(v, *mods):
    for mod, name, val in mods:
        v.stub(mod, name, val, "assumed contract of pandas.DataFrame: row k is labelled index[k] and holds element k of every column")


def names_problem(v, D, grouped):
    """problem, number of rows of its tables, name of row k"""
    p = problem(v, D, groups=grouped)
    if grouped:
        nu, uk, gi = group_view(p["groups"], D)
        v.given(nu >= 2)
        j0 = v.fresh_int("j0", 0, D)
        v.given(ufn("group", Int, Obj)(j0) != ufn("pname", Int, Obj)(j0))
        return p, nu, uk
    distinct(v, p["names"], D)
    return p, D, ufn("pname", Int, Obj)


def rows(v, what, f, G, name, cols, S):
    idx = as_arr(f.index)
    v.prove(f"{what}: one row per parameter or group", toint(idx.shape[0]) == G)
    k = v.fresh_int("k", 0, G)
    v.prove_eq(f"{what}: rows in the order of the problem", idx.read(k), name(k))
    v.prove(f"{what}: columns", z3.BoolVal(set(f.cols) == set(cols)))
    for c in cols:
        a = as_arr(f.cols[c])
        v.prove(f"{what}: column {c} has one value per row", toint(a.shape[0]) == G)
        v.prove_eq(f"{what}: {c} of its own parameter", a.read(k), as_arr(S[c]).read(k))


def sobol(v, grouped, second):
    C = v.C
    MOD = "SALib.analyze.sobol"
    m = v.module(MOD)
    v.under(MOD + ".to_df", MOD + ".Si_to_pandas_dict", "SALib.util.extract_group_names")
    frames(v, (MOD, "pd", PdNS()))
    D = v.int("D", 2)

    def run():
        p, G, name = names_problem(v, D, grouped)
        S = m.ResultDict()
        for k in ("S1", "S1_conf", "ST", "ST_conf"):
            S[k] = v.mat(k, G)[0]
        if second:
            S["S2"], s2 = v.mat("S2", G, G)
            S["S2_conf"], s2c = v.mat("S2_conf", G, G)
        S.problem = p
        R = m.to_df(S)
        v.prove("as many tables as orders", z3.BoolVal(len(R) == (3 if second else 2)))
        rows(v, "total order", R[0], G, name, ("ST", "ST_conf"), S)
        rows(v, "first order", R[1], G, name, ("S1", "S1_conf"), S)
        if second:
            f = R[2]
            n, fst, snd, ix = pair_index(G)
            idx = f.index
            L = toint(idx.length() if hasattr(idx, "length") else len(idx))
            v.prove("one row per pair", L == n)
            a, b = v.fresh_int("a", 0, G), v.fresh_int("b", 0, G)
            v.given(a < b)
            q = ix(a, b)
            C.pc.append(z3.And(0 <= q, q < n))
            if isinstance(idx, tuple):
                v.prove("the only pair", z3.And(G == 2, q == 0, a == 0, b == 1))
                lab, q = idx[0], z3.IntVal(0)
                lab = (lab[0], lab[1])
            else:
                lab = idx.get(q)
            v.prove_eq("first of the pair", term(lab[0]), name(a))
            v.prove_eq("second of the pair", term(lab[1]), name(b))
            for c, g in (("S2", s2), ("S2_conf", s2c)):
                col = as_arr(f.cols[c])
                v.prove(f"{c}: one value per pair", toint(col.shape[0]) == n)
                v.prove_eq(f"{c}: the entry of that pair", col.read(q), g(a, b))

    v.explore(run)


def generic(v):
    """ResultDict.to_df: used by morris, fast, rbd_fast, dgsm, delta, pawn, discrepancy"""
    MOD = "SALib.util.results"
    m = v.module(MOD)
    v.under(MOD + ".ResultDict.to_df")
    frames(v, (MOD, "pd", PdNS()))
    D = v.int("D", 1)

    def run():
        S = m.ResultDict()
        names, nf = v.names("rname", D)
        cols = ("first", "second", "third")
        for k in cols[:2]:
            S[k] = v.mat(k, D)[0]
        S["names"] = names
        S[cols[2]] = v.mat(cols[2], D)[0]
        rows(v, "table", S.to_df(), D, nf, cols, S)

    v.explore(run)


def listed(v, mod, key, drop):
    """hdmr and enhanced_hdmr: the index columns next to the terms"""
    m = v.module(mod)
    v.under(mod + ".to_df")
    frames(v, (mod, "pd", PdNS()) if hasattr(m, "pd") else (mod, "df", Frame))
    T = v.int("terms", 1)

    def run():
        S = m.ResultDict()
        cols = [c + e for c in ("Sa", "Sb", "S", "ST") for e in ("", "_conf")]
        for k in cols:
            S[k] = v.mat(k, T)[0]
        S[key], nf = v.names("rname", T)
        for k in drop:
            S[k] = v.mat(k, T)[0]
        rows(v, "table", m.to_df(S), T, nf, cols, S)

    v.explore(run)


def ff(v, inter):
    MOD = "SALib.analyze.ff"
    m = v.module(MOD)
    v.under(MOD + ".to_df")
    frames(v, (MOD, "pd", PdNS()))
    D = v.int("D", 1)
    K = v.int("pairs", 1)

    def run():
        S = m.ResultDict()
        S["names"], nf = v.names("rname", D)
        S["ME"] = v.mat("ME", D)[0]
        if inter:
            S["interaction_names"], inf = v.names("iname", K)
            S["IE"] = PList.sym(K, lambda t: wrap(ufn("ie", Int, Real)(toint(t))))
        a, b = m.to_df(S)
        rows(v, "main effects", a, D, nf, ("ME",), S)
        if inter:
            rows(v, "interactions", b, K, inf, ("IE",), S)
        else:
            v.prove("no table of interactions", z3.BoolVal(b is None))

    v.explore(run)


def rsa(v):
    MOD = "SALib.analyze.rsa"
    m = v.module(MOD)
    v.under(MOD + ".to_df")
    frames(v, (MOD, "pd", PdNS()))
    B = v.int("bins", 1)

    def run():
        S = m.ResultDict()
        nm = ["a", "bb", "c"]
        for n in nm:
            S[n] = v.mat(n, B)[0]
        S["names"] = PList(nm)
        S["bins"], bf = v.mat("edges", B)
        S["target"] = "Y"
        f = m.to_df(S)
        v.prove("columns in the order of the parameters", z3.BoolVal([x for x in f.names] == nm))
        v.prove("rows are the bins", z3.BoolVal(f.index is S["bins"]))
        for n in nm:
            v.prove(f"column {n}", z3.BoolVal(f.cols[n] is S[n]))

    v.explore(run)


def spec(v):
    """ProblemSpec.to_df: one table (or list of tables) per output, in the order of the outputs"""
    MOD = "SALib.util.problem"
    m = v.module(MOD)
    v.under(MOD + ".ProblemSpec.to_df")

    def run():
        s = spec_of(m, PDict({"num_vars": 2, "outputs": PList(["u", "v", "w"])}))

        class R(m.ResultDict):
            def to_df(self):
                return ("table", self)

        one = R({"S1": 1})
        s._analysis = one
        v.prove("table of the analysis", z3.BoolVal(s.to_df() == ("table", one)))
        many = [R({"S1": 1}), R({"S1": 2}), R({"S1": 3})]
        s._analysis = PDict(dict(zip(("u", "v", "w"), many)))
        got = [x for x in s.to_df()]
        v.prove("one table per output in order", z3.BoolVal(len(got) == 3 and all(g[1] is w for g, w in zip(got, many))))
        s._analysis = None
        try:
            s.to_df()
            ok = False
        except RuntimeError:
            ok = True
        v.prove("no table before the analysis", z3.BoolVal(ok))

    v.explore(run)


CONTRACTS = [(f"sobol tables[{'groups' if g else 'parameters'}{', second order' if s else ''}]", lambda v, g=g, s=s: sobol(v, g, s)) for g in (0, 1) for s in (0, 1)] + [
    ("ResultDict.to_df", generic), ("enhanced_hdmr table", lambda v: listed(v, "SALib.analyze.enhanced_hdmr", "Term", ("Signf",))),
    ("hdmr table", lambda v: listed(v, "SALib.analyze.hdmr", "names", ("select",))), ("ff tables", lambda v: ff(v, 0)), ("ff tables[second order]", lambda v: ff(v, 1)),
    ("rsa table", rsa), ("ProblemSpec.to_df", spec)]
