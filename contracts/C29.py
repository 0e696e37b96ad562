"""C29: malformed outputs and options are refused, never silently analysed."""
from .common import *

META = {}
A = "SALib.analyze."
REFUSED = (ValueError, RuntimeError)


class Analysed(Exception):
    """the analysis proper was reached"""


# the first function of the analysis proper
STEP = {"sobol": "separate_output_values", "morris": "_compute_elementary_effects", "fast": "compute_orders", "rbd_fast": "permute_outputs", "dgsm": "calc_vi_stats", "delta": "check_specified_bininfo"}


def setup(v, meth, grouped):
    m = v.module(A + meth)
    v.under(A + meth + ".analyze")

    def reached(*a, **k):
        raise Analysed

    v.stub(A + meth, STEP[meth], reached, f"{STEP[meth]} stands for the analysis proper: reaching it is the violation")
    return m


def refused(v, what, call):
    try:
        call()
    except REFUSED:
        v.prove(what, True)
        return
    except Analysed:
        pass
    v.prove(what, z3.BoolVal(False))


def counts(v, p, D, grouped):
    if not grouped:
        distinct(v, p["names"], D)
        return D
    nu, uk, gi = group_view(p["groups"], D)
    w = v.fresh_int("w", 0, D)
    v.given(nu >= 2)
    v.given(as_arr(p["groups"]).reader()(w) != as_arr(p["names"]).reader()(w))  # groups equal to the names: the ungrouped contract
    return nu


def inputs(v, meth, n, D, second, grouped):
    C = v.C
    p = problem(v, D, groups=grouped)
    G = counts(v, p, D, grouped)
    Y = v.mat("Y", n)[0]
    X = v.mat("X", n, D)[0]
    block = {"sobol": 2 * G + 2 if second else G + 2, "morris": G + 1, "fast": D, "dgsm": D + 1}.get(meth)
    return p, X, Y, block


def call(m, meth, p, X, Y, second, **k):
    if meth == "sobol":
        return m.analyze(p, Y, calc_second_order=second, **k)
    if meth == "fast":
        return m.analyze(p, Y, **k)
    return m.analyze(p, X, Y, **k)


def length(v, meth, second=True, grouped=False):
    """every output length that is no multiple of the block"""
    C = v.C
    D, n = v.int("D", 1), v.int("n", 1)
    m = setup(v, meth, grouped)

    def run():
        p, X, Y, block = inputs(v, meth, n, D, second, grouped)
        conf = v.real("conf")
        v.given(n % block != 0)
        refused(v, "an output length that is no multiple of the block length is refused", lambda: call(m, meth, p, X, Y, second, conf_level=wrap(conf), num_resamples=wrap(v.int("R", 1)), seed=wrap(v.int("seed", 0))))

    v.explore(run)


def level(v, meth, second=True, grouped=False):
    """every confidence level outside (0, 1), on an output vector of a legal length"""
    C = v.C
    D, N = v.int("D", 1), v.int("N", 1)
    m = setup(v, meth, grouped)
    if meth == "morris":  # the level is checked when the confidence intervals are computed
        v.under(A + "morris._compute_statistical_outputs", A + "morris._compute_mu_star_confidence")
        v.stub(A + meth, STEP[meth], lambda X, Y, size, delta, **k: v.mat("EE", D, N)[0], "callee contract: _compute_elementary_effects gives one row per parameter and one column per trajectory (C10)")

    def run():
        n = v.int("n", 1)
        p, X, Y, block = inputs(v, meth, n, D, second, grouped)
        if block is not None:
            v.given(n == N * block)
        conf = v.real("conf")
        v.given(z3.Or(conf <= 0, conf >= 1))
        refused(v, "a confidence level outside (0, 1) is refused", lambda: call(m, meth, p, X, Y, second, conf_level=wrap(conf), num_resamples=wrap(v.int("R", 1)), seed=wrap(v.int("seed", 0))))

    v.explore(run)


def legal(v, meth, second=True, grouped=False):
    """the refusals do not reach further than they should: a legal vector and level is analysed"""
    C = v.C
    D, N = v.int("D", 1), v.int("N", 1)
    m = setup(v, meth, grouped)

    def run():
        n = v.int("n", 1)
        p, X, Y, block = inputs(v, meth, n, D, second, grouped)
        if block is not None:
            v.given(n == N * block)
        conf = v.real("conf")
        v.given(z3.And(conf > 0, conf < 1))
        try:
            call(m, meth, p, X, Y, second, conf_level=wrap(conf), num_resamples=wrap(v.int("R", 1)), seed=wrap(v.int("seed", 0)))
        except Analysed:
            v.prove("a legal output vector is analysed", True)
            return
        except REFUSED:
            pass
        v.prove("a legal output vector is analysed", z3.BoolVal(False))

    v.explore(run)


CONTRACTS = []
for _m, _s, _g in [("sobol", s, g) for s in (True, False) for g in (False, True)] + [("morris", True, g) for g in (False, True)] + [(x, True, False) for x in ("fast", "dgsm", "rbd_fast", "delta")]:
    _t = ",".join([_m] + (["2nd" if _s else "1st"] if _m == "sobol" else []) + (["groups"] if _g else []))
    if _m not in ("rbd_fast", "delta"):
        CONTRACTS.append((f"length[{_t}]", lambda v, a=_m, b=_s, c=_g: length(v, a, b, c)))
    CONTRACTS.append((f"level[{_t}]", lambda v, a=_m, b=_s, c=_g: level(v, a, b, c)))
    if _m not in ("delta",):
        CONTRACTS.append((f"legal[{_t}]", lambda v, a=_m, b=_s, c=_g: legal(v, a, b, c)))
