"""C21: the command line runs exactly the library call its options describe.

`cli_action` of every method is executed on a namespace whose entries are arbitrary values (and on the parser's
defaults); the sampler/analyser, read_param_file and NumPy's text files are stubs that record what they are given.
"""
import argparse
import inspect
from .common import *
from pyvc.loops import as_iter

META = {}
np = npshim
CELL = ufn("CELL", Obj, Obj, Int, Int, Real)  # number r, c of a text file read with a delimiter
NROW, NCOL = ufn("NROW", Obj, Int), ufn("NCOL", Obj, Int)
order2 = lambda t: t == 2
same = None

# option -> (argument of the call, kind of its value, what the argument is, library default)
SAMPLE = {
    "sobol": {"max_order": ("calc_second_order", "int", order2, 2), "scramble": ("scramble", "int", same, True), "skip_values": ("skip_values", "int", same, 0), "seed": ("seed", "int", same, None)},
    "saltelli": {"max_order": ("calc_second_order", "int", order2, 2), "skip_values": ("skip_values", "int", same, None)},
    "latin": {"seed": ("seed", "int", same, None)},
    "morris": {"levels": ("num_levels", "int", same, 4), "k_optimal": ("optimal_trajectories", "int", same, None), "local": ("local_optimization", "bool", same, "given"), "seed": ("seed", "int", same, None)},
    "morris.morris": {"levels": ("num_levels", "int", same, 4), "k_optimal": ("optimal_trajectories", "int", same, None), "local": ("local_optimization", "bool", same, "given"), "seed": ("seed", "int", same, None)},
    "fast_sampler": {"M": ("M", "int", same, 4), "seed": ("seed", "int", same, None)},
    "finite_diff": {"delta": ("delta", "real", same, 0.01), "seed": ("seed", "int", same, None)},
    "ff": {"seed": ("seed", "int", same, None)},
}
R = lambda d: ("num_resamples", "int", same, d)
SEED = ("seed", "int", same, None)
ANALYZE = {
    "sobol": {"max_order": ("calc_second_order", "int", order2, 2), "resamples": R(100), "parallel": ("parallel", "bool", same, False), "n_processors": ("n_processors", "int", same, None)},
    "morris": {"resamples": R(1000), "levels": ("num_levels", "int", same, 4), "scaled": ("scaled", "bool", same, False)},
    "fast": {"M": ("M", "int", same, 4), "resamples": R(100)},
    "rbd_fast": {"M": ("M", "int", same, 10), "resamples": R(100)},
    "delta": {"resamples": R(10), "method": ("method", "text", same, "all"), "y_resamples": ("y_resamples", "int", same, None), "bootstrap_savedf": ("bootstrap_savedf", "text", same, None), "bins_specs": ("bins_specs", "json", same, None)},
    "dgsm": {"resamples": R(1000)},
    "discrepancy": {},
    "ff": {"max_order": ("second_order", "int", order2, 2)},
    "pawn": {"slices": ("S", "int", same, 10)},
    "rsa": {"bins": ("bins", "int", same, 20), "target": ("target", "text", same, "Y")},
    "hdmr": {"maxorder": ("maxorder", "int", same, 2), "maxiter": ("maxiter", "int", same, 100), "m_int": ("m", "int", same, 2), "K_bootstrap": ("K", "int", same, 20), "R_subsample": ("R", "int", same, None), "alpha": ("alpha", "real", same, 0.95), "lambdax": ("lambdax", "real", same, 0.01)},
    "enhanced_hdmr": {"max_order": ("max_order", "int", same, "given"), "poly_order": ("poly_order", "int", same, "given"), "bootstrap": ("bootstrap", "int", same, 20), "subset": ("subset", "int", same, None), "max_iter": ("max_iter", "int", same, 100), "l2_penalty": ("l2_penalty", "real", same, 0.01), "alpha": ("alpha", "real", same, 0.95), "extended_base": ("extended_base", "bool", same, "given"), "print_to_console": ("print_to_console", "bool", same, False), "return_emulator": ("return_emulator", "bool", same, False)},
}
NEEDS_X = {m for m in ANALYZE if m not in ("sobol", "fast")}
for _m in ANALYZE:
    ANALYZE[_m]["seed"] = SEED
KINDS = {"int": Int, "real": Real, "bool": z3.Bool("x").sort(), "text": Obj}


class Namespace:
    pass


def parser_of(v, mod, m):
    """the real parser object, built by the real functions"""
    ca = v.module(mod.rsplit(".", 1)[0].replace(".morris", "") + ".common_args")
    v.under(ca.__name__ + ".setup", ca.__name__ + ".create", *([mod + ".cli_parse"] if m.cli_parse is not None else []))
    ca.argparse = argparse
    return ca.create(m.cli_parse), ca


def pieces(x):
    """a text as the list of its parts: literal texts and terms"""
    C = Ctx.cur
    if isinstance(x, str):
        return [x]
    t = term(x)
    for s, c in C.literals.items():
        if c.eq(t):
            return [s]
    d = t.decl().name()
    if d == "STRCAT":
        return pieces(Sc(t.arg(0))) + pieces(Sc(t.arg(1)))
    if d.startswith("FSTR:"):
        out, rest, k = [], d[5:], 0
        while "{" in rest:
            a, b = rest.index("{"), rest.index("}")
            if rest[a + 1:b] not in ("Int-1:", "Int-1:d", "Obj-1:"):
                raise Unsupported("format " + rest)
            out += [rest[:a], STR(t.arg(k)) if t.arg(k).sort() == Int else t.arg(k)]
            rest, k = rest[b + 1:], k + 1
        return out + [rest]
    return [t]


STR = ufn("STR", Int, Obj)


def glue(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif not isinstance(p, str) or p:
            out.append(p)
    return out


def same_text(x, parts):
    a, b = glue(pieces(x)), glue(parts)
    return len(a) == len(b) and all((type(p) is type(q) and p == q) if isinstance(p, str) or isinstance(q, str) else p.eq(q) for p, q in zip(a, b))


def equal(a, b):
    """formula: the value handed over is the expected one (None and booleans included)"""
    if a is None or b is None or isinstance(a, (str, bool)) and not isinstance(b, Sc) or isinstance(b, (str, bool)) and not isinstance(a, Sc):
        return z3.BoolVal(a is None and b is None or type(a) is type(b) and a == b or isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b)
    if not isinstance(a, (Sc, int, float, str, fractions.Fraction)):
        return z3.BoolVal(a is b)
    x, y = term(a), term(b)
    if x.sort() != y.sort():
        if Obj in (x.sort(), y.sort()):
            return z3.BoolVal(False)
        if z3.is_bool(x) or z3.is_bool(y):
            return tobool(x) == tobool(y)
        x, y = toreal(x), toreal(y)
    return x == y


def world(v, m, mod, action):
    """stubs that record the call, and the text files"""
    C = v.C
    rec = {"calls": [], "saved": [], "read": []}
    orig = getattr(m, action)
    sig = inspect.signature(orig)
    out, _ = v.mat("result", v.int("rows", 1), v.int("cols", 1))
    prob = PDict({"num_vars": 3})

    def call(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        rec["calls"].append(b.arguments)
        return out

    def read_param_file(filename, delimiter=None):
        rec["read"].append((filename, delimiter))
        return prob

    def savetxt(fname, X, fmt="%.18e", delimiter=" ", **k):
        if k:
            raise Unsupported("np.savetxt with " + ", ".join(k))
        rec["saved"].append((fname, X, fmt, delimiter))

    def loadtxt(fname, dtype=None, delimiter=None, usecols=None, ndmin=0, **k):
        if k or dtype is not None:
            raise Unsupported("np.loadtxt with other options")
        f, d = term(fname), term(delimiter)
        n, w = NROW(f), NCOL(f)
        C.assume(z3.And(n >= 2, w >= 1))
        if usecols is None:
            full = Arr((wrapdim(n), wrapdim(w)), CFn(lambda r, c: CELL(f, d, toint(r), toint(c))), "real")
            if is_num(ndmin) and ndmin == 2:
                return full
            if C.decide(w == 1):
                return Arr((wrapdim(n),), CFn(lambda r: CELL(f, d, toint(r), z3.IntVal(0))), "real")
            return full
        if isinstance(usecols, (tuple, list, PList)):
            cs = list(usecols)
            if len(cs) != 1:
                raise Unsupported("several columns")
            usecols = cs[0]
        col = toint(usecols)
        if is_num(ndmin) and ndmin == 2:
            return Arr((wrapdim(n), 1), CFn(lambda r, c: CELL(f, d, toint(r), col)), "real")
        return Arr((wrapdim(n),), CFn(lambda r: CELL(f, d, toint(r), col)), "real")

    call.__wrapped_signature__ = sig
    m.__dict__[action] = call
    if not hasattr(m, "read_param_file"):
        raise Unsupported("the parameter file is read elsewhere")
    m.__dict__["read_param_file"] = read_param_file
    np.__dict__["savetxt"], np.__dict__["loadtxt"] = savetxt, loadtxt
    v.assume_text("numpy.loadtxt / numpy.savetxt: number (row, column) of the file, read or written with the given delimiter and format")
    v.assume_text("argparse stores type(text), or the default, under each option's destination")
    return rec, prob, out, orig


def namespace(v, table, common, default=None):
    """arbitrary values of every option, or (default) the parser's own"""
    ns = Namespace()
    val = {}
    for d, kind in common.items():
        val[d] = wrap(z3.Const(d, KINDS[kind]))
    for d, (kw, kind, conv, dflt) in table.items():
        if default is not None and dflt != "given":
            val[d] = getattr(default, d)
        elif kind == "json":
            val[d] = '{"x": 3}'
        else:
            val[d] = wrap(z3.Const("opt_" + d, KINDS[kind]))
    for d, x in val.items():
        setattr(ns, d, x)
    return ns, val


class Parsed:
    def __init__(self, text):
        self.text = text


def expected(d, table, val):
    kw, kind, conv, dflt = table[d]
    x = val[d]
    if kind == "json":
        return x
    if conv is None:
        return x
    return wrap(conv(term(x))) if isinstance(x, Sc) else conv(x)


WORDS = {"local": {"True": True, "true": True, "1": True, "yes": True, "False": False, "false": False, "FALSE": False, "0": False, "no": False, "No": False},
         "scaled": {"True": True, "true": True, "1": True, "False": False, "false": False, "0": False, "no": False},
         "extended_base": {"True": True, "true": True, "TRUE": True, "False": False, "false": False},
         "print_to_console": {"True": True, "true": True, "False": False, "false": False},
         "return_emulator": {"True": True, "true": True, "False": False, "false": False}}


def options(v, action, name, table, mod, m):
    """the parser offers each option under its name, with the library's default and the type of its values"""
    parser, ca = parser_of(v, mod, m)
    acts = {a.dest: a for a in parser._actions if a.dest != "help"}
    for d, (kw, kind, conv, dflt) in table.items():
        if d not in acts:
            raise Unsupported("option " + d + " is not offered under this name")
        a = acts[d]
        if dflt != "given":
            v.prove(f"{d}: without the option the library's default", type(a.default) is type(dflt) and a.default == dflt or a.default == dflt and dflt is not None)
        if kind == "int":
            v.prove(f"{d}: a whole number", a.type("7") == 7 and type(a.type("7")) is int and a.type("-1") == -1)
        elif kind == "real":
            v.prove(f"{d}: a number", float(a.type("0.125")) == 0.125)
        elif kind == "text":
            v.prove(f"{d}: the text itself", a.type is None or a.type("Some Text") == "Some Text")
        elif d in WORDS and a.type is not None:
            v.prove(f"{d}: yes and no words (bounded: the listed words)", all(a.type(w) is b for w, b in WORDS[d].items()))
        elif d == "parallel":
            v.prove("parallel: a switch", a.const is True and a.nargs == 0 and a.default is False)
    dests = [a.dest for a in parser._actions]
    strings = [s for a in parser._actions for s in a.option_strings]
    v.prove("no option string means two things", len(set(strings)) == len(strings))
    if "seed" not in table:
        v.prove("no seed option where the sampler takes none", "seed" not in acts)
    return parser, acts


def contract(v, kind, name):
    C = v.C
    table = (SAMPLE if kind == "sample" else ANALYZE)[name]
    mod = f"SALib.{kind}.{name}"
    m = v.module(mod)
    if name == "morris" and kind == "sample":
        m = v.module("SALib.sample.morris")
    v.under((mod if name != "morris" or kind != "sample" else "SALib.sample.morris.morris") + ".cli_action")
    home = m if name != "morris" or kind != "sample" else v.module("SALib.sample.morris.morris")
    v.reach("the options")
    parser, acts = options(v, kind, name, table, mod if home is m else "SALib.sample.morris.morris", m)
    action = "sample" if kind == "sample" else "analyze"
    rec, prob, out, orig = world(v, home, mod, action)
    common = {"paramfile": "text", "delimiter": "text"}
    common.update({"samples": "int", "output": "text", "precision": "int"} if kind == "sample" else {"model_output_file": "text", "column": "int"})
    if name in NEEDS_X and kind == "analyze":
        common["model_input_file"] = "text"
    for d in common:
        if d not in acts:
            raise Unsupported("option " + d + " is not offered under this name")
    if name == "delta":
        class JSONDecodeError(Exception):
            pass
        files = {}
        home.json = libs.NS("json", loads=lambda s: Parsed(s), load=lambda f: Parsed(f), JSONDecodeError=JSONDecodeError)
    defaults = argparse.Namespace(**{a.dest: a.default for a in parser._actions})

    def body(dflt):
        for k in rec:
            rec[k].clear()
        ns, val = namespace(v, table, common, defaults if dflt else None)
        if kind == "analyze":
            C.assume(z3.And(term(val["column"]) >= 0, term(val["column"]) < NCOL(term(val["model_output_file"]))))
        if dflt:
            pass
        m.cli_action(ns)
        v.prove("the parameter file is read", z3.BoolVal(len(rec["read"]) >= 1 and all(same_text(f, [term(val["paramfile"])]) and (d is None) for f, d in rec["read"])))
        v.prove("one library call", z3.BoolVal(len(rec["calls"]) == 1))
        b = rec["calls"][0]
        v.prove("with the problem of the parameter file", z3.BoolVal(b.get("problem") is prob))
        for d in table:
            kw = table[d][0]
            if kw not in b and "kwargs" not in b:
                raise Unsupported("the call has no argument " + kw)
            got = b[kw] if kw in b else dict(b["kwargs"]).get(kw)
            want = expected(d, table, val)
            if table[d][1] == "json":
                if want is None:
                    v.prove(f"{d}: none given", z3.BoolVal(got is None or isinstance(got, (dict, PDict)) and len(got) == 0))
                else:
                    v.prove(f"{d} -> {kw}", z3.BoolVal(isinstance(got, Parsed) and got.text == want))
                continue
            v.prove(f"{d} -> {kw}", equal(got, want))
        if kind == "sample":
            if name != "ff":
                v.prove("samples -> N", equal(b["N"], val["samples"]))
            v.prove("one file written", z3.BoolVal(len(rec["saved"]) == 1))
            f, X, fmt, delim = rec["saved"][0]
            v.prove("to the requested file", z3.BoolVal(same_text(f, [term(val["output"])])))
            q, c = v.fresh_int("q", 0, toint(out.shape[0])), v.fresh_int("c", 0, toint(out.shape[1]))
            Xa = as_arr(X)
            v.prove("all rows and columns of the sample", z3.BoolVal(False) if Xa.ndim != 2 else z3.And(toint(Xa.shape[0]) == toint(out.shape[0]), toint(Xa.shape[1]) == toint(out.shape[1])))
            v.prove_eq("the numbers written are the sample's", Xa.read(q, c), out.read(q, c))
            v.prove("to the requested precision", z3.BoolVal(same_text(fmt, ["%.", STR(term(val["precision"])), "e"])))
            v.prove("with the requested delimiter", z3.BoolVal(same_text(delim, [term(val["delimiter"])])))
        else:
            y = as_arr(b["Y"])
            f, d = term(val["model_output_file"]), term(val["delimiter"])
            q = v.fresh_int("q", 0, NROW(f))
            v.prove("one output per line", z3.BoolVal(False) if y.ndim != 1 else toint(y.shape[0]) == NROW(f))
            v.prove_eq("the chosen column of the chosen file", y.read(q), CELL(f, d, q, term(val["column"])))
            if "model_input_file" in common:
                x = as_arr(b["X"])
                g = term(val["model_input_file"])
                r, c = v.fresh_int("r", 0, NROW(g)), v.fresh_int("c", 0, NCOL(g))
                v.prove("the whole input file", z3.BoolVal(False) if x.ndim != 2 else z3.And(toint(x.shape[0]) == NROW(g), toint(x.shape[1]) == NCOL(g)))
                v.prove_eq("number (r, c) of the input file", x.read(r, c), CELL(g, d, r, c))

    for dflt in (False, True):
        v.explore(lambda: body(dflt))


CONTRACTS = []
for _n in SAMPLE:
    CONTRACTS.append((f"sample {_n}", lambda v, n=_n: contract(v, "sample", n)))
for _n in ANALYZE:
    CONTRACTS.append((f"analyze {_n}", lambda v, n=_n: contract(v, "analyze", n)))


def runs(v, kind):
    """run_cli: the action gets what the parser of this method makes of the arguments"""
    ca = v.module(f"SALib.{kind}.common_args")
    v.under(ca.__name__ + ".run_cli")
    log = []

    class P:
        def __init__(self, cli):
            self.cli = cli

        def parse_args(self, argv=None):
            log.append(("parse", self.cli, argv))
            return "the parsed options"

    ca.__dict__["create"] = lambda cli_parser=None: P(cli_parser)
    cli, argv = object(), PList(["-n", "5"])

    def body(given):
        del log[:]
        act = lambda a: log.append(("act", a))
        ca.run_cli(cli, act, *([argv] if given else []))
        v.prove("the method's parser reads the arguments, once", z3.BoolVal(len(log) == 2 and log[0][:2] == ("parse", cli) and log[0][2] is (argv if given else None)))
        v.prove("the action runs once, on the parsed options", z3.BoolVal(log[1:] == [("act", "the parsed options")]))

    for g in (True, False):
        v.explore(lambda: body(g))


for _k in ("sample", "analyze"):
    CONTRACTS.append((f"run_cli[{_k}]", lambda v, k=_k: runs(v, k)))
