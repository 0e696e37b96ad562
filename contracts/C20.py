"""C20: parameter files are read faithfully.

The csv module is an assumed contract: the reader, made at the start of the file with the dialect sniffed for the
delimiters given, yields one dictionary per line, a column that is missing being None."""
from .common import *
from pyvc.libs import NS

META = {}
MOD = "SALib.util.util_funcs"
F = lambda n, s: ufn("line_" + n, Int, s)
NAME, LO, HI, GRP, DIST = F("name", Obj), F("lower", Obj), F("upper", Obj), F("group", Obj), F("dist", Obj)
HASG, HASD = F("has_group", Bool), F("has_dist", Bool)
FLOAT = ufn("str_float", Obj, Real)


class File:
    def __init__(self, name):
        self.name, self.pos, self.closed = name, 0, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def read(self, *n):
        self.pos = None
        return Text(self)

    def readline(self, *n):
        self.pos = None
        return Text(self)

    def seek(self, p, *a):
        self.pos = p


class Text:
    def __init__(self, f):
        self.f = f


class Dialect:
    def __init__(self, f, delimiters):
        self.f, self.delimiters = f, delimiters


class Rows:
    def __init__(self, it):
        self.it = it

    def __getattr__(self, n):
        raise Unsupported(f"csv reader .{n}")


def csv(v, n, log):
    ns = NS("csv")

    class Sniffer:
        def sniff(self, sample, delimiters=None):
            if not isinstance(sample, Text):
                raise Unsupported("sniffing something else than the file")
            return Dialect(sample.f, delimiters)

    def line(i):
        C = v.C
        i = toint(i)
        d = {"name": Sc(NAME(i)), "lower_bound": Sc(LO(i)), "upper_bound": Sc(HI(i)), "group": None, "dist": None}
        if C.decide(HASG(i)):
            d["group"] = Sc(GRP(i))
            if C.decide(HASD(i)):
                d["dist"] = Sc(DIST(i))
        return d

    def DictReader(f, fieldnames=None, restkey=None, restval=None, dialect="excel", **k):
        if k or restkey is not None or restval is not None or not isinstance(f, File):
            raise Unsupported("csv.DictReader called in another way")
        names = list(heap_get(fieldnames.ref).items) if isinstance(fieldnames, PList) else list(fieldnames)
        log.append(("reader", f, dialect, f.pos))
        if len(names) < 3:
            raise Unsupported("fewer than 3 columns")
        cols = ["name", "lower_bound", "upper_bound", "group", "dist"]
        def at(i):
            d = line(i)
            return PDict({a: d[c] for a, c in zip(names, cols)})

        return PList.sym(n, at)

    ns.Sniffer = Sniffer
    ns.DictReader = DictReader
    return ns


def comment(i):
    return ufn("str_startswith", Obj, Obj, Bool)(ufn("str_strip", Obj, Obj)(NAME(i)), term("#"))


def group(i):
    return z3.If(z3.And(HASG(i), GRP(i) != term("NA")), GRP(i), NAME(i))


def dist(i):
    return z3.If(HASD(i), DIST(i), term("unif"))


def data(n):
    return SUMI(n, lambda t: z3.If(comment(t), z3.IntVal(0), z3.IntVal(1)))


def reads(v, given):
    C = v.C
    m = v.module(MOD)
    v.under(MOD + ".read_param_file")
    N = v.int("lines", 0)
    log, opened = [], []
    v.stub(MOD, "csv", csv(v, N, log), "assumed contract of csv: Sniffer finds the dialect of the sample among the delimiters given; DictReader yields the lines in order, fields by column, None for missing columns")

    def opener(name, mode="r", *a, **k):
        if "r" not in mode:
            raise Unsupported("opened for writing")
        f = File(name)
        opened.append(f)
        return f

    m.open = opener
    sets = []  # ghost: the lists whose distinct values were asked for

    def distinct_of(it=()):
        sets.append(it)
        return libs.py_set(it)

    m.set = distinct_of
    v.assume_text("assumed contract of open()")
    t = z3.Int("t")
    v.given(z3.ForAll([t], z3.Implies(HASD(t), HASG(t)), patterns=[HASD(t)]))
    fn, dl = Sc(z3.Const("filename", Obj)), (Sc(z3.Const("delimiter", Obj)) if given else None)
    a, b = z3.Ints("a b")
    live = lambda x: z3.And(0 <= x, x < N, z3.Not(comment(x)))
    own = z3.ForAll([a], z3.Implies(live(a), group(a) == NAME(a)))

    def run():
        log.clear()
        opened.clear()
        sets.clear()
        try:
            p = m.read_param_file(fn, dl) if given else m.read_param_file(fn)
        except ValueError:
            v.prove("refused only when the groups group", z3.Not(own))
            v.prove("refused only with a parameter", data(N) >= 1)
            x, y = v.fresh_int("line", 0, N), v.fresh_int("line", 0, N)
            C.pc += [z3.Not(comment(x)), z3.Not(comment(y))]
            index = []
            for lst in sets:
                nu, u, g, f, n, rd = npshim.unique_model(as_arr(lst), "first").uniq
                for t in (x, y):
                    k = data(t)
                    segment_of(k, k.arg(1), N)
                    r = rd(k)
                    C.assume(z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= g(r), g(r) < nu, u(g(r)) == r)))  # its definition at this place
                    v.prove("what was counted are the groups", z3.And(0 <= k, k < n, r == group(t)))
                    index.append(z3.And(r == group(t), 0 <= g(r), g(r) < nu, u(g(r)) == r))
            v.prove("refused only when all are in one group", z3.Implies(z3.And(index), group(x) == group(y)))
            return
        v.expect("the file asked for is read once, from its start", len(log) == 1 and log[0][1].name is fn and log[0][3] == 0)
        d = log[0][2]
        v.expect("in the dialect of the file, with the delimiter given", isinstance(d, Dialect) and d.f.name is fn and (d.delimiters is dl))
        v.expect("file closed", all(f.closed for f in opened))
        v.expect("keys", set(p.keys()) == {"names", "bounds", "num_vars", "groups", "dists"})
        i = v.fresh_int("line", 0, N)
        cnt = data(N)
        v.prove("number of variables: the lines that are not comments", toint(term(p["num_vars"])) == cnt)
        v.prove("as many names", toint(py_len(p["names"])) == cnt)
        v.prove("as many bounds", toint(py_len(p["bounds"])) == cnt)
        C.pc.append(z3.Not(comment(i)))
        k = data(i)  # its place among the lines that are not comments
        at = lambda x: x[wrap(k)]
        segment_of(k, k.arg(1), N)  # prefix sums of lengths 0 or 1
        v.prove("place in range", z3.And(0 <= k, k < cnt))
        v.prove("name", term(at(p["names"])) == NAME(i))
        lo, hi = at(p["bounds"])
        v.prove("lower bound", toreal(lo) == FLOAT(LO(i)))
        v.prove("upper bound", toreal(hi) == FLOAT(HI(i)))
        if p["groups"] is None:
            v.prove("groups none: every parameter is its own group", group(i) == NAME(i))
        else:
            v.prove("as many groups", toint(py_len(p["groups"])) == cnt)
            v.prove("group", term(at(p["groups"])) == group(i))
            v.prove("groups given only when they group", z3.Not(own))
            nu, u, g, f, n, rd = npshim.unique_model(as_arr(p["groups"]), "first").uniq
            v.prove("more than one group", nu > 1)
        if p["dists"] is None:
            v.prove("dists none: all uniform", dist(i) == term("unif"))
        else:
            v.prove("as many dists", toint(py_len(p["dists"])) == cnt)
            v.prove("dist", term(at(p["dists"])) == dist(i))
            v.prove("dists given only when one is not uniform", z3.Not(z3.ForAll([a], z3.Implies(live(a), dist(a) == term("unif")))))

    v.explore(run)


from pyvc.libs import py_len

CONTRACTS = [("read_param_file", lambda v: reads(v, False)), ("read_param_file[delimiter]", lambda v: reads(v, True))]
