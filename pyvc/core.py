"""pyvc core: symbolic scalars, solver interface, path exploration, polynomials.

Integers are mathematical, floats are reals (stated in every evidence file).
"""
import fractions
import itertools
import os
import sys
import time
import z3

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
Obj = z3.DeclareSort("Obj")  # strings / opaque hashables


class EngineStop(BaseException):
    """Control flow of the verifier; never caught by `except Exception`."""


class Unsupported(EngineStop):
    pass


def budget(s, ms):
    """resource limit (deterministic, independent of the load of the machine), wall clock only as a backstop"""
    s.set("rlimit", max(200000, ms * 500))
    s.set("timeout", max(15000, 4 * ms))


class Infeasible(EngineStop):
    pass


class Ctx:
    cur = None

    def __init__(self, timeout_ms=8000):
        self.timeout_ms = timeout_ms
        self.facts = []  # global facts (closed under loop variables)
        self.pc = []  # current path condition
        self.frames = []  # decision frames
        self.counter = {}
        self.heap = {}
        self.loopvars = []  # z3 Int consts of enclosing generic iterations
        self.stats = {"queries": 0, "solver_s": 0.0, "obligations": 0, "discharged": 0}
        self.obligations = []
        self.literals = {}
        self.cache = {}
        self.log = []
        self.deadline = None
        self.events = []
        self.fact_ids = {}
        self.safety = []
        self.assumed = {}  # facts assumed inside loop bodies (also recorded closed in facts)
        self.given = {}  # preconditions of the contract: they hold on every path
        self.tentative = False  # inside a loop whose carried values are not summarised yet
        self.recursive = False  # name loop-carried values by the recursion the loop is
        self.recs = {}
        self.on_draw = None  # ghost: called with the generator at every random draw
        self.joint = []  # inverses of functions that are injective together
        self.inverse = {}  # function name -> inverse function (permutations, index lists)

    # -- names
    def name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}"

    def fresh(self, base, sort=Int):
        """A fresh value; inside generic loop iterations it is a function of them."""
        n = self.name(base)
        if self.loopvars:
            f = z3.Function(n, *([Int] * len(self.loopvars)), sort)
            return f(*self.loopvars)
        return z3.Const(n, sort)

    def fresh_fn(self, base, nargs, sort=Real):
        n = self.name(base)
        lv = tuple(self.loopvars)
        f = z3.Function(n, *([Int] * (len(lv) + nargs)), sort)
        return lambda *a: f(*(lv + tuple(toint(x) for x in a)))

    def literal(self, s):
        if s not in self.literals:
            self.literals[s] = z3.Const(f"lit_{len(self.literals)}_{str(s)[:20]}", Obj)
            if len(self.literals) > 1:
                self.cache.clear()
        return self.literals[s]

    def lit_facts(self):
        l = list(self.literals.values())
        return [z3.Distinct(*l)] if len(l) > 1 else []

    # -- facts
    def assume(self, f):
        """Add a fact. Inside a generic iteration it is also recorded, closed over
        the enclosing iterations and guarded by the path condition."""
        f = term(f)
        used = [v for v in self.loopvars if occurs(v, f)]
        if used or self.loopvars:
            gs = [x for x in self.pc if x.get_id() not in self.assumed and x.get_id() not in self.given]
            g = z3.And(gs) if gs else z3.BoolVal(True)
            lv = [v for v in self.loopvars if occurs(v, f) or occurs(v, g)]
            if z3.is_quantifier(f) and f.is_forall() and f.num_patterns():
                ks = [z3.FreshConst(f.var_sort(k), "k") for k in range(f.num_vars())]
                inst = lambda e: z3.substitute_vars(e, *reversed(ks))
                self.add_fact(z3.ForAll(lv + ks, z3.Implies(g, inst(f.body())), patterns=[z3.MultiPattern(*[inst(c) for c in f.pattern(p).children()]) for p in range(f.num_patterns())] if all(any(occurs(x, inst(f.pattern(0))) for x in [y]) for y in lv + ks) else []))
            else:
                body = z3.Implies(g, f)
                self.add_fact(z3.ForAll(lv, body) if lv else body)
            self.assumed[f.get_id()] = f
        self.pc.append(f)

    def define(self, f):
        """A definitional axiom, true for every value of the generated constants in
        it: recorded globally and closed over them."""
        fs = free_gen(f)
        if fs and self.loopvars or any(not v.decl().name().startswith("q_") for v in fs):
            self.add_fact(forall(fs, f))
        self.add_fact(f)

    def add_fact(self, f):
        if f.get_id() not in self.fact_ids:
            self.fact_ids[f.get_id()] = f
            self.facts.append(f)

    # -- solving
    def solver(self, extra, timeout=None, view=None):
        """with a view: None if it changes nothing"""
        s = z3.Solver()
        budget(s, timeout or self.timeout_ms)
        s.set("random_seed", 0)
        fs = list(self.facts) + self.lit_facts() + list(self.pc) + list(extra)
        if view:
            gs = [view(f) for f in fs]
            if all(f is g for f, g in zip(fs, gs)):
                return None
            fs = gs
        for f in fs:
            s.add(f)
        return s

    def check(self, extra, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("check deadline reached")
        key = (tuple(f.get_id() for f in self.facts), tuple(f.get_id() for f in self.pc), tuple(f.get_id() for f in extra), timeout)
        if key in self.cache:
            return self.cache[key][0]
        t = time.time()
        s, r = self._check2(extra, timeout)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        self.cache[key] = (str(r), list(self.facts), list(self.pc), list(extra), s if str(r) == "sat" else None)
        return str(r)

    def _check2(self, extra, timeout):
        """ground assumptions first; quantified ones only when they are needed"""
        ex = [opaque(f) for f in extra]
        s, r = self._check3([opaque(f) for f in list(self.facts) + self.lit_facts() + list(self.pc)], ex, timeout)
        if str(r) != "unsat" and any(f is not g for f, g in zip(extra, ex)):
            s, r = self._check3(list(self.facts) + self.lit_facts() + list(self.pc), list(extra), timeout)
        return s, r

    def _check3(self, allf, extra, timeout):
        allf = allf + extra
        rel = relevant(allf, extra)
        q = any(qcached(f) for f in rel)
        s = z3.Solver()
        s.set("random_seed", 0)
        budget(s, min(timeout or self.timeout_ms, 300) if q else (timeout or self.timeout_ms))
        for f in allf:
            if not qcached(f):
                s.add(f)
        r = s.check()
        if not q or str(r) == "unsat":
            return s, r
        s = z3.SimpleSolver()
        s.set("random_seed", 0)
        budget(s, timeout or self.timeout_ms)
        s.set("auto_config", False)
        s.set("mbqi", False)
        for f in rel:
            s.add(f)
        return s, s.check()

    def valid(self, f, timeout=2500):
        f = term(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.check([z3.Not(f)] + euclid_hints([f] + self.pc[-8:]), timeout) == "unsat"

    def feasible(self, f=None, timeout=2500):
        ex = [] if f is None else [term(f)]
        return self.check(ex, timeout) != "unsat"

    # -- branching
    def decide(self, t, label=None):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if not self.frames:
            if self.valid(t):
                return True
            if self.valid(z3.Not(t)):
                return False
            raise Unsupported(f"branch outside exploration on {t}")
        fr = self.frames[-1]
        if fr.pos < len(fr.trail):
            d = fr.trail[fr.pos][0]
        else:
            # is it forced?
            if self.check([z3.Not(t)], 1000) == "unsat":
                d, alt = True, False
            elif self.check([t], 1000) == "unsat":
                d, alt = False, False
            else:
                d, alt = True, True
                if os.environ.get("PYVC_FORK"):
                    import traceback
                    print("FORK", z3.simplify(t).sexpr()[:300], [(f.filename.split("/")[-1], f.lineno) for f in traceback.extract_stack()[-14:-1]], file=sys.stderr)
            fr.trail.append([d, alt])
        fr.pos += 1
        self.pc.append(t if d else z3.Not(t))
        fr.pcs.append(t if d else z3.Not(t))
        return d

    def choose(self, n, label=""):
        """Nondeterministic n-way choice (all alternatives explored)."""
        for k in range(n - 1):
            fr = self.frames[-1]
            if fr.pos < len(fr.trail):
                d = fr.trail[fr.pos][0]
            else:
                d = True
                fr.trail.append([True, True])
            fr.pos += 1
            if d:
                return k
        return n - 1

    def snapshot(self):
        return (dict(self.heap), list(self.pc), dict(self.counter), list(self.loopvars), list(self.events))

    def restore(self, s):
        self.heap = dict(s[0])
        self.pc = list(s[1])
        self.counter = dict(s[2])
        self.loopvars = list(s[3])
        self.events = list(s[4])

    def explore(self, fn, max_paths=400):
        """Run fn along every feasible path; yields Outcome objects."""
        snap = self.snapshot()
        fr = Frame()
        outs = []
        counters = dict(self.counter)
        while True:
            self.restore(snap)
            fr.pos, fr.pcs = 0, []
            self.frames.append(fr)
            try:
                try:
                    v = fn()
                    o = Outcome("ret", v)
                except Infeasible:
                    o = None
                except EngineStop:
                    raise
                except (Exception,) as e:
                    if isinstance(e, (AttributeError, TypeError, NameError, NotImplementedError, RecursionError, z3.Z3Exception)) and not getattr(e, "_sym", False):
                        # indistinguishable from an engine limitation
                        o = Outcome("raise", e)
                        o.suspect = True
                    else:
                        o = Outcome("raise", e)
            finally:
                self.frames.pop()
            if o is not None:
                o.pcs = list(fr.pcs)
                o.pc = list(self.pc)
                o.heap = dict(self.heap)
                o.counter = dict(self.counter)
                o.events = list(self.events)
                o.snap = self.snapshot()
                outs.append(o)
            for k, v in self.counter.items():
                counters[k] = max(counters.get(k, 0), v)
            # backtrack
            while fr.trail and not fr.trail[-1][1]:
                fr.trail.pop()
            if not fr.trail:
                break
            fr.trail[-1] = [not fr.trail[-1][0], False]
            if len(outs) > max_paths:
                raise Unsupported("too many paths")
        self.restore(snap)
        self.counter = counters
        return outs


class Frame:
    def __init__(self):
        self.trail = []
        self.pos = 0
        self.pcs = []


class Outcome:
    suspect = False

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    def __repr__(self):
        return f"<{self.kind} {self.value!r} | {self.pcs}>"


def ctx():
    return Ctx.cur


# ---------------------------------------------------------------------------
# terms


def occurs(v, t):
    """Does const v occur in z3 term t?"""
    seen = set()
    st = [t]
    vid = v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == vid:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def occurs_any(vs, t):
    return any(occurs(v, t) for v in vs)


def free_gen(t, skip=()):
    """generated Int constants (loop variables, fresh names) free in t, in order"""
    out, seen, st = [], set(), [t]
    sk = {v.get_id() for v in skip}
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == Int and "!" in x.decl().name() and x.get_id() not in sk:
            out.append(x)
        st.extend(reversed(x.children()))
    return out


def forall(vs, body, patterns=()):
    vs = list(vs)
    if not vs:
        return body
    ps = []
    for p in patterns:
        try:
            if not has_quant(p):
                ps.append(p)
        except Exception:
            pass
    if ps:
        try:
            # every variable must occur in the pattern
            q = z3.ForAll(vs, body, patterns=ps)
            if all(all(occurs(v, p) for v in vs) for p in ps):
                return q
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def has_quant(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


_syms = {}


def symbols(f):
    """(function symbols and key constants of f, those in its patterns)"""
    k = f.get_id()
    r = _syms.get(k)
    if r is None:
        out, pat = set(), None
        seen, st = set(), [f]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
                if not x.is_lambda() and x.num_patterns():
                    p2 = set()
                    for i in range(x.num_patterns()):
                        p2 |= symbols(x.pattern(i))[0]
                    p2.discard("pattern")
                    pat = p2 if pat is None else pat | p2
                continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and (x.num_args() or x.sort() not in (Int, Real)):
                    out.add(d.name())
                st.extend(x.children())
        keys = {n for n in out if n.startswith("key")}
        r = (out, pat, keys, f)
        _syms[k] = r
    return r


def relevant(allf, extra):
    """every ground formula, and the quantified ones whose trigger (or key) symbols
    are reachable from the goal. Dropping a hypothesis is sound."""
    S = set()
    for f in extra:
        S |= symbols(f)[0]
    if not extra:
        return allf
    q = [(f,) + symbols(f) for f in allf]
    inc = [False] * len(q)
    ch = True
    while ch:
        ch = False
        for i, (f, out, pat, keys, _) in enumerate(q):
            if inc[i]:
                continue
            if keys:
                ok = keys <= S
            elif pat is not None:
                ok = pat <= S
            else:
                ok = bool(out & S)
            if ok:
                inc[i] = True
                if not out <= S:
                    S |= out
                    ch = True
    return [f for i, (f, *_) in enumerate(q) if inc[i] or not qcached(f)]


_op, _sk = {}, {}


def opaque(f):
    """f with every lambda replaced by an unknown function of the constants in it (sound: the unknown function may be
    the lambda; equal skeletons get the same function, so congruence over the constants stays)"""
    k = f.get_id()
    r = _op.get(k)
    if r is None:
        r = (_opaque(f), f)
        _op[k] = r
    return r[0]


def _opaque(f):
    seen, st, lams = set(), [f], []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                if has_lambda(x.body()):
                    return f
                continue
            lams.append(x)
            continue
        st.extend(x.children())
    if not lams:
        return f
    return z3.substitute(f, *[(l, _skeleton(l)) for l in lams])


def has_lambda(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.is_lambda():
                return True
            st.append(x.body())
            continue
        st.extend(x.children())
    return False


def _skeleton(l):
    r = _sk.get(l.get_id())
    if r is not None:
        return r[0]
    cs, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            go(x.body())
            return
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            cs.append(x)
        for c in x.children():
            go(c)

    go(l)
    ph = [z3.Const(f"@{i}:{c.sort()}", c.sort()) for i, c in enumerate(cs)]
    gen = z3.substitute(l, *zip(cs, ph)) if cs else l
    k = _sk.get(("gen", gen.get_id()))
    if k is None:
        k = (z3.Function(f"LAM{len(_sk)}", *[c.sort() for c in cs], l.sort()) if cs else z3.Const(f"LAM{len(_sk)}", l.sort()), gen)
        _sk["gen", gen.get_id()] = k
    t = k[0](*cs) if cs else k[0]
    _sk[l.get_id()] = (t, l)
    return t


_qc = {}


def qcached(f):
    k = f.get_id()
    r = _qc.get(k)
    if r is None:
        r = (has_quant_noarr(f), f)
        _qc[k] = r
    return r[0]


def has_quant_noarr(t):
    """contains a forall/exists (lambdas do not count)"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                return True
            st.append(x.body())
            continue
        st.extend(x.children())
    return False


KeySort = z3.DeclareSort("Key")
_keys = {}


_kbody = {}  # name of a key function -> (template over @0.. and @t, number of parameters)


def key_parts(k):
    """(t, body at t, length) of a key that names a sequence on [0, length), else None"""
    e = _kbody.get(k.decl().name())
    if e is None:
        return None
    gen, n, _ = e
    if not (z3.is_app(gen) and gen.decl().name().startswith("ONRANGE_")):
        return None
    t = z3.FreshConst(Int, "kt")
    g = z3.substitute(gen, (z3.Const("@t", Int), t), *[(z3.Const(f"@{i}", Int), k.arg(i)) for i in range(n)])
    return t, g.arg(0), g.arg(1)


def funkey(t, body, n=None):
    """A name (first-order term) for the function t -> body (on the range [0,n) if n is given)."""
    if n is not None:
        body = ufn("ONRANGE_" + str(body.sort()), body.sort(), Int, body.sort())(body, norm(n))
    fs = free_gen(body, [t])
    m = [(v, z3.Const(f"@{k}", Int)) for k, v in enumerate(fs)] + [(t, z3.Const("@t", Int))]
    gen = z3.substitute(body, *m)
    if not has_sum(gen):
        gen = norm(gen)
    txt = str(body.sort()) + gen.sexpr()
    if txt not in _keys and fs:
        for g0, n0, k0 in _templates:
            a = template_args(g0, n0, z3.substitute(body, m[-1]))
            if a is not None:
                return k0(*a)
    if txt not in _keys:
        _keys[txt] = z3.Function(f"key{len(_keys)}", *([Int] * len(fs)), KeySort) if fs else z3.Const(f"key{len(_keys)}", KeySort)
        if fs:
            _templates.append((gen, len(fs), _keys[txt]))
        _kbody[_keys[txt].name() if fs else _keys[txt].decl().name()] = (gen, len(fs), fs)
    k = _keys[txt]
    return k(*fs) if fs else k


_templates = []


def template_args(g0, n0, body):
    """arguments that make the earlier key template g0 equal to body, or None"""
    params = [z3.Const(f"@{k}", Int) for k in range(n0)]
    ids = {p.get_id(): k for k, p in enumerate(params)}
    sub = {}
    if g0.sort() != body.sort():
        return None

    def go(p, b):
        if p.eq(b) and not any(occurs(x, p) for x in params):
            return True
        if p.get_id() in ids:
            k = ids[p.get_id()]
            if k in sub:
                return norm(sub[k]).eq(norm(b))
            sub[k] = norm(b)
            return True
        if z3.is_quantifier(p):
            return z3.is_quantifier(b) and p.is_lambda() == b.is_lambda() and go(p.body(), b.body())
        if not z3.is_app(p) or not z3.is_app(b):
            return False
        if p.sort() == Int and p.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            if b.sort() != Int:
                return False
            pp = poly(p)
            d = poly(b)
            batoms = [Poly.atoms[a] for a in {a for k in d.m for a, _ in k}]
            for a in sorted({a for k in pp.m for a, _ in k}):
                at = Poly.atoms[a]
                if a in ids or not any(occurs(x, at) and ids[x.get_id()] not in sub for x in params):
                    continue
                for bt in batoms:
                    if bt.num_args() == at.num_args() and bt.decl() == at.decl():
                        sv = dict(sub)
                        if go(at, bt):
                            break
                        sub.clear()
                        sub.update(sv)
            free = [x for x in params if occurs(x, p) and ids[x.get_id()] not in sub]
            if len(free) > 1:
                return False
            bound = [(x, sub[ids[x.get_id()]]) for x in params if ids[x.get_id()] in sub]
            if bound:
                pp = poly(z3.substitute(p, *bound))
            if not free:
                return pp.key() == d.key()
            a = Poly.atom(free[0]).key()[0][0]
            c = pp.m.get(a)
            if c not in (1, -1) or sum(any(x == a[0][0] for x, _ in k) for k in pp.m) != 1:
                return False
            rest = pp - Poly({a: c})
            s = (d - rest).scale(c)
            if any(v.denominator != 1 for v in s.m.values()):
                return False
            sub[ids[free[0].get_id()]] = unpoly(s, False)
            return True
        if p.decl() != b.decl() or p.num_args() != b.num_args():
            return False
        return all(go(x, y) for x, y in zip(p.children(), b.children()))

    try:
        if not go(g0, body) or len(sub) != n0:
            return None
    except Unsupported:
        return None
    if any(occurs(z3.Const("@t", Int), v) for v in sub.values()):
        return None
    r = z3.substitute(g0, *[(params[k], sub[k]) for k in range(n0)])
    return [sub[k] for k in range(n0)] if norm(r).eq(norm(body)) else None


def is_num(x):
    import numbers
    return isinstance(x, (int, float, fractions.Fraction)) or isinstance(x, numbers.Number)


NAN = z3.Const("NaN", Real)
INF = z3.Const("Inf", Real)


def term(x):
    """Python value -> z3 term"""
    if isinstance(x, Sc):
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else -INF
        return z3.RealVal(fractions.Fraction(x).limit_denominator(10**15) if abs(x) < 1e6 and fractions.Fraction(x).limit_denominator(10**6) != 0 and abs(float(fractions.Fraction(x).limit_denominator(10**6)) - x) == 0 else fractions.Fraction(x))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(x)
    if isinstance(x, str):
        return ctx().literal(x)
    import numpy as _np
    if isinstance(x, _np.bool_):
        return z3.BoolVal(bool(x))
    if isinstance(x, _np.integer):
        return z3.IntVal(int(x))
    if isinstance(x, _np.floating):
        return term(float(x))
    if hasattr(x, "__scalar__"):
        return term(x.__scalar__())
    raise Unsupported(f"no term for {type(x).__name__}")


def toint(x):
    t = term(x)
    if t.sort() == Int:
        return t
    if t.sort() == Bool:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if t.sort() == Real:
        s = z3.simplify(t)
        if z3.is_rational_value(s) and s.denominator_as_long() == 1:
            return z3.IntVal(s.numerator_as_long())
        if s.decl().kind() == z3.Z3_OP_TO_REAL:
            return s.arg(0)
        if t.decl().kind() == z3.Z3_OP_TO_REAL:
            return t.arg(0)
        raise Unsupported(f"real used as an index: {s}")
    raise Unsupported(f"not an int: {t}")


def toreal(x):
    t = term(x)
    if t.sort() == Real:
        return t
    if t.sort() == Int:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if t.sort() == Bool:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"not a real: {t} ({t.sort()})")


def tobool(x):
    t = term(x)
    if t.sort() == Bool:
        return t
    if t.sort() in (Int, Real):
        return t != 0
    raise Unsupported(f"truth of {t.sort()}")


def coerce2(a, b):
    a, b = term(a), term(b)
    if a.sort() == b.sort():
        if a.sort() == Bool:
            return a, b
        return a, b
    if Real in (a.sort(), b.sort()):
        return toreal(a), toreal(b)
    if Int in (a.sort(), b.sort()):
        return toint(a), toint(b)
    raise Unsupported(f"sorts {a.sort()} and {b.sort()}")


def arith2(a, b):
    a, b = coerce2(a, b)
    if a.sort() == Bool:
        a, b = toint(a), toint(b)
    return a, b


def wrap(t):
    """z3 term -> python constant if it is one, else Sc"""
    if isinstance(t, Sc) or not isinstance(t, z3.ExprRef):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sc(t)


def wraps(t):
    return wrap(z3.simplify(t)) if isinstance(t, z3.ExprRef) and t.sort() in (Int, Bool) else wrap(t)


# Ring-level helpers.  Reals divisions are kept as z3 `/`.


def t_add(a, b):
    a, b = arith2(a, b)
    return a + b


def t_sub(a, b):
    a, b = arith2(a, b)
    return a - b


def t_mul(a, b):
    a, b = arith2(a, b)
    return a * b


def t_div(a, b):
    return toreal(a) / toreal(b)


def is_pos(b):
    b = z3.simplify(b)
    if z3.is_int_value(b):
        return b.as_long() > 0
    return ctx().valid(b > 0)


def t_floordiv(a, b):
    a, b = arith2(a, b)
    if a.sort() == Int:
        if is_pos(b):
            return poly_div(a, b)
        raise Unsupported(f"floor division by {b}")
    return z3.ToReal(t_floor(a / b))


def t_mod(a, b):
    a, b = arith2(a, b)
    if a.sort() == Int:
        if is_pos(b):
            return a % b
        raise Unsupported(f"modulo by {b}")
    q = z3.ToReal(t_floor(a / b))
    return a - b * q


def exact_quot(a, b):
    """q with a == q*b as polynomials (b divides a), or None"""
    pa, pb = poly(a), poly(b)
    if not pb.m or len(pb.m) > 12 or len(pa.m) > 60:
        return None
    if any(e < 0 for k in list(pa.m) + list(pb.m) for _, e in k):
        return None
    order = sorted({x for k in list(pa.m) + list(pb.m) for x, _ in k})

    def rank(k):
        d = dict(k)
        return (sum(d.values()),) + tuple(d.get(x, 0) for x in order)

    lead = max(pb.m, key=rank)
    q, r = Poly(), pa
    for _ in range(80):
        if not r.m:
            return q
        top = max(r.m, key=rank)
        m = mono_mul(top, tuple((x, -e) for x, e in lead))
        if any(e < 0 for _, e in m):
            return None
        t = Poly({m: r.m[top] / pb.m[lead]})
        q = q + t
        r = r - t * pb
    return None


def poly_div(a, b):
    q = exact_quot(a, b)
    if q is not None and all(v.denominator == 1 for v in q.m.values()):
        return unpoly(q, False)
    return a / b


def _ratio(t):
    """t == ToReal(a)/ToReal(b) (or rational multiples)? -> (a, b) ints"""
    if t.decl().kind() == z3.Z3_OP_DIV:
        n, d = t.children()
        a, b = _intlike(n), _intlike(d)
        if a is not None and b is not None:
            # n = a[0]/a[1], d = b[0]/b[1]
            return a[0] * b[1], b[0] * a[1]
    a = _intlike(t)
    return a


def _intlike(t):
    """t as (int term, positive int const) meaning num/den"""
    k = t.decl().kind()
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()), z3.IntVal(t.denominator_as_long())
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0), z3.IntVal(1)
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB or k == z3.Z3_OP_UMINUS or k == z3.Z3_OP_MUL:
        ch = [_intlike(c) for c in t.children()]
        if any(c is None for c in ch):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -ch[0][0], ch[0][1]
        n, d = ch[0]
        for (n2, d2) in ch[1:]:
            if k == z3.Z3_OP_MUL:
                n, d = n * n2, d * d2
            elif k == z3.Z3_OP_ADD:
                n, d = n * d2 + n2 * d, d * d2
            else:
                n, d = n * d2 - n2 * d, d * d2
        return z3.simplify(n), z3.simplify(d)
    if k == z3.Z3_OP_DIV:
        r = _intlike(t.arg(0))
        r2 = _intlike(t.arg(1))
        if r is None or r2 is None:
            return None
        return z3.simplify(r[0] * r2[1]), z3.simplify(r[1] * r2[0])
    return None


def t_floor(t):
    t = term(t)
    if t.sort() == Int:
        return t
    s = z3.simplify(t)
    if z3.is_rational_value(s):
        import math
        return z3.IntVal(math.floor(s.as_fraction()))
    r = _intlike(t)
    if r is not None:
        a, b = r
        if z3.is_int_value(z3.simplify(b)) and z3.simplify(b).as_long() == 1:
            return a
        if is_pos(b):
            return poly_div(a, b)
    return z3.ToInt(t)


def t_trunc(t):
    """int(t) for real t"""
    t = term(t)
    if t.sort() == Int:
        return t
    if t.sort() == Bool:
        return toint(t)
    s = z3.simplify(t)
    if z3.is_rational_value(s):
        return z3.IntVal(int(s.as_fraction()))
    if ctx().valid(t >= 0):
        return t_floor(t)
    if ctx().valid(t <= 0):
        return -t_floor(-t)
    f = t_floor(t)
    return z3.If(t >= 0, f, z3.If(z3.ToReal(f) == t, f, f + 1))


_fn_cache = {}


def ufn(name, *sorts):
    k = (name, sorts)
    if k not in _fn_cache:
        _fn_cache[k] = z3.Function(name, *sorts)
    return _fn_cache[k]


SQRT = ufn("sqrt", Real, Real)


def t_pow(a, b):
    ta, tb = term(a), z3.simplify(term(b))
    if z3.is_rational_value(tb) or z3.is_int_value(tb):
        e = tb.as_fraction() if z3.is_rational_value(tb) else fractions.Fraction(tb.as_long())
        if e.denominator == 1 and 0 <= e <= 6:
            if ta.sort() == Bool:
                ta = toint(ta)
            r = None
            for _ in range(int(e)):
                r = ta if r is None else r * ta
            if r is None:
                return z3.IntVal(1) if ta.sort() == Int else z3.RealVal(1)
            return toreal(r) if tb.sort() == Real else r
        if e == fractions.Fraction(1, 2):
            return t_sqrt(ta)
        if e.denominator == 1 and -6 <= e < 0:
            return z3.RealVal(1) / toreal(t_pow(ta, -int(e)))
    sa = z3.simplify(ta)
    if z3.is_int_value(sa) and sa.as_long() == 2 and tb.sort() == Int:
        return ufn("pow2", Int, Int)(tb)
    return ufn("pow", Real, Real, Real)(toreal(ta), toreal(tb))


def t_sqrt(a):
    a = toreal(a)
    s = SQRT(a)
    return s


def t_abs(a):
    a = term(a)
    return z3.If(a >= 0, a, -a)


def t_min(a, b):
    a, b = arith2(a, b)
    return z3.If(b < a, b, a)


def t_max(a, b):
    a, b = arith2(a, b)
    return z3.If(b > a, b, a)


def t_eq(a, b):
    if a is None or b is None:
        return z3.BoolVal(a is b)
    ta, tb = term(a), term(b)
    if (ta.sort() == Obj) != (tb.sort() == Obj):
        return z3.BoolVal(False)
    ta, tb = coerce2(ta, tb)
    return ta == tb


class Sc:
    """Symbolic scalar"""

    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"Sc({z3.simplify(self.t)})"

    def __format__(self, spec):
        return "<sym>"

    def endswith(self, s):
        return self._affix("endswith", s)

    def startswith(self, s):
        return self._affix("startswith", s)

    def _affix(self, what, s):
        """an unknown string: a predicate of it"""
        if not isinstance(s, str) or self.t.sort() != Obj:
            raise Unsupported(f"{what} of {self.t.sort()}")
        return Sc(z3.Function(f"{what}:{s}", Obj, Bool)(self.t))

    def __hash__(self):
        return self.t.hash()

    def _bin(f, swap=False):
        def op(self, o):
            if isinstance(o, Sc) or is_num(o):
                a, b = (o, self) if swap else (self, o)
                return wrap(f(a, b))
            return NotImplemented

        return op

    def __add__(self, o):
        if self.t.sort() == Obj and (isinstance(o, (str, Sc))):
            return Sc(ufn("STRCAT", Obj, Obj, Obj)(self.t, term(o)))
        return wrap(t_add(self, o)) if isinstance(o, Sc) or is_num(o) else NotImplemented

    def __radd__(self, o):
        if self.t.sort() == Obj and isinstance(o, str):
            return Sc(ufn("STRCAT", Obj, Obj, Obj)(term(o), self.t))
        return wrap(t_add(o, self)) if isinstance(o, Sc) or is_num(o) else NotImplemented

    __sub__ = _bin(t_sub)
    __rsub__ = _bin(t_sub, True)
    __mul__ = _bin(t_mul)
    __rmul__ = _bin(t_mul, True)
    __truediv__ = _bin(t_div)
    __rtruediv__ = _bin(t_div, True)
    __floordiv__ = _bin(t_floordiv)
    __rfloordiv__ = _bin(t_floordiv, True)
    __mod__ = _bin(t_mod)
    __rmod__ = _bin(t_mod, True)
    __pow__ = _bin(t_pow)
    __rpow__ = _bin(t_pow, True)

    def __neg__(self):
        return wrap(-(toint(self) if self.t.sort() == Bool else self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(t_abs(self))

    def __invert__(self):
        if self.t.sort() == Bool:
            return wrap(z3.Not(self.t))
        raise Unsupported("~ on number")

    def __and__(self, o):
        if self.t.sort() == Bool:
            return wrap(z3.And(self.t, tobool(o)))
        return bitop("and", self, o)

    __rand__ = lambda self, o: Sc.__and__(self, o) if self.t.sort() == Bool else bitop("and", o, self)

    def __or__(self, o):
        if self.t.sort() == Bool:
            return wrap(z3.Or(self.t, tobool(o)))
        return bitop("or", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bitop("xor", self, o)

    __rxor__ = lambda self, o: bitop("xor", o, self)

    def __lshift__(self, o):
        return bitop("shl", self, o)

    __rlshift__ = lambda self, o: bitop("shl", o, self)

    def __rshift__(self, o):
        return bitop("shr", self, o)

    __rrshift__ = lambda self, o: bitop("shr", o, self)

    def _cmp(f):
        def op(self, o):
            if isinstance(o, Sc) or is_num(o) or hasattr(o, "__scalar__"):
                if getattr(o, "ndim", 0):
                    return NotImplemented  # an array compares elementwise
                a, b = coerce2(self, o)
                if a.sort() == Bool:
                    a, b = toint(a), toint(b)
                return wraps(f(a, b))
            return NotImplemented

        return op

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, (Sc, str)) or is_num(o) or hasattr(o, "__scalar__"):
            return wraps(t_eq(self, o))
        return NotImplemented

    def __ne__(self, o):
        if o is None:
            return True
        if isinstance(o, (Sc, str)) or is_num(o) or hasattr(o, "__scalar__"):
            return wraps(z3.Not(t_eq(self, o)))
        return NotImplemented

    def __bool__(self):
        if self.t.sort() == Obj:
            return True
        return ctx().decide(tobool(self.t))

    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported(f"symbolic value used as a native index: {s}")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("symbolic value converted to a native float")

    # numpy-scalar-like API
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def astype(self, t):
        return self

    @property
    def dtype(self):
        return "real"

    def strip(self, *a):
        return Sc(ufn("str_strip", Obj, Obj)(self.t))

    def startswith(self, s):
        return Sc(ufn("str_startswith", Obj, Obj, Bool)(self.t, term(s)))

    def is_integer(self):
        return True

    def mean(self, axis=None):
        return self

    def copy(self):
        return self


_bit_handler = [None]


def bitop(op, a, b):
    if _bit_handler[0] is None:
        ta, tb = z3.simplify(toint(a)), z3.simplify(toint(b))
        # power-of-two test idioms only appear in warnings: opaque but functional
        return Sc(ufn(f"bit_{op}", Int, Int, Int)(ta, tb))
    return _bit_handler[0](op, a, b)


def ite(c, a, b):
    c = tobool(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    ta, tb = coerce2(a, b)
    if ta.eq(tb):
        return wrap(ta)
    return wrap(z3.If(c, ta, tb))


# ---------------------------------------------------------------------------
# polynomials over opaque atoms (Laurent monomials, for normal forms)


class Poly:
    __slots__ = ("m",)  # dict: tuple(sorted((atomkey, exp))) -> Fraction
    atoms = {}  # key -> z3 term (kept alive)

    def __init__(self, m=None):
        self.m = m or {}

    @staticmethod
    def const(c):
        c = fractions.Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(t):
        k = t.get_id()
        Poly.atoms[k] = t
        return Poly({((k, 1),): fractions.Fraction(1)})

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            w = m.get(k, 0) + v
            if w:
                m[k] = w
            else:
                m.pop(k, None)
        return Poly(m)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()}) if c else Poly()

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        m = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = mono_mul(k1, k2)
                w = m.get(k, 0) + v1 * v2
                if w:
                    m[k] = w
                else:
                    m.pop(k, None)
        return Poly(m)

    def is_mono(self):
        return len(self.m) == 1

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const_val(self):
        return self.m.get((), fractions.Fraction(0))

    def inv(self):
        ((k, v),) = self.m.items()
        return Poly({tuple((a, -e) for a, e in k): 1 / v})

    def key(self):
        return tuple(sorted(self.m.items()))

    def degree_in(self, a):
        return max((dict(k).get(a, 0) for k in self.m), default=0)


def mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
        if not d[k]:
            del d[k]
    return tuple(sorted(d.items()))


_poly_cache = {}


def poly(t):
    """Normal form of an arithmetic z3 term (Int or Real)."""
    k = t.get_id()
    r = _poly_cache.get(k)
    if r is not None:
        return r[0]
    p = _poly(t)
    _poly_cache[k] = (p, t)
    return p


def _poly(t):
    if z3.is_int_value(t):
        return Poly.const(t.as_long())
    if z3.is_rational_value(t):
        return Poly.const(t.as_fraction())
    kind = t.decl().kind()
    ch = t.children()
    if kind == z3.Z3_OP_ADD:
        r = Poly()
        for c in ch:
            r = r + poly(c)
        return r
    if kind == z3.Z3_OP_SUB:
        r = poly(ch[0])
        for c in ch[1:]:
            r = r - poly(c)
        return r
    if kind == z3.Z3_OP_UMINUS:
        return poly(ch[0]).scale(-1)
    if kind == z3.Z3_OP_MUL:
        r = Poly.const(1)
        for c in ch:
            r = r * poly(c)
        return r
    if kind == z3.Z3_OP_DIV:
        d = poly(ch[1])
        if d.is_mono():
            return poly(ch[0]) * d.inv()
        if d.m:
            # factor out the common monomial so that equal denominators coincide
            g = content(d)
            d2 = d * Poly({tuple((a, -e) for a, e in g[0]): 1 / g[1]})
            a = Poly.atom(unpoly(d2, True))
            return poly(ch[0]) * Poly({g[0]: g[1]}).inv() * a.inv()
    if kind == z3.Z3_OP_TO_REAL:
        p = poly(ch[0])
        r = Poly()
        for k, v in p.m.items():
            m = Poly.const(v)
            for a, e in k:
                at = Poly.atoms[a]
                m = m * Poly({((Poly.atom(norm_atom(z3.ToReal(at))).key()[0][0][0][0], e),): fractions.Fraction(1)})
            r = r + m
        return r
    if kind == z3.Z3_OP_POWER:
        e = ch[1]
        if z3.is_int_value(e) or (z3.is_rational_value(e) and e.denominator_as_long() == 1):
            n = e.as_long() if z3.is_int_value(e) else e.numerator_as_long()
            if 0 <= n <= 8:
                r = Poly.const(1)
                for _ in range(n):
                    r = r * poly(ch[0])
                return r
    a = norm_atom(t)
    if t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not a.decl().eq(t.decl()):
        return poly(a)
    return Poly.atom(a)


def content(d):
    """common monomial (min exponents) and leading coefficient"""
    ks = list(d.m)
    common = dict(ks[0])
    for k in ks[1:]:
        dk = dict(k)
        for a in list(common):
            e = min(common[a], dk.get(a, 0)) if a in dk else 0
            if e:
                common[a] = e
            else:
                del common[a]
    lead = d.m[min(ks)]
    return tuple(sorted(common.items())), lead


_norm_cache = {}
_sum_norm = [None]
_has_sum = {}


def has_sum(t):
    """t contains a SUM, whose normal form depends on the facts in force"""
    k = t.get_id()
    r = _has_sum.get(k)
    if r is None:
        r = ((z3.is_app(t) and t.decl().name() == "SUM") or any(has_sum(c) for c in ([t.body()] if z3.is_quantifier(t) else t.children())), t)
        _has_sum[k] = r
    return r[0]


def _ckey(t):
    if not has_sum(t):
        return t.get_id()
    return (t.get_id(), tuple([c.get_id() for c in Ctx.cur.pc]) if Ctx.cur is not None else None)


def norm_atom(t):
    """Normalise the arguments of a non-arithmetic term."""
    k = _ckey(t)
    r = _norm_cache.get(k)
    if r is not None:
        return r[0]
    if z3.is_quantifier(t) or t.num_args() == 0:
        r = t
    elif _sum_norm[0] is not None and t.decl().name() == "SUM" and t.num_args() == 2:
        r = _sum_norm[0](t)
    else:
        if t.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = t.children()
            x, y = z3.substitute(x, (c, z3.BoolVal(True))), z3.substitute(y, (c, z3.BoolVal(False)))
            if not (x.eq(t.arg(1)) and y.eq(t.arg(2))):
                t2 = z3.If(c, z3.simplify(x), z3.simplify(y))
                r = norm(t2)
                _norm_cache[k] = (r, t)
                return r
        args = [norm(c) for c in t.children()]
        if t.decl().kind() == z3.Z3_OP_TO_REAL and not (args[0].num_args() == 0 or args[0].decl().kind() == z3.Z3_OP_UNINTERPRETED):
            r = z3.ToReal(args[0])
        else:
            r = split_multiple(t.decl(), args)
            r = t.decl()(*args) if r is None else r
    _norm_cache[k] = (r, t)
    return r


def split_multiple(d, args):
    """(k p + q) div k = p + q div k and (k p + q) mod k = q mod k, for a number k > 0"""
    if d.kind() not in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or not z3.is_int_value(args[1]) or args[1].as_long() <= 0:
        return None
    k = args[1].as_long()
    p, q = Poly(), Poly()
    for mono, c in poly(args[0]).m.items():
        if c.denominator != 1:
            return None
        a, b = (divmod(int(c), k))
        if mono and b:
            a, b = 0, int(c)
        if a:
            p = p + Poly({mono: core_frac(a)})
        if b:
            q = q + Poly({mono: core_frac(b)})
    if not p.m:
        return None
    rest = unpoly(q, False)
    if z3.is_int_value(rest): return None
    if z3.is_int_value(rest):
        rest = z3.IntVal(rest.as_long() // k if d.kind() == z3.Z3_OP_IDIV else rest.as_long() % k)
    else:
        rest = d(rest, args[1])
    return rest if d.kind() == z3.Z3_OP_MOD else unpoly(p + poly(rest), False)


core_frac = fractions.Fraction


def norm(t):
    """Canonical term: sums of monomials ordered by atom structure."""
    if not isinstance(t, z3.ExprRef):
        return t
    if z3.is_quantifier(t):
        return t
    if t.sort() in (Int, Real):
        return unpoly(poly(t), t.sort() == Real)
    if t.sort() == Bool:
        if z3.is_eq(t) and t.arg(0).sort() in (Int, Real):
            return norm(t.arg(0)) == norm(t.arg(1))
        if t.num_args():
            return t.decl()(*[norm(c) for c in t.children()])
    if t.num_args():
        return norm_atom(t)
    return t


_sexpr_cache = {}


def skey(t):
    k = t.get_id()
    r = _sexpr_cache.get(k)
    if r is None:
        r = (t.sexpr(), t)
        _sexpr_cache[k] = r
    return r[0]


def unpoly(p, real):
    """Poly -> z3 term in canonical order."""
    if not p.m:
        return z3.RealVal(0) if real else z3.IntVal(0)
    ms = []
    for k, v in p.m.items():
        fs = sorted(((skey(Poly.atoms[a]), a, e) for a, e in k), key=lambda z: (z[0], z[2]))
        ms.append((tuple((f[0], f[2]) for f in fs), fs, v))
    ms.sort(key=lambda z: z[0])
    terms = []
    for _, fs, v in ms:
        num, den = [], []
        for _, a, e in fs:
            at = Poly.atoms[a]
            if real and at.sort() == Int:
                at = z3.ToReal(at)
            (num if e > 0 else den).extend([at] * abs(e))
        if real:
            c = z3.RealVal(v)
        else:
            if v.denominator != 1:
                raise Unsupported("non-integer polynomial")
            c = z3.IntVal(v.numerator)
        t = None
        if v != 1 or not num:
            t = c
        for x in num:
            t = x if t is None else t * x
        if den:
            d = den[0]
            for x in den[1:]:
                d = d * x
            t = t / d
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def clear_denoms(p):
    """p times the composite denominators in it, with composite atoms expanded"""
    def comp(a):
        return Poly.atoms[a].decl().kind() == z3.Z3_OP_ADD

    for _ in range(40):
        need = {}
        for k in p.m:
            for a, e in k:
                if e < 0 and comp(a):
                    need[a] = max(need.get(a, 0), -e)
        if not need:
            return p
        a, e = next(iter(need.items()))
        q = poly(Poly.atoms[a])
        out = Poly()
        for k, v in p.m.items():
            d = dict(k)
            x = d.pop(a, 0) + e
            r = Poly({tuple(sorted(d.items())): v})
            for _ in range(x):
                r = r * q
            out = out + r
        p = out
    return p


def euclid_hints(fs):
    return []
