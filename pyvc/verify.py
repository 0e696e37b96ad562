"""Contract API used by contracts/Cxx.py, and the obligation bookkeeping."""
import os
import subprocess
import time
import traceback
import z3
from .core import *
from .arrays import *
from .arrays import SUMF, SUMIF
from . import arrays as A
from . import loader, npshim, libs, core

OB_TIMEOUT = int(os.environ.get("PYVC_OB_MS", "20000"))
FRESH = {}


class Failed(EngineStop):
    """stop this path: an obligation already failed on it"""


class V:
    def __init__(self, prop, cname, sizes=None):
        self.prop, self.cname = prop, cname
        self.C = Ctx()
        Ctx.cur = self.C
        self.L = loader.Loader()
        self.obs = []  # {name,status,backend,time,detail}
        self.functions = []
        self.assumptions = []
        self.paths = 0
        self.sizes = sizes or {}
        self.safety = {"n": 0, "ok": 0, "bad": []}
        A.INDEX_OBLIGATIONS[0] = self._index
        self._seen = {}
        self._div_failed = {}
        self._keyeq = {}

    # -- set-up
    def module(self, name):
        return self.L.load(name)

    def target(self, qual):
        """load a function of the real code and list it as under contract"""
        mod, fn = qual.rsplit(".", 1)
        m = self.L.load(mod) if os.path.exists(self.L.path(mod)[0]) else None
        if m is None:
            mod2, cls = mod.rsplit(".", 1)
            m = self.L.load(mod2)
            f = getattr(getattr(m, cls), fn)
        else:
            if not hasattr(m, fn):
                raise Unsupported(f"{qual} no longer exists")
            f = getattr(m, fn)
        if qual not in self.functions:
            self.functions.append(qual)
        return f

    def under(self, *quals):
        for q in quals:
            if q not in self.functions:
                self.functions.append(q)

    def stub(self, mod, name, value, why=None):
        o = self.L.stub(mod, name, value)
        self.assume_text(why or f"{mod}.{name} replaced by its contract (proved separately)")
        return o

    def assume_text(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def int(self, name, lo=None, hi=None):
        if name in self.sizes:
            return z3.IntVal(self.sizes[name])
        x = z3.Int(name)
        if lo is not None:
            self.C.pc.append(x >= lo)
        if hi is not None:
            self.C.pc.append(x < hi)
        return x

    def real(self, name):
        return z3.Real(name)

    def pre(self, *fs):
        for f in fs:
            self.C.pc.append(term(f))

    def given(self, f):
        """a precondition stated while the contract runs (before the code is called)"""
        self.C.pc.append(f)
        self.C.given[f.get_id()] = f

    def fact(self, f):
        self.C.add_fact(f)

    def mat(self, name, *shape, sort=Real):
        """A symbolic input array name[i,...] (contents arbitrary)."""
        f = z3.Function(name, *([Int] * len(shape)), sort)
        return Arr(tuple(wrapdim(toint(d)) for d in shape), CFn(lambda *q: f(*[toint(x) for x in q])), sort_dtype(sort)), f

    def names(self, name, n):
        """symbolic list of n strings"""
        f = z3.Function(name, Int, Obj)
        return PList.sym(toint(n), lambda i: f(toint(i))), f

    # -- running the code
    def explore(self, run, expect=None, name="call"):
        """run(): executes real code and proves inside; expect: exception types allowed"""
        self.C.pcs0 = list(self.C.pc)
        for f in self.C.pc:
            self.C.given[f.get_id()] = f
        self.reach(name)

        ends = []

        def go():
            try:
                r = run()
                ends.append(self.C.check([], 3000))
                return r
            except Failed:
                return None

        outs = self.C.explore(go)
        if ends and all(e == "unsat" for e in ends):
            self._record(f"{name}: assumptions satisfiable when the contract ends", "vacuous", "z3", 0, "contradictory assumptions on every path")
        elif "sat" in ends:
            self._record(f"{name}: assumptions satisfiable when the contract ends", "discharged", "z3", 0, "")
        self.paths += len(outs)
        for o in outs:
            if o.kind == "raise" and (expect is None or not isinstance(o.value, expect)):
                if o.suspect:
                    tb = traceback.extract_tb(o.value.__traceback__)
                    raise Unsupported(f"{type(o.value).__name__}: {o.value} at {[(f.filename.split('/')[-1], f.lineno) for f in tb[-3:]]}")
                # an unexpected exception on a feasible path
                self.C.restore(o.snap)
                r = self.C.check([], 10000)
                tb = traceback.extract_tb(o.value.__traceback__)
                st = {"unsat": "discharged", "sat": "refuted"}.get(r, "undecided")
                self._record(f"{name}: no exception", st, "z3", 0, f"{type(o.value).__name__}: {o.value} at {[(f.filename.split('/')[-1], f.lineno) for f in tb[-2:]]}")
        if outs and all(o.kind == "ret" for o in outs):
            self._record(f"{name}: no exception", "discharged", "path exploration", 0, "")
        return outs

    def reach(self, name):
        r = str(self.C.solver([], 10000).check())
        if r == "unsat":
            self._record(f"{name}: precondition satisfiable", "vacuous", "z3", 0, "contradictory precondition")
        elif r == "sat":
            self._record(f"{name}: precondition satisfiable", "discharged", "z3", 0, r)

    def _index(self, t, d):
        ok = self.C.valid(z3.And(-d <= t, t < d), 1500)
        self.C.safety.append((ok, "" if ok else f"{z3.simplify(t).sexpr()[:120]} in [0,{z3.simplify(d).sexpr()[:70]})"))

    # -- obligations
    def _record(self, name, status, backend, dt, detail):
        k = name
        n = self._seen.get(k, 0)
        self._seen[k] = n + 1
        self.obs.append({"name": f"{self.cname}/{name}" + (f"#{n}" if n else ""), "status": status, "backend": backend, "time": round(dt, 3), "detail": str(detail)[:1500]})
        return status == "discharged"

    def prove(self, name, goal, timeout=None):
        t0 = time.time()
        if isinstance(goal, bool):
            return self._record(name, "discharged" if goal else "refuted", "evaluation", 0, "")
        goal = term(goal)
        st, be, det = self._solve(goal, timeout or OB_TIMEOUT)
        return self._record(name, st, be, time.time() - t0, det)

    def expect(self, name, ok):
        """a fact about the shape of the computation the contract can read; otherwise no verdict"""
        if not ok:
            raise Unsupported(f"{name}: not in a form this contract can read")
        return self._record(name, "discharged", "evaluation", 0, "")

    def prove_all(self, name, goals, **k):
        return [self.prove(name, g, **k) for g in goals]

    def prove_eq(self, name, a, b, timeout=None):
        """a == b for scalars (normal forms, sum congruence, then solver)"""
        t0 = time.time()
        try:
            a, b = coerce2(a, b)
        except Unsupported as e:
            return self._record(name, "undecided", "-", 0, str(e))
        if a.eq(b):
            return self._record(name, "discharged", "syntactic", 0, "")
        if a.sort() in (Int, Real):
            na, nb = norm(z3.simplify(a)), norm(z3.simplify(b))
            for x, y in ((norm(a), norm(b)), (na, nb)):
                if x.eq(y):
                    return self._record(name, "discharged", "normal form", time.time() - t0, "")
            if na.sort() == Real and not clear_denoms(poly(na) - poly(nb)).m:
                return self._record(name, "discharged", "normal form", time.time() - t0, "")
            if has_idiv(na) or has_idiv(nb):
                na, nb = self.divs(na), self.divs(nb)
                a, b = na, nb
                if na.eq(nb):
                    return self._record(name, "discharged", "normal form", time.time() - t0, "")
            lem = self.congruence([na, nb])
            st, be, det = self._solve(z3.Or(na == nb, a == b), timeout or OB_TIMEOUT, lem)
            if st != "discharged" and self.by_cases(na, nb, 0, 5):
                return self._record(name, "discharged", "z3+congruence by cases", time.time() - t0, "")
            return self._record(name, st, be + ("+sum congruence" if lem else ""), time.time() - t0, det)
        st, be, det = self._solve(a == b, timeout or OB_TIMEOUT)
        return self._record(name, st, be, time.time() - t0, det)

    def divs(self, t, depth=0):
        """rewrite quotients, remainders and sums whose value the context determines"""
        C = self.C
        for _ in range(6):
            found, sums, seen = [], [], set()

            def go(x):
                if x.get_id() in seen or z3.is_quantifier(x):
                    return
                seen.add(x.get_id())
                for c in x.children():
                    go(c)
                if not z3.is_app(x):
                    return
                if x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not any(has_idiv(c) for c in x.children()):
                    found.append(x)
                elif x.decl().name() in ("SUM", "SUMI") and x.num_args() == 2 and z3.is_quantifier(x.arg(1)):
                    sums.append(x)

            go(t)
            sub = []
            for x in found:
                if x.get_id() in self._div_failed or not is_pos(x.arg(1)):
                    continue
                d, r = A.split_div(norm(x.arg(0)), norm(x.arg(1)))
                y = d if x.decl().kind() == z3.Z3_OP_IDIV else r
                if has_idiv(y):
                    self._div_failed[x.get_id()] = x
                    continue
                sub.append((x, y))
            if not sub and depth < 2:
                for x in sums:
                    if x.get_id() in self._div_failed:
                        continue
                    self._div_failed[x.get_id()] = x
                    k = z3.FreshConst(Int, "sd")
                    b0 = z3.substitute_vars(x.arg(1).body(), k)
                    save = list(C.pc)
                    C.pc.extend([0 <= k, k < x.arg(0)])
                    try:
                        b1 = self.divs(norm(b0), depth + 1)
                        zero = z3.RealVal(0) if b1.sort() == Real else z3.IntVal(0)
                        if C.valid(b1 == zero, 3000):
                            sub.append((x, zero))
                            continue
                    finally:
                        C.pc[:] = save
                    if not b1.eq(b0):
                        y = x.decl()(x.arg(0), z3.Lambda([k], b1))
                        self._div_failed[y.get_id()] = y
                        sub.append((x, y))
            if not sub:
                return t
            t = norm(z3.substitute(t, *sub))
        return t

    def resolve(self, t):
        """t with every If whose condition the context decides replaced by its branch"""
        C = self.C
        for _ in range(12):
            cs, seen, sub = [], set(), []

            def go(x):
                if x.get_id() in seen or not z3.is_app(x):
                    return
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_ITE and not any(x.arg(0).eq(y) for y in cs):
                    cs.append(x.arg(0))
                for c in x.children():
                    go(c)

            go(t)
            for c in cs:
                if C.valid(c, 3000):
                    sub.append((c, z3.BoolVal(True)))
                elif C.valid(z3.Not(c), 3000):
                    sub.append((c, z3.BoolVal(False)))
            if not sub:
                return t
            t = norm(z3.simplify(z3.substitute(t, *sub)))
        return t

    def congruence(self, ts, depth=0):
        return self.key_lemmas(ts, depth) + self.sum_lemmas(ts, depth)

    def same_val(self, x, y, depth):
        """x == y in the context, with congruence of the sums and sequence names in them"""
        C = self.C
        x, y = norm(x), norm(y)
        if x.eq(y):
            return True
        if depth > 3:
            return C.valid(x == y, 3000)
        if self._valid_with(self.congruence([x, y], depth + 1), x == y):
            return True
        return self.by_cases(x, y, depth, 5)

    def _valid_with(self, lem, f):
        C = self.C
        save = list(C.pc)
        C.pc.extend(lem)
        try:
            return C.valid(f, 4000)
        finally:
            C.pc[:] = save

    def by_cases(self, x, y, depth, splits, conds=()):
        """x == y by splitting on the conditions in them"""
        C = self.C
        if splits == 0 or not (has_key(x) or has_key(y) or has_sum(x) or has_sum(y)):
            return False
        atoms = cond_atoms([x, y])
        atoms.sort(key=lambda c: has_sum(c) or has_key(c))
        c = next((c for c in atoms if not C.valid(c, 1500) and not C.valid(z3.Not(c), 1500)), None)
        if c is None:
            return False
        for f in (c, z3.Not(c)):
            save = list(C.pc)
            C.pc.append(f)
            try:
                if not C.feasible(z3.BoolVal(True)):
                    continue
                u, w = self.resolve(x), self.resolve(y)
                if not (u.eq(w) or self._valid_with(self.congruence([u, w, *conds, f], depth + 1), u == w) or self.by_cases(u, w, depth, splits - 1, (*conds, f))):
                    return False
            finally:
                C.pc[:] = save
        return True

    def key_lemmas(self, ts, depth=0):
        """two names of sequences of the same length that agree pointwise on it (proved) are equal"""
        C = self.C
        keys, seen = [], set()

        def coll(t):
            if t.get_id() in seen or z3.is_quantifier(t):
                return
            seen.add(t.get_id())
            if t.sort() == KeySort:
                keys.append(t)
                return
            for c in t.children():
                coll(c)

        for t in ts:
            coll(t)
        out = []
        if len(keys) > 24:
            return out
        for i in range(len(keys)):
            for j in range(i + 1, len(keys)):
                a, b = keys[i], keys[j]
                tag = (a.get_id(), b.get_id(), tuple(f.get_id() for f in C.pc))
                if tag in self._keyeq:
                    r = self._keyeq[tag][0]
                else:
                    r = self._key_same(a, b, depth)
                    self._keyeq[tag] = (r, a, b, list(C.pc))
                if r:
                    out.append(a == b)
        return out

    def _key_same(self, a, b, depth):
        C = self.C
        p, q = key_parts(a), key_parts(b)
        if p is None or q is None or p[1].sort() != q[1].sort():
            return False
        if not (norm(p[2]).eq(norm(q[2])) or C.valid(p[2] == q[2], 2000)):
            return False
        y = z3.substitute(q[1], (q[0], p[0]))
        save = list(C.pc)
        C.pc.extend([0 <= p[0], p[0] < p[2]])
        try:
            return self.same_val(p[1], y, depth + 1) if p[1].sort() in (Int, Real) else C.valid(p[1] == y, 3000)
        finally:
            C.pc[:] = save

    def sum_lemmas(self, ts, depth=0):
        """SUM(n,f)=SUM(m,g) when n=m and f=g pointwise on the range (proved)"""
        C = self.C
        sums = []
        seen = set()

        def coll(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                return
            if t.decl().name() in ("SUM", "SUMI") and t.num_args() == 2:
                sums.append(t)
            for c in t.children():
                coll(c)

        for t in ts:
            coll(t)
        out = []
        for i in range(len(sums)):
            for j in range(i + 1, len(sums)):
                a, b = sums[i], sums[j]
                if a.decl().name() != b.decl().name() or a.eq(b):
                    continue
                if not (z3.is_quantifier(a.arg(1)) and z3.is_quantifier(b.arg(1))):
                    continue
                if not same(a.arg(0), b.arg(0)):
                    continue
                t = z3.FreshConst(Int, "pt")
                x = z3.substitute_vars(a.arg(1).body(), t)
                y = z3.substitute_vars(b.arg(1).body(), t)
                save = list(C.pc)
                C.pc.extend([0 <= t, t < a.arg(0)])
                ok = False
                try:
                    ok = self.same_val(x, y, depth + 1)
                finally:
                    C.pc[:] = save
                if ok:
                    out.append(a == b)
        return out

    def _solve(self, goal, timeout, lemmas=()):
        C = self.C
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "discharged", "simplifier", ""
        t0 = time.time()
        extra = [z3.Not(goal)] + list(lemmas)
        s = C.solver(extra, timeout)
        r = str(s.check())
        if r == "unknown":
            s2 = C.solver(extra, timeout, opaque)
            if s2 is not None and str(s2.check()) == "unsat":
                r = "unsat"
        C.stats["queries"] += 1
        C.stats["solver_s"] += time.time() - t0
        if r == "unsat":
            return "discharged", "z3", ""
        det = ""
        if r == "sat":
            try:
                det = model_str(s.model())
            except Exception:
                det = "sat"
            return "refuted", "z3", "counterexample: " + det + " ; goal: " + str(g)[:1200]
        r2 = cvc5_check(s, timeout)
        if r2 == "unsat":
            return "discharged", "cvc5", ""
        return "undecided", "z3+cvc5", f"{s.reason_unknown()} ; goal: {str(g)[:1200]}"

    # -- quantified reasoning helpers
    def fresh_int(self, base, lo, hi):
        x = z3.Const(self.C.name("q_" + base), Int)
        self.C.pc += [lo <= x, x < hi]
        return x

    def case(self, f):
        """continue under assumption f on this path (if feasible)"""
        self.C.pc.append(term(f))

    def result(self):
        sf = self.C.safety
        s = self.safety = {"n": len(sf), "ok": sum(1 for x in sf if x[0]), "bad": [x[1] for x in sf if not x[0]][:5]}
        if s["n"]:
            if s["ok"] == s["n"]:
                self._record(f"index safety ({s['n']} accesses)", "discharged", "z3", 0, "")
            else:
                self.assume_text(f"{s['n']-s['ok']} of {s['n']} symbolic index accesses not shown in range, e.g. {s['bad'][:1]}")
        return {
            "obligations": self.obs, "functions": self.functions, "assumptions": self.assumptions,
            "stats": self.C.stats, "paths": self.paths, "safety": s,
        }


def _has(t, p, cache):
    k = t.get_id()
    if k in cache:
        return cache[k][0]
    r = p(t) or any(_has(c, p, cache) for c in ([t.body()] if z3.is_quantifier(t) else t.children()))
    cache[k] = (r, t)
    return r


_hd, _hv, _hk = {}, {}, {}


def has_idiv(t):
    return _has(t, lambda x: z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD), _hd)


def has_var(t):
    return _has(t, z3.is_var, _hv)


def has_key(t):
    return _has(t, lambda x: z3.is_app(x) and x.sort() == KeySort, _hk)


def cond_atoms(ts):
    """atomic If conditions of the terms outside quantifiers"""
    out, seen = [], set()

    def atom(c):
        if c.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            for k in c.children():
                atom(k)
        elif not has_var(c) and not any(c.eq(o) for o in out) and not z3.is_true(c) and not z3.is_false(c):
            out.append(c)

    def go(x):
        if x.get_id() in seen or not z3.is_app(x):
            return
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and not z3.is_quantifier(x.arg(0)) and z3.is_app(x.arg(0)):
            atom(x.arg(0))
        for c in x.children():
            go(c)

    for t in ts:
        go(t)
    return out


def model_str(m):
    out = []
    for d in m.decls():
        if d.arity() == 0 and not d.name().startswith(("q!", "k!")):
            out.append(f"{d.name()}={m[d]}")
    return ", ".join(sorted(out))[:700]


def cvc5_check(s, timeout):
    try:
        txt = s.to_smt2()
    except Exception:
        return "unknown"
    if "lambda" in txt or len(txt) > 400000:
        return "unknown"
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={timeout}", "--nl-ext-tplanes"], input="(set-logic ALL)\n" + txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return p.stdout.strip().splitlines()[-1] if p.stdout.strip() else "unknown"
    except Exception:
        return "unknown"
