"""Mechanical source transformation of the real SALib functions.

The text that is executed symbolically is the AST of the file in /repo, read on
every run, with exactly these rewrites (nothing else is dropped or changed):
  * docstrings, annotations and decorators-free defs are kept; annotations are dropped
  * `for T in IT: BODY`      -> `__for__(IT, body_fn, get, set, names)`
  * comprehensions           -> an equivalent loop appending to a fresh list/set/dict
  * list/dict/set displays   -> heap-managed list/dict/set objects
  * `not x`                  -> `__not__(x)`;  `a in b` -> `__in__(a, b)`
  * `if` statements that only build a message and emit a warning / print / log are
    dropped (their conditions are assumed not to raise)
  * bare `except:`           -> `except Exception:`
"""
import ast

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def assigned_names(stmts):
    """Names bound by the statements, not descending into nested functions."""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)

        def visit_FunctionDef(self, n):
            add(n.name)

        def visit_ClassDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            # python3 comprehension variables are local to the comprehension
            self.visit(n.generators[0].iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                add(n.name)
            self.generic_visit(n)

    v = V()
    for s in stmts:
        v.visit(s)
    return out


class _BodyFlow(ast.NodeTransformer):
    """Rewrite break/continue/return of a loop body turned into a function."""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_For(self, n):
        # inner loops were transformed before; native `for` no longer occurs
        return n

    def visit_While(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        n.body = _flat(n.body)
        self.depth -= 1
        n.orelse = _flat([self.visit(s) for s in n.orelse])
        return n

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Name("__BREAK__", ast.Load())), n)

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Return(self, n):
        if getattr(n, "_inner", False):
            return n
        v = n.value or ast.Constant(None)
        r = ast.Return(ast.Call(ast.Name("__Ret__", ast.Load()), [v], []))
        r._inner = True
        return ast.copy_location(r, n)


def _flat(l):
    out = []
    for x in l:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


def _is_msg(v):
    return isinstance(v, ast.JoinedStr) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "__fstr__" or isinstance(v, ast.Constant) and isinstance(v.value, str) or (
        isinstance(v, ast.BinOp) and _is_msg(v.left) and _is_msg(v.right)) or (
        isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "format" and _is_msg(v.func.value))


def _is_warn(f):
    if isinstance(f, ast.Name):
        return f.id in ("print", "warn")
    return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (f.value.id in ("warnings", "logger", "logging", "log"))


class T(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.infunc = 0
        self.pre = [[]]  # hoisted statements of the current statement
        self.locals = [None]
        self.func = None

    def fresh(self, p):
        self.k += 1
        return f"__{p}{self.k}"

    # -- statement lists -----------------------------------------------------
    def stmts(self, body):
        out = []
        for s in body:
            self.pre.append([])
            r = self.visit(s)
            pre = self.pre.pop()
            out.extend(pre)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Module(self, n):
        n.body = self.stmts(n.body)
        return n

    def visit_ClassDef(self, n):
        n.body = self.stmts(n.body)
        n.bases = [self.visit(b) for b in n.bases]
        return n

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                x.annotation = None
        n.returns = None
        self.infunc += 1
        outer = self.func
        if self.func is None:
            self.func = n
        g = [x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names]
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        params += [x.arg for x in (a.vararg, a.kwarg) if x is not None]
        loc = [x for x in assigned_names(n.body) if x not in g]
        self.locals.append(g)
        body = n.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = [body[0]], body[1:]
        body = self.stmts(body)
        self.locals.pop()
        self.infunc -= 1
        self.func = outer
        extra = [x for x in loc if x not in params]
        if extra:
            doc.append(
                ast.If(
                    ast.Constant(False),
                    [ast.Assign([ast.Name(x, ast.Store()) for x in extra], ast.Constant(None))],
                    [],
                )
            )
        # global/nonlocal declarations must come first
        decl = [s for s in body if isinstance(s, (ast.Global, ast.Nonlocal))]
        body = [s for s in body if not isinstance(s, (ast.Global, ast.Nonlocal))]
        n.body = decl + doc + body or [ast.Pass()]
        if not n.body:
            n.body = [ast.Pass()]
        return n

    def warn_only(self, n):
        """body only assigns message strings and warns; the strings are not used elsewhere"""
        if n.orelse or self.func is None:
            return False
        names = set()
        found = False
        for st in n.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and _is_msg(st.value):
                names.add(st.targets[0].id)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and _is_msg(st.value):
                names.add(st.target.id)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and _is_warn(st.value.func):
                found = True
            elif isinstance(st, ast.If) and self.warn_only(st):
                found = True
            else:
                return False
        if not found:
            return False
        inside = {id(x) for x in ast.walk(n)}
        for x in ast.walk(self.func):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and id(x) not in inside:
                # a use elsewhere must follow its own (re)definition: accept only if
                # every other definition is in straight-line code too
                if not self._redefined(x, names, inside):
                    return False
        # conditions with calls that change state are kept
        return not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test))

    def _redefined(self, use, names, inside):
        for x in ast.walk(self.func):
            body = getattr(x, "body", None)
            if not isinstance(body, list):
                continue
            for blk in (body, getattr(x, "orelse", []) or []):
                for k, st in enumerate(blk):
                    if any(y is use for y in ast.walk(st)) and not isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.FunctionDef)):
                        return any(isinstance(p, ast.Assign) and any(isinstance(t, ast.Name) and t.id == use.id for t in p.targets) for p in blk[:k])
        return False

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    def visit_If(self, n):
        if self.warn_only(n):
            return ast.copy_location(ast.Pass(), n)
        n.test = self.visit(n.test)
        n.body = self.stmts(n.body) or [ast.Pass()]
        n.orelse = self.stmts(n.orelse)
        return n

    def visit_While(self, n):
        self.pre.append([])
        n.test = self.visit(n.test)
        pre = self.pre.pop()
        n.body = self.stmts(n.body) or [ast.Pass()]
        n.orelse = self.stmts(n.orelse)
        if self.infunc:
            n.body = [ast.Expr(ast.Call(ast.Name("__tick__", ast.Load()), [], []))] + n.body
        return pre + [n]

    def visit_With(self, n):
        for it in n.items:
            it.context_expr = self.visit(it.context_expr)
        n.body = self.stmts(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.stmts(n.body)
        for h in n.handlers:
            if h.type is None:
                h.type = ast.Name("Exception", ast.Load())
            else:
                h.type = self.visit(h.type)
            h.body = self.stmts(h.body)
        n.orelse = self.stmts(n.orelse)
        n.finalbody = self.stmts(n.finalbody)
        return n

    def visit_For(self, n):
        if not self.infunc:
            n.iter = self.visit(n.iter)
            n.body = self.stmts(n.body)
            n.orelse = self.stmts(n.orelse)
            return n
        it = self.visit(n.iter)
        g = self.locals[-1] or []
        names = [x for x in assigned_names([n]) if x not in g]
        # order: target names first
        body = self.stmts(n.body)
        body = _flat([_BodyFlow().visit(s) for s in body]) or [ast.Pass()]
        b, ge, se, r, item = (self.fresh(x) for x in ("body", "get", "set", "res", "item"))
        tgt = ast.Assign([n.target], ast.Name(item, ast.Load()))
        nl = [ast.Nonlocal(names)] if names else []
        glob = [ast.Global([x for x in assigned_names([n]) if x in g])] if any(x in g for x in assigned_names([n])) else []
        fb = ast.FunctionDef(b, _args([item]), nl + glob + [tgt] + body, [])
        fg = ast.FunctionDef(
            ge, _args([]),
            [ast.Return(ast.Tuple([
                ast.Call(ast.Name("__try__", ast.Load()), [ast.Lambda(_args([]), ast.Name(x, ast.Load()))], [])
                for x in names], ast.Load()))], [])
        fs = ast.FunctionDef(
            se, _args(["__v"]),
            (nl + [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], ast.Name("__v", ast.Load()))]) if names else [ast.Pass()], [])
        call = ast.Assign([ast.Name(r, ast.Store())], ast.Call(
            ast.Name("__for__", ast.Load()),
            [it, ast.Name(b, ast.Load()), ast.Name(ge, ast.Load()), ast.Name(se, ast.Load()),
             ast.Constant(tuple(names)), ast.Constant(n.lineno)], []))
        ret = ast.Return(ast.Attribute(ast.Name(r, ast.Load()), "value", ast.Load()))
        chk = ast.If(ast.Call(ast.Name("__isret__", ast.Load()), [ast.Name(r, ast.Load())], []), [ret], [])
        out = [fb, fg, fs, call, chk]
        if n.orelse:
            orelse = self.stmts(n.orelse)
            out.append(ast.If(ast.Compare(ast.Name(r, ast.Load()), [ast.Is()], [ast.Constant(None)]), orelse, []))
        for s in out:
            ast.copy_location(s, n)
        return out

    # -- expressions ---------------------------------------------------------
    def _comp(self, n, kind):
        if not self.infunc:
            raise NotImplementedError("module-level comprehension")
        f = self.fresh("comp")
        acc = "__acc"
        self.locals.append([])
        if kind == "dict":
            inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "__setitem__", ast.Load()), [n.key, n.value], []))
            init = ast.Dict([], [])
        else:
            meth = "add" if kind == "set" else "append"
            inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), meth, ast.Load()), [n.elt], []))
            init = ast.Call(ast.Name("set", ast.Load()), [], []) if kind == "set" else ast.List([], ast.Load())
        body = [inner]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            loop = ast.For(g.target, g.iter, body, [])
            body = [loop]
        # comprehension variables are local to the new function
        fd = ast.FunctionDef(f, _args([]), [ast.Assign([ast.Name(acc, ast.Store())], init)] + body
                             + [ast.Return(ast.Name(acc, ast.Load()))], [])
        ast.copy_location(fd, n)
        ast.fix_missing_locations(fd)
        self.pre.append([])
        fd = self.visit_FunctionDef(fd)
        self.pre.pop()
        self.locals.pop()
        self.pre[-1].append(fd)
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [], []), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list") if self.infunc else n

    def visit_GeneratorExp(self, n):
        return self._comp(n, "list") if self.infunc else n

    def visit_SetComp(self, n):
        return self._comp(n, "set") if self.infunc else n

    def visit_DictComp(self, n):
        return self._comp(n, "dict") if self.infunc else n

    def visit_Lambda(self, n):
        # hoist nothing out of a lambda: turn it into a def when it needs one
        if any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for x in ast.walk(n.body)) and self.infunc:
            f = self.fresh("lam")
            fd = ast.FunctionDef(f, n.args, [ast.Return(n.body)], [])
            ast.copy_location(fd, n)
            ast.fix_missing_locations(fd)
            self.pre.append([])
            fd = self.visit_FunctionDef(fd)
            self.pre.pop()
            self.pre[-1].append(fd)
            return ast.copy_location(ast.Name(f, ast.Load()), n)
        n.body = self.visit(n.body)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if not self.infunc:
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), v.format_spec or ast.Constant("")], ast.Load()))
            elif isinstance(v, ast.Call):  # transformed nested piece
                parts.append(v)
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(ast.Name("__fstr__", ast.Load()), parts, []), n)

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc and any(isinstance(e, ast.Starred) for e in n.elts):
            parts = [ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load()) for e in n.elts]
            return ast.copy_location(ast.Call(ast.Name("__listcat__", ast.Load()), parts, []), n)
        if isinstance(n.ctx, ast.Load) and self.infunc:
            return ast.copy_location(ast.Call(ast.Name("__list__", ast.Load()), [n], []), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not self.infunc:
            return n
        return ast.copy_location(ast.Call(ast.Name("__dictof__", ast.Load()), [n], []), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(
            ast.Call(ast.Name("set", ast.Load()), [ast.Tuple(n.elts, ast.Load())], []), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(ast.Call(ast.Name("__not__", ast.Load()), [n.operand], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("__in__", ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.Call(ast.Name("__not__", ast.Load()), [c], [])
            return ast.copy_location(c, n)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n


def _args(names):
    return ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return tree
