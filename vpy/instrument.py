"""Mechanical extraction of the verified text: the real source file is parsed, every call,
membership test, loop and comprehension is routed through the engine, nothing else changes.
Dropped: type annotations (they are not executable behaviour)."""
import ast


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.stores, self.loads, self.aug = [], [], set()

    def visit_Name(self, n):
        pos = (n.lineno, n.col_offset)
        if isinstance(n.ctx, ast.Store):
            self.stores.append((n.id, pos))
        else:
            self.loads.append((n.id, pos))

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.aug.add(n.target.id)
        self.generic_visit(n)


def _names(nodes):
    v = _Names()
    for n in nodes:
        v.visit(n)
    return v


def _expr_reads(n, x):
    """may evaluating n read the variable x?"""
    if n is None:
        return False
    if isinstance(n, ast.Name):
        return n.id == x and isinstance(n.ctx, ast.Load)
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        bound = {m.id for g in n.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
        if x in bound:
            return _expr_reads(n.generators[0].iter, x)
    if isinstance(n, ast.Lambda):
        if x in {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}:
            return any(_expr_reads(d, x) for d in n.args.defaults + n.args.kw_defaults)
    return any(_expr_reads(c, x) for c in ast.iter_child_nodes(n))


def _target_writes(t, x):
    """does assigning to t write x? (subscripts and attributes read)"""
    if isinstance(t, ast.Name):
        return t.id == x
    if isinstance(t, (ast.Tuple, ast.List)):
        return any(_target_writes(e, x) for e in t.elts)
    if isinstance(t, ast.Starred):
        return _target_writes(t.value, x)
    return False


def _target_reads(t, x):
    if isinstance(t, (ast.Subscript, ast.Attribute)):
        return _expr_reads(t, x)
    if isinstance(t, (ast.Tuple, ast.List)):
        return any(_target_reads(e, x) for e in t.elts)
    return False


def reads_first(stmts, x):
    """'read' if some execution of the statements may read x before writing it, 'written' if every
    execution that falls through has written it, else 'none'"""
    for s in stmts:
        r = _reads_first(s, x)
        if r != "none":
            return r
    return "none"


def _reads_first(s, x):
    if isinstance(s, ast.Assign):
        if _expr_reads(s.value, x) or any(_target_reads(t, x) for t in s.targets):
            return "read"
        return "written" if any(_target_writes(t, x) for t in s.targets) else "none"
    if isinstance(s, ast.AnnAssign):
        if _expr_reads(s.value, x) or _target_reads(s.target, x):
            return "read"
        return "written" if s.value is not None and _target_writes(s.target, x) else "none"
    if isinstance(s, ast.AugAssign):
        return "read" if _expr_reads(s.value, x) or _target_writes(s.target, x) or _target_reads(s.target, x) else "none"
    if isinstance(s, ast.If):
        if _expr_reads(s.test, x):
            return "read"
        a, b = reads_first(s.body, x), reads_first(s.orelse, x)
        if "read" in (a, b):
            return "read"
        ends = lambda b_: bool(b_) and isinstance(b_[-1], (ast.Return, ast.Raise))
        if (a == "written" or ends(s.body)) and (b == "written" or ends(s.orelse)):
            return "written"
        return "none"
    if isinstance(s, ast.For):
        if _expr_reads(s.iter, x) or _target_reads(s.target, x):
            return "read"
        if not _target_writes(s.target, x) and reads_first(s.body, x) == "read":
            return "read"
        return "read" if reads_first(s.orelse, x) == "read" else "none"
    if isinstance(s, ast.While):
        if _expr_reads(s.test, x) or reads_first(s.body, x) == "read" or reads_first(s.orelse, x) == "read":
            return "read"
        return "none"
    if isinstance(s, ast.Try):
        for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
            if reads_first(b, x) == "read":
                return "read"
        return "none"
    if isinstance(s, ast.With):
        if any(_expr_reads(i.context_expr, x) for i in s.items):
            return "read"
        if any(i.optional_vars is not None and _target_writes(i.optional_vars, x) for i in s.items):
            return "written"
        return reads_first(s.body, x)
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        if s.name == x:
            return "written"
        return "read" if any(isinstance(m, ast.Name) and m.id == x for m in ast.walk(s)) else "none"
    if isinstance(s, (ast.Expr, ast.Return, ast.Raise, ast.Assert, ast.Delete)):
        return "read" if _expr_reads(s, x) else "none"
    if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Break, ast.Continue)):
        return "none"
    return "read" if any(isinstance(m, ast.Name) and m.id == x for m in ast.walk(s)) else "none"


def live_after(stmts, conts):
    """annotate every For in the statements with what follows it: conts is the list of continuations,
    innermost first, each a list of statements"""
    for i, s in enumerate(stmts):
        rest = [stmts[i + 1:]] + conts
        if isinstance(s, (ast.For, ast.While)):
            s._after = rest
            live_after(s.body, [s.body] + rest)
            live_after(s.orelse, rest)
        elif isinstance(s, ast.If):
            live_after(s.body, rest)
            live_after(s.orelse, rest)
        elif isinstance(s, ast.With):
            live_after(s.body, rest)
        elif isinstance(s, ast.Try):
            for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                # conservatively: a handler may follow anything
                live_after(b, [y for h in s.handlers for y in [h.body]] + [s.finalbody] + rest)


def escapes_loop(n, x):
    for b in n._after:
        r = reads_first(b, x)
        if r == "read":
            return True
        if r == "written":
            return False
    return False


def _in_comp(loop, name):
    for c in loop.body:
        for m in ast.walk(c):
            if isinstance(m, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in m.generators:
                    if any(q is name for q in ast.walk(g.target)):
                        return True
    return False


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.loops = 0
        self.loopstack = []
        self.loopinfo = {}

    def E(self, attr):
        return ast.Attribute(value=ast.Name(id="__eng", ctx=ast.Load()), attr=attr, ctx=ast.Load())

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n._loads = list(_names(n.body).loads)
        if not hasattr(n, "_lv"):
            live_after(n.body, [])
        self.fn.append(n)
        save, self.loopstack = self.loopstack, []
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d else d for d in n.args.kw_defaults]
        n.body = self._body(n.body)
        self.loopstack = save
        self.fn.pop()
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "locals", "globals", "vars"):
            return n
        return ast.copy_location(ast.Call(func=self.E("call"), args=[n.func] + n.args, keywords=n.keywords), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=self.E("contains"), args=[n.left, n.comparators[0]], keywords=[])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.Call(func=self.E("not_"), args=[c], keywords=[])
            return ast.copy_location(c, n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = ast.Call(func=self.E("is_"), args=[n.left, n.comparators[0]], keywords=[])
            if isinstance(n.ops[0], ast.IsNot):
                c = ast.Call(func=self.E("not_"), args=[c], keywords=[])
            return ast.copy_location(c, n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=self.E("mklist"), args=[n], keywords=[]), n)
        return n

    def visit_For(self, n):
        if n.orelse:
            self.generic_visit(n)
            return n
        self.loops += 1
        lid = f"{self.mod}:{n.lineno}"
        tgt = {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}
        stored = set()
        for b in n.body:
            for m in ast.walk(b):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                    stored.add(m.id)
        for b in n.body:
            for m in ast.walk(b):
                if isinstance(m, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    own = {q.id for g in m.generators for q in ast.walk(g.target) if isinstance(q, ast.Name)}
                    # a comprehension variable is local to it
                    for y in own:
                        if not any(isinstance(q, ast.Name) and q.id == y and isinstance(q.ctx, ast.Store) and not _in_comp(n, q)
                                   for c in n.body for q in ast.walk(c)):
                            stored.discard(y)
        carried = {x for x in stored - tgt if reads_first(n.body, x) == "read"}
        escapes = {x for x in stored | tgt if escapes_loop(n, x)} if hasattr(n, "_after") else stored | tgt
        self.loopstack.append(lid)
        it = self.visit(n.iter)
        has_ret = any(isinstance(s, ast.Return) for b in n.body for s in ast.walk(b))
        has_brk = any(isinstance(s, ast.Break) for b in n.body for s in ast.walk(b))
        body = self._body(n.body)
        self.loopstack.pop()
        new = ast.For(
            target=n.target,
            iter=ast.Call(func=self.E("loop"), args=[it, ast.Constant(lid), ast.Constant(tuple(sorted(carried | escapes))),
                                                     ast.Constant(has_brk)], keywords=[]),
            body=body, orelse=[], type_comment=None)
        ast.copy_location(new, n)
        out = [new]
        if has_ret:
            chk = ast.If(
                test=ast.Call(func=self.E("has_return"), args=[ast.Constant(lid)], keywords=[]),
                body=[ast.Return(value=ast.Call(func=self.E("take_return"), args=[ast.Constant(lid)], keywords=[]))],
                orelse=[])
            if self.loopstack:
                # nested: hand the value to the enclosing loop
                outer = self.loopstack[-1]
                chk.body = [ast.Expr(ast.Call(func=self.E("set_return"), args=[
                    ast.Constant(outer), ast.Call(func=self.E("take_return"), args=[ast.Constant(lid)], keywords=[])],
                    keywords=[])), ast.Continue()]
            out.append(ast.copy_location(chk, n))
        return out

    def visit_Return(self, n):
        self.generic_visit(n)
        if self.loopstack:
            v = n.value or ast.Constant(None)
            return [ast.copy_location(ast.Expr(ast.Call(func=self.E("set_return"), args=[
                ast.Constant(self.loopstack[-1]), v], keywords=[])), n), ast.copy_location(ast.Continue(), n)]
        return n

    # comprehensions with one generator
    def _lambda(self, target, expr):
        """python lambda taking one element"""
        if isinstance(target, ast.Name):
            return ast.Lambda(args=_args([target.id]), body=expr)
        # destructure: (lambda a, b: expr)(*unpack(x))
        names = []
        inner = expr
        subs = []
        for i, t in enumerate(target.elts):
            if isinstance(t, ast.Name):
                names.append(t.id)
            else:
                nm = f"__d{len(subs)}_{target.col_offset}"
                names.append(nm)
                subs.append((nm, t))
        for nm, t in reversed(subs):
            inner = ast.Call(func=self._lambda(t, inner), args=[ast.Name(id=nm, ctx=ast.Load())], keywords=[])
        f = ast.Lambda(args=_args(names), body=inner)
        x = f"__x_{target.lineno}_{target.col_offset}"
        return ast.Lambda(args=_args([x]), body=ast.Call(func=f, args=[ast.Starred(
            value=ast.Call(func=self.E("unpack"), args=[ast.Name(id=x, ctx=ast.Load()), ast.Constant(len(target.elts))],
                           keywords=[]), ctx=ast.Load())], keywords=[]))

    def _comp(self, n, kind, elts):
        if len(n.generators) != 1 or n.generators[0].is_async:
            self.generic_visit(n)
            return n
        g = n.generators[0]
        it = self.visit(g.iter)
        elts = [self.visit(e) for e in elts]
        expr = elts[0] if len(elts) == 1 else ast.Tuple(elts=elts, ctx=ast.Load())
        cond = None
        if g.ifs:
            cs = [self.visit(c) for c in g.ifs]
            cond = cs[0] if len(cs) == 1 else ast.BoolOp(op=ast.And(), values=cs)
        f = self._lambda(g.target, expr)
        c = self._lambda(g.target, cond) if cond is not None else ast.Constant(None)
        r = ast.Call(func=self.E("comp"), args=[ast.Constant(kind), f, it, c], keywords=[])
        return ast.copy_location(r, n)

    def visit_ListComp(self, n):
        return self._comp(n, "list", [n.elt])

    def visit_SetComp(self, n):
        return self._comp(n, "set", [n.elt])

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen", [n.elt])

    def visit_DictComp(self, n):
        return self._comp(n, "dict", [n.key, n.value])


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def instrument(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Instr(modname).visit(tree)
    # module level Return never occurs; flatten list results of visit at module level is done by NodeTransformer
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
