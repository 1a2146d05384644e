"""Discharges obligations: normal form, case split on conditionals, congruence /
extensionality, denominators cleared, then z3 (linear abstraction, then nonlinear)."""
import time
from fractions import Fraction as Fr
import z3
from .terms import *
from . import terms as T
from . import interval as IV
from . import canon

STATS = {"z3_calls": 0, "z3_s": 0.0, "cvc5_calls": 0, "cvc5_s": 0.0, "by": {}, "unsat": 0, "sat": 0, "unknown": 0}
CVC5 = [False]  # cross-check every decisive unsat answer with cvc5 (thorough tier)
CVC5_DISAGREE = []


class Ctx:
    """facts known on the current path"""

    def __init__(self):
        self.facts = []  # Bool
        self.qfacts = []  # (trigger-name or None, arity, fn)
        self.elem = {}  # app-name -> fn(args)->Bool : invariant of every element of an array
        self.lemmas = []

    def copy(self):
        c = Ctx()
        c.facts = list(self.facts)
        c.qfacts = list(self.qfacts)
        c.elem = self.elem
        c.lemmas = self.lemmas
        return c

    def plus(self, *b):
        c = self.copy()
        for x in b:
            c.add(x)
        return c

    def add(self, b):
        if b.op == "and":
            for x in b.args:
                self.add(x)
        elif b is not TRUE:
            self.facts.append(b)


# ---------------------------------------------------------------- z3 encoding
class Enc:
    def __init__(self, linear):
        self.linear = linear
        self.cache = {}
        self.ax = []
        self.axdone = set()
        self.bools = {}

    def num(self, f):
        return z3.RealVal(str(f))

    def poly(self, p, want="R"):
        isint = p.is_int
        if want == "I" and isint:
            return self._poly(p, True)
        r = self._poly(p, False)
        return r

    def _poly(self, p, asint):
        k = ("p", p.id, asint)
        r = self.cache.get(k)
        if r is not None:
            return r
        ts = []
        for m, c in p.terms:
            if m == ():
                ts.append(z3.IntVal(int(c)) if asint else self.num(c))
                continue
            mm = self.mono(m, asint)
            if c != 1:
                mm = (z3.IntVal(int(c)) if asint else self.num(c)) * mm
            ts.append(mm)
        r = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else (z3.IntVal(0) if asint else self.num(0)))
        self.cache[k] = r
        return r

    def mono(self, m, asint):
        if self.linear and (len(m) > 1 or abs(m[0][1]) != 1 or m[0][1] < 0):
            allint = all(e > 0 and T._atoms[a].sort == "I" for a, e in m)
            name = "mono_" + "_".join(f"{a}^{e}" for a, e in m)
            if allint:
                v = z3.Int(name)
                return v if asint else z3.ToReal(v)
            if ("mono", m) not in self.axdone:
                self.axdone.add(("mono", m))
                v = z3.Real(name)
                self._mono_sign(v, m)
            return z3.Real(name)
        fs = []
        for a, e in m:
            x = self.atom(T._atoms[a])
            if T._atoms[a].sort == "I" and not asint:
                x = z3.ToReal(x)
            if e < 0:
                iv = z3.Real(f"recip_{a}")
                if ("recip", a) not in self.axdone:
                    self.axdone.add(("recip", a))
                    self.ax.append(z3.Implies(x != 0, iv * x == 1))
                    self.ax.append(z3.Implies(x > 0, iv > 0))
                    self.ax.append(z3.Implies(x < 0, iv < 0))
                x = iv
                e = -e
            fs.extend([x] * e)
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r

    def _mono_sign(self, v, m):
        """sign of a product from the signs of its factors"""
        pos = []
        sq = True
        for a, e in m:
            if e % 2 == 0:
                continue
            sq = False
            x = self.atom(T._atoms[a])
            pos.append(x)
        if sq:
            self.ax.append(v >= 0)
        if len(pos) <= 3:
            zero = 0
            if len(pos) == 0:
                return
            if len(pos) == 1:
                self.ax.append(z3.Implies(pos[0] >= 0, v >= 0))
                self.ax.append(z3.Implies(pos[0] <= 0, v <= 0))
            elif len(pos) == 2:
                self.ax.append(z3.Implies(z3.Or(z3.And(pos[0] >= 0, pos[1] >= 0), z3.And(pos[0] <= 0, pos[1] <= 0)), v >= 0))
                self.ax.append(z3.Implies(z3.Or(z3.And(pos[0] >= 0, pos[1] <= 0), z3.And(pos[0] <= 0, pos[1] >= 0)), v <= 0))
            else:
                self.ax.append(z3.Implies(z3.And(*[x >= 0 for x in pos]), v >= 0))

    def atom(self, a):
        k = ("a", a.id)
        r = self.cache.get(k)
        if r is not None:
            return r
        S = z3.IntSort() if a.sort == "I" else z3.RealSort()
        if a.kind in ("var", "bound"):
            r = z3.Const(f"{a.name}", S) if a.kind == "var" else z3.Const(f"bound_{a.name}", S)
        elif a.kind == "ite":
            x, y = (self.poly(a.args[1], "I"), self.poly(a.args[2], "I")) if a.sort == "I" else (
                self.poly(a.args[1]), self.poly(a.args[2]))
            r = z3.If(self.bool(a.args[0]), x, y)
        elif a.kind == "inv":
            r = z3.Const(f"inv_{a.id}", S)
            if not self.linear:
                q = self.poly(a.args[0])
                self.ax.append(z3.Implies(q != 0, r * q == 1))
            q = self.poly(a.args[0])
            self.ax.append(z3.Implies(q > 0, r > 0))
            self.ax.append(z3.Implies(q < 0, r < 0))
        elif a.kind in ("app", "fn"):
            args, sorts, tag = [], [], []
            for x in a.args:
                if isinstance(x, Poly):
                    if x.is_int:
                        args.append(self.poly(x, "I"))
                        sorts.append(z3.IntSort())
                        tag.append("I")
                    else:
                        args.append(self.poly(x))
                        sorts.append(z3.RealSort())
                        tag.append("R")
                elif isinstance(x, (Lam, Bool)):
                    tag.append(f"#{x.id}")
                else:
                    tag.append(str(x))
            name = f"{a.name}|" + ",".join(tag)
            if a.kind == "fn":
                # interpreted functions take reals
                args = [z3.ToReal(y) if t == "I" else y for y, t in zip(args, tag)]
                sorts = [z3.RealSort()] * len(args)
                name = "fn_" + a.name
            if args:
                r = z3.Function(name, *sorts, S)(*args)
            else:
                r = z3.Const(name, S)
            if a.kind == "fn":
                self.fn_ax(a, r, args)
            elif a.name == "tab" and len(a.args[0]) <= 64 and sorts == [z3.IntSort()]:
                # a table of constants
                for j, c in enumerate(a.args[0]):
                    self.ax.append(z3.Implies(args[0] == j, r == self.num(c)))
        else:
            r = z3.Const(f"{a.kind}_{a.id}", S)
        self.cache[k] = r
        return r

    def fn_ax(self, a, r, args):
        x = args[0]
        n = a.name
        A = self.ax.append
        if n == "exp":
            A(r > 0)
            A(r >= 1 + x)
            A(z3.Implies(x < 0, r < 1))
        elif n == "log":
            A(z3.Implies(x > 0, r <= x - 1))
            A(z3.Implies(x > 1, r > 0))
            A(z3.Implies(z3.And(x > 0, x < 1), r < 0))
        elif n == "sqrt":
            A(z3.Implies(x >= 0, r >= 0))
            A(z3.Implies(x > 0, r > 0))
            if not self.linear:
                A(z3.Implies(x >= 0, r * r == x))
        elif n in ("sin", "cos"):
            A(z3.And(r >= -1, r <= 1))
        elif n == "arccos":
            pi = self.poly(PI)
            A(z3.And(pi > self.num(Fr(314159, 100000)), pi < self.num(Fr(314160, 100000))))
            A(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= 0, r <= pi)))
        elif n == "floor":
            rr = z3.ToReal(r)
            A(rr <= x)
            A(x < rr + 1)

    def bool(self, b):
        k = ("b", b.id)
        r = self.cache.get(k)
        if r is not None:
            return r
        if b is TRUE:
            r = z3.BoolVal(True)
        elif b is FALSE:
            r = z3.BoolVal(False)
        elif b.op in ("ge", "gt", "eq"):
            p = b.args[0]
            x = self.poly(p, "I") if p.is_int else self.poly(p)
            r = x >= 0 if b.op == "ge" else x > 0 if b.op == "gt" else x == 0
        elif b.op == "not":
            r = z3.Not(self.bool(b.args[0]))
        elif b.op == "and":
            r = z3.And(*[self.bool(x) for x in b.args])
        elif b.op == "or":
            r = z3.Or(*[self.bool(x) for x in b.args])
        elif b.op == "bvar":
            r = z3.Bool(f"b_{b.args[0]}")
        elif b.op == "bapp":
            args = [self.poly(x, "I") if isinstance(x, Poly) and x.is_int else self.poly(x) for x in b.args[1]
                    if isinstance(x, Poly)]
            tag = ",".join("I" if isinstance(x, Poly) and x.is_int else "R" if isinstance(x, Poly) else
                           (f"#{x.id}" if isinstance(x, (Lam, Bool)) else str(x)) for x in b.args[1])
            if args:
                r = z3.Function(f"B{b.args[0]}|{tag}", *[y.sort() for y in args], z3.BoolSort())(*args)
            else:
                r = z3.Bool(f"B{b.args[0]}|{tag}")
        else:
            r = z3.Bool(f"{b.op}_{b.id}")
        self.cache[k] = r
        self.bools[b.id] = b
        return r


# ------------------------------------------------- instantiation of quantified facts
def instantiate(ctx, seed, rounds=2):
    """ground facts relevant to the query: element invariants, quantified facts,
    min/max and any/all witnesses"""
    out = []
    done = set()
    work = list(ctx.facts) + list(seed)
    known = set()
    names = {}
    pool1, pooln = {}, {}
    for _ in range(rounds):
        new = []
        stack = work
        work = []
        for t in stack:
            for x in walk(t):
                if x.id in known:
                    continue
                known.add(x.id)
                if isinstance(x, Atom):
                    if x.kind == "app":
                        ia = tuple(y for y in x.args if isinstance(y, Poly) and y.is_int)
                        names.setdefault(x.name, {})[tuple(y.id for y in ia)] = ia
                        inv_ = ctx.elem.get(x.name)
                        if inv_:
                            new.append(inv_(*x.args))
                        if ia:
                            pooln.setdefault(len(ia), {})[tuple(y.id for y in ia)] = ia
                            for y in ia:
                                pool1[y.id] = y
                    elif x.kind == "ext":
                        bounds, L = x.args
                        w = [var(f"wit{x.id}_{i}", "I") for i in range(len(bounds))]
                        for v, b in zip(w, bounds):
                            new.append(ge(v, ZERO))
                            new.append(lt(v, b))
                        new.append(eq(atom_poly(x), lam_apply(L, *w)))
                elif x.op in ("any",):
                    bounds, L = x.args
                    w = [var(f"wit{x.id}_{i}", "I") for i in range(len(bounds))]
                    cs = [And(ge(v, ZERO), lt(v, b)) for v, b in zip(w, bounds)]
                    new.append(Implies(x, And(*cs, lam_apply(L, *w))))
                elif x.op == "bapp":
                    ia = tuple(y for y in x.args[1] if isinstance(y, Poly) and y.is_int)
                    names.setdefault(x.args[0], {})[tuple(y.id for y in ia)] = ia
                    inv_ = ctx.elem.get(x.args[0])
                    if inv_:
                        new.append(inv_(*x.args[1]))
                    if ia:
                        pooln.setdefault(len(ia), {})[tuple(y.id for y in ia)] = ia
                        for y in ia:
                            pool1[y.id] = y
        # min/max bounds and negated any over the pool
        for t in list(known):
            x = T._atoms.get(t)
            if x is not None and x.kind == "ext":
                bounds, L = x.args
                for ix in list(pooln.get(len(bounds), {}).values())[:40]:
                    k = ("ext", x.id, tuple(y.id for y in ix))
                    if k in done:
                        continue
                    done.add(k)
                    inr = And(*[And(ge(i, ZERO), lt(i, b)) for i, b in zip(ix, bounds)])
                    v = lam_apply(L, *ix)
                    new.append(Implies(inr, le(atom_poly(x), v) if x.name == "min" else ge(atom_poly(x), v)))
        for x in _bools_in(ctx.facts + list(seed), known):
            if x.op == "any":
                bounds, L = x.args
                for ix in list(pooln.get(len(bounds), {}).values())[:40]:
                    k = ("any", x.id, tuple(y.id for y in ix))
                    if k in done:
                        continue
                    done.add(k)
                    inr = And(*[And(ge(i, ZERO), lt(i, b)) for i, b in zip(ix, bounds)])
                    new.append(Implies(And(inr, lam_apply(L, *ix)), x))
        for qi, (trig, ar, f) in enumerate(ctx.qfacts):
            if trig is not None:
                cand = list(names.get(trig, {}).values())
                if ar == 1:
                    tup = {y.id: (y,) for c in cand for y in c[:1]}.values() if not isinstance(trig, tuple) else []
                else:
                    flat = list({c[0].id: c[0] for c in cand if c}.values())[:14]
                    tup = [(a, b) for a in flat for b in flat if a is not b] if ar == 2 else []
            else:
                tup = [(y,) for y in list(pool1.values())[:30]] if ar == 1 else list(pooln.get(ar, {}).values())[:40]
            for ix in list(tup)[:200]:
                k = ("q", qi, tuple(y.id for y in ix))
                if k in done:
                    continue
                done.add(k)
                new.append(f(*ix))
        new = [n for n in new if n is not TRUE]
        out.extend(new)
        work = new
        if not new:
            break
    return out


def _bools_in(ts, known):
    seen = set()
    for t in ts:
        for x in walk(t):
            if isinstance(x, Bool) and x.id not in seen:
                seen.add(x.id)
                yield x


def fn_pairs(enc, ts):
    """pairwise axioms (monotonicity) for interpreted functions occurring in ts"""
    by = {}
    for t in ts:
        for x in walk(t):
            if isinstance(x, Atom) and x.kind == "fn" and x.name in ("exp", "log", "sqrt"):
                by.setdefault(x.name, {})[x.id] = x
    out = []
    for n, d in by.items():
        xs = list(d.values())[:8]
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                a, b = xs[i], xs[j]
                pa, pb = enc.poly(a.args[0]), enc.poly(b.args[0])
                ra, rb = enc.atom(a), enc.atom(b)
                g = z3.And(pa > 0, pb > 0) if n == "log" else z3.And(pa >= 0, pb >= 0) if n == "sqrt" else z3.BoolVal(True)
                out.append(z3.Implies(z3.And(g, pa < pb), ra < rb))
                out.append(z3.Implies(z3.And(g, pa > pb), ra > rb))
    return out


def z3_check(ctx, extra, timeout=3000, linear=True, want_model=False, decisive=False):
    """'unsat' | 'sat' | 'unknown' for ctx and extra"""
    t0 = time.time()
    inst = instantiate(ctx, extra)
    enc = Enc(linear)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 1)
    allb = list(ctx.facts) + list(extra) + inst + list(ctx.lemmas)
    fm = [enc.bool(b) for b in allb]
    fm += fn_pairs(enc, allb)
    fm += enc.ax
    s.add(*fm)
    r = str(s.check())
    STATS["z3_calls"] += 1
    STATS["z3_s"] += time.time() - t0
    STATS[r] = STATS.get(r, 0) + 1
    if decisive and r == "unsat" and CVC5[0]:
        _cvc5_cross(s)
    if want_model:
        return r, (s.model() if r == "sat" else None), enc
    return r


def _cvc5_cross(s):
    import subprocess
    t0 = time.time()
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=10000"], input=txt, capture_output=True, text=True, timeout=20)
        ans = r.stdout.strip().splitlines()[0] if r.stdout.strip() else "none"
    except Exception as e:
        ans = "none"
    STATS["cvc5_calls"] += 1
    STATS["cvc5_s"] += time.time() - t0
    STATS["cvc5_" + ans.split()[0]] = STATS.get("cvc5_" + ans.split()[0], 0) + 1
    if ans == "sat":
        CVC5_DISAGREE.append(txt[:2000])


def feasible(ctx, *extra):
    if any(e is FALSE for e in extra):
        return False
    return z3_check(ctx, list(extra), timeout=1500, linear=True) != "unsat"


def entails(ctx, b, timeout=3000):
    if b is TRUE:
        return True
    if b is FALSE:
        return z3_check(ctx, [], timeout) == "unsat"
    return z3_check(ctx, [Not(b)], timeout) == "unsat"


# ------------------------------------------------------------------- proving
class Result:
    def __init__(self, ok, how="", cex=None, ctx=None, residual=None, status=None):
        self.ok, self.how, self.cex, self.ctx, self.residual = ok, how, cex, ctx, residual
        self.status = status or ("proved" if ok else "unknown")


class Budget(Exception):
    pass


class Prover:
    def __init__(self, time_limit=60.0):
        self.limit = time_limit

    def prove(self, ctx, goal):
        self.depth = 0
        r = None
        if canon.needs(goal):
            # sums over conditionals: compare their canonical forms first
            self.t_end = time.time() + self.limit * 0.6
            try:
                c2, g2 = self.canonical(ctx, goal)
                r = self._prove(c2, self._bool_congruence(c2, g2))
                if r.ok:
                    r.how = "canonical sums, " + r.how
                else:
                    r = None
            except (Budget, canon.TooBig):
                r = None
        self.t_end = time.time() + self.limit
        try:
            if r is None:
                r = self._prove(ctx, self._bool_congruence(ctx, goal))
        except Budget:
            r = Result(False, "time budget", status="unknown")
        STATS["by"][r.how] = STATS["by"].get(r.how, 0) + 1
        return r

    def canonical(self, ctx, goal):
        c2 = ctx.copy()
        c2.facts = []
        decided = {}

        def decide(c):
            if c.id not in decided:
                self._tick()
                v = True if entails(c2, c, 1500) else False if entails(c2, Not(c), 1500) else None
                if v is None:
                    return None
                decided[c.id] = v
            return decided[c.id]

        cn = canon.Canon(decide)
        for f in ctx.facts:
            c2.add(cn.bool(f))
        return c2, cn.bool(goal)

    def _tick(self):
        if time.time() > self.t_end:
            raise Budget()

    def _prove(self, ctx, goal):
        self._tick()
        if goal is TRUE:
            return Result(True, "normal form")
        if goal.op == "and":
            how = "normal form"
            for g in goal.args:
                r = self._prove(ctx, g)
                if not r.ok:
                    return r
                if r.how != "normal form":
                    how = r.how
            return Result(True, how)
        if goal.op == "or":
            eqs = [a for a in goal.args if a.op == "eq"]
            rest = [a for a in goal.args if a.op != "eq"]
            ands = [a for a in rest if a.op == "and"]
            if eqs and len(eqs) == 1:
                g = eqs[0]
                c2 = ctx.plus(*[Not(a) for a in goal.args if a is not g])
                if z3_check(c2, [], 2000) == "unsat":
                    return Result(True, "z3")
                return self._prove(c2, g)
            if ands:
                # (A and B) or rest : prove each conjunct with rest
                a = ands[0]
                others = [x for x in goal.args if x is not a]
                how = "normal form"
                for x in a.args:
                    r = self._prove(ctx, Or(x, *others))
                    if not r.ok:
                        return r
                    how = r.how
                return Result(True, how)
        if goal.op == "not" and goal.args[0].op == "and":
            return self._prove(ctx, Or(*[Not(x) for x in goal.args[0].args]))
        if goal.op == "not" and goal.args[0].op == "or":
            return self._prove(ctx, And(*[Not(x) for x in goal.args[0].args]))
        if goal.op == "eq":
            return self._eq(ctx, goal.args[0])
        if goal.op in ("ge", "gt"):
            return self._ineq(ctx, goal)
        return self._final(ctx, goal)

    # -- equalities
    def _conds(self, p):
        """conditions of conditionals outside lambdas, innermost first"""
        cs = {}
        for x in walk(p):
            if isinstance(x, Atom) and x.kind == "ite":
                cs[x.args[0].id] = x.args[0]
        cs = list(cs.values())

        def inner(c):
            return sum(1 for y in walk(c) if isinstance(y, Atom) and y.kind == "ite")

        cs.sort(key=lambda c: (inner(c), c.id))
        return cs

    def _eq(self, ctx, p, depth=0, inner=False):
        self._tick()
        if p is ZERO:
            return Result(True, "normal form")
        cs = self._conds(p)
        if len(cs) > 2 and not inner and len(p.terms) <= 60:
            # the conditionals and everything else left to the solver at once
            if z3_check(ctx, [Not(cmp0("eq", p))], 2000, decisive=True) == "unsat":
                return Result(True, "z3")
        if cs:
            c = cs[0]
            yes = z3_check(ctx, [c], 2000) != "unsat"
            no = z3_check(ctx, [Not(c)], 2000) != "unsat"
            if not yes and not no:
                return Result(True, "z3")  # contradictory branch
            how = "normal form+split"
            if yes:
                r = self._eq(ctx if not no else ctx.plus(c), subst(p, {c.id: TRUE, Not(c).id: FALSE}), depth, True)
                if not r.ok:
                    return r
                if r.how.startswith("z3"):
                    how = r.how
            if no:
                r = self._eq(ctx if not yes else ctx.plus(Not(c)), subst(p, {c.id: FALSE, Not(c).id: TRUE}), depth, True)
                if not r.ok:
                    return r
                if r.how.startswith("z3"):
                    how = r.how
            return Result(True, how)
        if not p.is_const():
            q = clear_denominators(p)
            if q is ZERO:
                return Result(True, "rational normal form")
            r = self._congruence(ctx, p, depth)
            if r is not None:
                return r
        return self._final(ctx, cmp0("eq", p))

    def _congruence(self, ctx, p, depth):
        """rewrite pairs of applications / sums whose arguments are provably equal"""
        if depth > 4:
            return None
        cands = {}
        for x in walk(p):
            if isinstance(x, Atom) and x.kind in ("app", "sum", "ext", "fn", "inv"):
                cands.setdefault((x.kind, x.name, len(x.args), self._shape(x)), {})[x.id] = x
        for key, d in sorted(cands.items(), key=lambda kv: str(kv[0])):
            xs = list(d.values())
            if len(xs) < 2 or len(xs) > 12:
                continue
            for i in range(len(xs)):
                for j in range(i + 1, len(xs)):
                    self._tick()
                    a, b = xs[i], xs[j]
                    if a.kind == "inv" or a.kind == "fn":
                        pass
                    if self._args_equal(ctx, a, b, depth + 1):
                        q = subst(p, {b.id: atom_poly(a)})
                        if q is p:
                            continue
                        r = self._eq(ctx, q, depth)
                        if r.ok:
                            if r.how == "normal form":
                                r.how = "congruence"
                            return r
                        return r
        return None

    def _bool_congruence(self, ctx, goal):
        """rewrite pairs of uninterpreted predicates whose (lambda) arguments are provably equal"""
        by = {}
        for x in walk(goal):
            if isinstance(x, Bool) and x.op == "bapp" and any(isinstance(y, Lam) for y in x.args[1]):
                by.setdefault((x.args[0], len(x.args[1])), {})[x.id] = x
        if not any(len(d) > 1 for d in by.values()):
            return goal
        infacts = set()
        for f in ctx.facts:
            for x in walk(f):
                if isinstance(x, Bool) and x.op == "bapp":
                    infacts.add(x.id)
        for d in by.values():
            xs = sorted(d.values(), key=lambda x: (x.id not in infacts, x.id))
            reps = []
            for b in xs[:12]:
                for a in reps:
                    self._tick()
                    if all(self._same(ctx, u, v, 1, _BArgs(a)) for u, v in zip(a.args[1], b.args[1])):
                        goal = subst(goal, {b.id: a})
                        break
                else:
                    reps.append(b)
        return goal

    def _shape(self, x):
        def s(y):
            if isinstance(y, Lam):
                return ("L", len(y.vars))
            if isinstance(y, Poly):
                return "P"
            if isinstance(y, tuple):
                return tuple(s(z) for z in y)
            if isinstance(y, Bool):
                return "B"
            return y
        return str(tuple(s(y) for y in x.args))

    def _args_equal(self, ctx, a, b, depth, cheap=True):
        for x, y in zip(a.args, b.args):
            if not self._same(ctx, x, y, depth, a):
                return False
        return True

    def _same(self, ctx, x, y, depth, owner=None):
        if x is y:
            return True
        if isinstance(x, Poly) and isinstance(y, Poly):
            d = x - y
            if d.is_const():
                return d.const == 0
            if x.is_int and y.is_int and not any(True for t in walk(d) if isinstance(t, Atom) and t.kind in ("app", "sum")):
                return entails(ctx, eq(x, y), 1500)
            return self._eq(ctx, d, depth).ok
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self._same(ctx, u, v, depth, owner) for u, v in zip(x, y))
        if isinstance(x, Lam) and isinstance(y, Lam):
            n = len(x.vars)
            if n != len(y.vars):
                return False
            ks = [var(fresh_name("ex"), "I") for _ in range(n)]
            c2 = ctx.copy()
            bounds = lam_bounds(owner)
            if bounds is not None and n == 1 and len(bounds) > 1:
                # one lambda per axis, in the order of the bounds
                one = [z for z in owner.args if isinstance(z, Lam) and len(z.vars) == 1]
                pos = [q for q, z in enumerate(one) if z is x]
                bounds = (bounds[pos[0]],) if len(one) == len(bounds) and len(pos) == 1 else None
            for i, k in enumerate(ks):
                c2.add(ge(k, ZERO))
                if bounds is not None and i < len(bounds):
                    c2.add(lt(k, bounds[i]))
            bx, by = lam_apply(x, *ks), lam_apply(y, *ks)
            return self._same_body(c2, bx, by, depth)
        if isinstance(x, Bool) and isinstance(y, Bool):
            return self._prove(ctx, Iff(x, y)).ok
        return x == y

    def _same_body(self, ctx, bx, by, depth):
        if bx is by:
            return True
        if isinstance(bx, tuple):
            return all(self._same_body(ctx, u, v, depth) for u, v in zip(bx, by))
        if isinstance(bx, Poly):
            return self._eq(ctx, bx - by, depth).ok
        return self._prove(ctx, Iff(bx, by)).ok

    # -- inequalities: split conditionals, then solver
    def _ineq(self, ctx, goal):
        self._tick()
        if IV.deep(goal.args[0]):
            r = IV.positive(ctx, goal.args[0], goal.op == "gt", max(1.0, (self.t_end - time.time()) / 2))
            if r is True:
                return Result(True, "interval arithmetic")
            if r:
                return Result(False, "interval arithmetic", ("point",) + r, ctx, goal, "refuted")
        if z3_check(ctx, [Not(goal)], 3000, decisive=True) == "unsat":
            return Result(True, "z3")
        cs = self._conds(goal)
        if cs and len(cs) <= 12:
            c = cs[0]
            how = "z3+split"
            for b in (c, Not(c)):
                c2 = ctx.plus(b)
                if z3_check(c2, [], 1500) == "unsat":
                    continue
                g = subst(goal, {c.id: TRUE if b is c else FALSE, Not(c).id: FALSE if b is c else TRUE})
                r = self._prove(c2, g)
                if not r.ok:
                    return r
            return Result(True, how)
        return self._final(ctx, goal, skip_lin=True)

    def _final(self, ctx, goal, skip_lin=False):
        self._tick()
        if goal is FALSE:
            r = z3_check(ctx, [], 4000, linear=True)
            if r == "unsat":
                return Result(True, "z3")
            r, m, enc = z3_check(ctx, [], 4000, linear=False, want_model=True)
            if r == "unsat":
                return Result(True, "z3-nra")
            return Result(False, "z3:" + r, (m, enc), ctx, goal, "refuted" if r == "sat" else "unknown")
        ng = Not(goal)
        if not skip_lin:
            if z3_check(ctx, [ng], 4000, linear=True, decisive=True) == "unsat":
                return Result(True, "z3")
        # nonlinear attempt with denominators cleared under known signs
        g2 = clear_cmp(ctx, goal)
        if g2 is not None and g2 is not goal:
            if g2 is TRUE or z3_check(ctx, [Not(g2)], 4000, linear=True) == "unsat":
                return Result(True, "z3")
            if z3_check(ctx, [Not(g2)], 6000, linear=False, decisive=True) == "unsat":
                return Result(True, "z3-nra")
        r, m, enc = z3_check(ctx, [ng], 6000, linear=False, want_model=True, decisive=True)
        if r == "unsat":
            return Result(True, "z3-nra")
        return Result(False, "z3:" + r, (m, enc), ctx, goal, "refuted" if r == "sat" else "unknown")


class _BArgs:
    kind = "bapp"

    def __init__(self, b):
        self.args = b.args[1]


def lam_bounds(owner):
    if owner is None:
        return None
    if owner.kind in ("sum", "ext"):
        return owner.args[0]
    # applications carry their bounds as a tuple argument
    for x in owner.args:
        if isinstance(x, tuple) and x and all(isinstance(y, Poly) for y in x):
            return x
    return None


def clear_denominators(p, limit=8):
    """multiply out inv atoms (values where a denominator is 0 are outside the claim)"""
    for _ in range(limit):
        invs = {}
        for m, _c in p.terms:
            for a, e in m:
                at = T._atoms[a]
                if at.kind == "inv" and e > 0:
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            # negative powers are fine in a Laurent polynomial
            return p
        # choose one whose denominator mentions no other present inv atom last
        a = max(invs, key=lambda i: i)
        q = T._atoms[a].args[0]
        n = invs[a]
        if n * len(q.terms) * len(p.terms) > 40000:
            return p
        r = ZERO
        groups = {}
        for m, c in p.terms:
            e = dict(m).get(a, 0)
            mm = tuple((x, k) for x, k in m if x != a)
            groups.setdefault(e, {})
            groups[e][mm] = groups[e].get(mm, 0) + c
        for e, d in groups.items():
            r = r + mk_poly(d) * (q ** (n - e))
        p = r
        if p is ZERO:
            return p
    return p


def clear_cmp(ctx, g):
    """g with positive denominators multiplied out, or None"""
    if g.op not in ("ge", "gt", "eq"):
        return None
    p = g.args[0]
    changed = False
    for _ in range(6):
        invs = {}
        negs = {}
        for m, _c in p.terms:
            for a, e in m:
                at = T._atoms[a]
                if at.kind == "inv":
                    invs[a] = max(invs.get(a, 0), e)
                elif e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if not invs and not negs:
            break
        if invs:
            a = max(invs)
            q, n = T._atoms[a].args[0], invs[a]
        else:
            a = max(negs)
            q, n = atom_poly(T._atoms[a]), -negs[a]
        sgn = 0
        if n % 2 == 0:
            sgn = 1
        elif entails(ctx, gt(q, ZERO), 2000):
            sgn = 1
        elif entails(ctx, lt(q, ZERO), 2000):
            sgn = -1
        elif g.op == "eq" and entails(ctx, Not(eq(q, ZERO)), 2000):
            sgn = 1
        if sgn == 0:
            return None
        if invs:
            r = ZERO
            for m, c in p.terms:
                e = dict(m).get(a, 0)
                mm = tuple((x, k) for x, k in m if x != a)
                r = r + mk_poly({mm: c}) * (q ** (n - e))
            p = r
        else:
            p = p * (q ** n)
        if sgn < 0 and g.op != "eq":
            p = -p
        changed = True
    return cmp0(g.op, p) if changed else None
