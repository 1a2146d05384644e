"""Canonical form of the bodies of sums (and any/min/max): every body is expanded over its
conditions into a multilinear polynomial in 0/1 indicators, so that sums that differ only in how
their conditionals are nested become the same sum (or the same combination of sums)."""
from .terms import *
from . import terms as T

MAXC = 9


class TooBig(Exception):
    pass


def needs(t):
    for x in walk(t, True):
        if isinstance(x, Atom) and x.kind == "sum" or isinstance(x, Bool) and x.op == "any":
            for y in walk(x.args[1].body, True):
                if isinstance(y, Atom) and y.kind == "ite":
                    return True
                if isinstance(y, Bool) and x is not y and x.__class__ is Bool and y.op in ("and", "or"):
                    return True
    return False


class Canon:
    def __init__(self, decide=None):
        self.memo = {}
        self.decide = decide  # Bool (closed) -> True / False / None

    def poly(self, p, depth=0):
        k = ("p", p.id, depth)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._subatoms(p, depth)
        return r

    def _subatoms(self, p, depth):
        mp = {}
        for m, _ in p.terms:
            for a, _e in m:
                at = T._atoms[a]
                if at.kind in ("var", "bound"):
                    continue
                v = self.atom(at, depth)
                if v is not None:
                    mp[a] = v
        if not mp:
            return p
        r = ZERO
        for m, c in p.terms:
            t = const(c)
            for a, e in m:
                t = mul(t, ipow(mp[a] if a in mp else atom_poly(T._atoms[a]), e))
            r = add(r, t)
        return r

    def atom(self, a, depth):
        if a.kind == "sum":
            bounds = tuple(self.poly(b, depth) for b in a.args[0])
            return sum_(bounds, self.lam(a.args[1], depth, True))
        new = tuple(self.any(x, depth) for x in a.args)
        if all(x is y for x, y in zip(new, a.args)):
            return None
        return rebuild(a, new)

    def any(self, x, depth):
        if isinstance(x, Poly):
            return self.poly(x, depth)
        if isinstance(x, Bool):
            return self.bool(x, depth)
        if isinstance(x, Lam):
            return self.lam(x, depth, not isinstance(x.body, tuple))
        if isinstance(x, tuple):
            return tuple(self.any(y, depth) for y in x)
        return x

    def bool(self, b, depth=0):
        k = ("b", b.id, depth)
        r = self.memo.get(k)
        if r is not None:
            return r
        if b.op in ("ge", "gt", "eq"):
            r = cmp0(b.op, self.poly(b.args[0], depth))
        elif b.op == "not":
            r = Not(self.bool(b.args[0], depth))
        elif b.op == "and":
            r = And(*[self.bool(x, depth) for x in b.args])
        elif b.op == "or":
            r = Or(*[self.bool(x, depth) for x in b.args])
        elif b.op == "any":
            L = self.lam(b.args[1], depth, True)
            r = any_(tuple(self.poly(x, depth) for x in b.args[0]), L)
        elif b.op == "bapp":
            r = bapp(b.args[0], [self.any(x, depth) for x in b.args[1]])
        else:
            r = b
        self.memo[k] = r
        return r

    def lam(self, L, depth, expand):
        k = ("l", L.id, depth)
        r = self.memo.get(k)
        if r is not None:
            return r
        n = len(L.vars)
        cv = [mk_atom("var", f"cv{depth}_{i}", (), "I") for i in range(n)]
        body = lam_apply(L, *[atom_poly(v) for v in cv]) if not isinstance(L.body, tuple) else tuple(
            subst(x, {v.id: atom_poly(c) for v, c in zip(L.vars, cv)}) if isinstance(x, (Poly, Bool)) else x for x in L.body)
        body = self.any(body, depth + 1)
        if expand:
            if isinstance(body, Poly):
                body = self.expand(body)
            else:
                body = self.expand_bool(body)
        r = lam(n, lambda *ix: subst(body, {v.id: i for v, i in zip(cv, ix)}))
        self.memo[k] = r
        return r

    # -- expansion over conditions
    def conds(self, t):
        """atomic conditions of conditionals in t with no conditional inside"""
        out = {}
        st = [t]
        seen = set()
        def leaf(b):
            if b.id in seen:
                return
            seen.add(b.id)
            if b.op in ("and", "or", "not"):
                for x in b.args:
                    leaf(x)
                return
            if b.op in ("true", "false"):
                return
            inner = any(isinstance(y, Atom) and y.kind == "ite" for y in walk(b) if y is not b)
            if inner:
                for y in walk(b):
                    if isinstance(y, Atom) and y.kind == "ite":
                        leaf(y.args[0])
                return
            c = self.norm(b)
            out[c.id] = c
        if isinstance(t, Bool):
            leaf(t)
        else:
            for y in walk(t):
                if isinstance(y, Atom) and y.kind == "ite":
                    leaf(y.args[0])
        return out

    @staticmethod
    def norm(b):
        """one of b / not b, chosen independently of how it was written"""
        if b.op == "not":
            b = b.args[0]
        if b.op == "gt":
            b = Not(b)
        if b.op == "ge":
            n = Not(b)
            if n.op == "ge" and lead_sign(b.args[0]) < 0:
                return n
        return b

    def expand(self, p):
        if not self.conds(p):
            return p
        tree = self.tree(p, MAXC)
        monos = {}
        for leaf in _leaves(tree):
            for m, _c in leaf.terms:
                monos[m] = True
        r = ZERO
        for m in monos:
            ct = _map(tree, lambda q: const(dict(q.terms).get(m, 0)))
            for v in {x.id: x for x in _leaves(ct)}.values():
                if v is ZERO:
                    continue
                r = add(r, mul(mul(mk_poly({m: Fr(1)}), ind(_region(ct, v))), v))
        return r

    def tree(self, p, left):
        cs = self.conds(p)
        if not cs:
            return p
        if left == 0:
            raise TooBig()
        c = min(cs.values(), key=lambda c: (_size(c), c.id))
        d = self.decide(c) if self.decide and not _has_cv(c) else None
        if d is not None:
            return self.tree(_assume(p, c, d), left)
        t = self.tree(_assume(p, c, True), left - 1)
        f = self.tree(_assume(p, c, False), left - 1)
        w = _zero_atom(c)
        if w is not None:
            z = lambda q: subst(q, {w.id: ZERO})
            t = _map(t, z)
            if t == _map(f, z):
                return f
        return t if t == f else (c, t, f)

    def expand_bool(self, b):
        cs = self.conds(b)
        if len(cs) > MAXC:
            raise TooBig()
        return self._eb(b, MAXC)

    def _eb(self, b, left):
        cs = self.conds(b)
        if not cs or b in (TRUE, FALSE):
            return b
        if left == 0:
            raise TooBig()
        c = min(cs.values(), key=lambda c: (_size(c), c.id))
        t = self._eb(_assume(b, c, True), left - 1)
        f = self._eb(_assume(b, c, False), left - 1)
        return BIte(c, t, f)


def _has_cv(c):
    return any(isinstance(y, Atom) and y.kind == "var" and y.name.startswith("cv") for y in walk(c))


def _size(c):
    return sum(1 for _ in walk(c))


def _zero_atom(c):
    """w if c says w == 0 for an atom w"""
    if c.op == "eq" and len(c.args[0].terms) == 1:
        m = c.args[0].terms[0][0]
        if len(m) == 1 and T._atoms[m[0][0]].kind in ("app", "fn", "var", "sum"):
            return T._atoms[m[0][0]]
    return None


def _assume(t, c, val):
    n = Not(c)
    mp = {c.id: TRUE if val else FALSE, n.id: FALSE if val else TRUE}
    if not val and c.op == "ge":
        mp[cmp0("eq", c.args[0]).id] = FALSE
    t = subst(t, mp)
    if val:
        w = _zero_atom(c)
        if w is not None:
            t = subst(t, {w.id: ZERO})
    return t


def _leaves(t):
    if isinstance(t, Poly):
        yield t
    else:
        yield from _leaves(t[1])
        yield from _leaves(t[2])


def _map(t, f):
    if isinstance(t, Poly):
        return f(t)
    a, b = _map(t[1], f), _map(t[2], f)
    return a if a == b else (t[0], a, b)


def _region(t, v):
    """where the tree has the leaf v"""
    if isinstance(t, Poly):
        return TRUE if t is v else FALSE
    return BIte(t[0], _region(t[1], v), _region(t[2], v))


def ind(c):
    if c is TRUE:
        return ONE
    return atom_poly(mk_atom("ite", "ite", (c, ONE, ZERO), "I"))
