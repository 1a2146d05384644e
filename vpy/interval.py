"""Obligations in one bounded real variable: rigorous interval arithmetic (mpmath.iv, outward
rounding) with Taylor forms, bisecting the variable's whole range."""
import time
from fractions import Fraction as Fr
from .terms import *
from . import terms as T

FN = {"sin", "cos", "tan", "exp", "log", "sqrt"}


class No(Exception):
    pass


def free_var(p):
    v = None
    for x in walk(p):
        if isinstance(x, Lam):
            return None
        if isinstance(x, Atom):
            if x.kind == "var":
                if x.name == "PI":
                    continue
                if v is not None and v is not x:
                    return None
                v = x
            elif x.kind == "inv" or (x.kind == "fn" and x.name in FN):
                continue
            else:
                return None
        elif isinstance(x, Bool):
            return None
    return v


def bounds(ctx, v):
    lo = hi = None
    for b in ctx.facts:
        if b.op in ("ge", "gt"):
            p = b.args[0]
            c1 = c0 = Fr(0)
            for m, c in p.terms:
                if m == ():
                    c0 = c
                elif m == ((v.id, 1),):
                    c1 = c
                else:
                    c1 = None
                    break
            if c1:
                x = -c0 / c1
                if c1 > 0:
                    lo = x if lo is None else max(lo, x)
                else:
                    hi = x if hi is None else min(hi, x)
    return (lo, hi) if lo is not None and hi is not None and lo < hi else None


ORDER = 8


class Ev:
    """truncated Taylor series (interval coefficients 0..ORDER) of a term around X"""

    def __init__(self, iv, v, X):
        self.iv, self.v, self.X, self.memo = iv, v, X, {}
        self.one, self.zero = iv.mpf(1), iv.mpf(0)

    def num(self, c, cache={}):
        r = cache.get(c)
        if r is None:
            r = self.iv.mpf(c.numerator) / self.iv.mpf(c.denominator)
            cache[c] = r
        return r

    def cst(self, x):
        return [x] + [self.zero] * ORDER

    def mul(self, a, b):
        return [sum((a[i] * b[k - i] for i in range(k + 1)), self.zero) for k in range(ORDER + 1)]

    def inv(self, a):
        if 0 in a[0]:
            raise No()
        r = [1 / a[0]]
        for k in range(1, ORDER + 1):
            r.append(-sum((a[i] * r[k - i] for i in range(1, k + 1)), self.zero) * r[0])
        return r

    def poly(self, p):
        r = self.memo.get(("p", p.id))
        if r is not None:
            return r
        acc = self.cst(self.zero)
        for m, c in p.terms:
            c = self.num(c)
            x = None
            for aid, e in m:
                y = self.power(aid, e)
                x = y if x is None else self.mul(x, y)
            if x is None:
                acc[0] = acc[0] + c
            else:
                acc = [u + c * w for u, w in zip(acc, x)]
        self.memo[("p", p.id)] = acc
        return acc

    def power(self, aid, e):
        r = self.memo.get((aid, e))
        if r is None:
            a = T._atoms[aid]
            if a is self.v and e > 0:
                r, c = [], 1
                for k in range(ORDER + 1):
                    r.append(self.zero if k > e else self.iv.mpf(c) * (self.X ** (e - k) if e > k else self.one))
                    c = c * (e - k) // (k + 1)
            else:
                y = self.atom(a)
                if e < 0:
                    y, e2 = self.inv(y), -e
                else:
                    e2 = e
                r = None
                while e2:
                    if e2 & 1:
                        r = y if r is None else self.mul(r, y)
                    e2 >>= 1
                    if e2:
                        y = self.mul(y, y)
            self.memo[(aid, e)] = r
        return r

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is None:
            r = self.memo[a.id] = self._atom(a)
        return r

    def _atom(self, a):
        iv = self.iv
        N = range(1, ORDER + 1)
        if a is self.v:
            return [self.X, self.one] + [self.zero] * (ORDER - 1)
        if a.kind == "var":
            return self.cst(iv.pi)
        y = self.poly(a.args[0])
        if a.kind == "inv":
            return self.inv(y)
        n = a.name
        sm = lambda g: sum(g, self.zero)
        if n in ("sin", "cos", "tan"):
            s, c = [iv.sin(y[0])], [iv.cos(y[0])]
            for k in N:
                s.append(sm(i * y[i] * c[k - i] for i in range(1, k + 1)) / k)
                c.append(-sm(i * y[i] * s[k - i] for i in range(1, k + 1)) / k)
            return s if n == "sin" else c if n == "cos" else self.mul(s, self.inv(c))
        if n == "exp":
            r = [iv.exp(y[0])]
            for k in N:
                r.append(sm(i * y[i] * r[k - i] for i in range(1, k + 1)) / k)
            return r
        if n == "log":
            if not y[0].a > 0:
                raise No()
            r = [iv.log(y[0])]
            for k in N:
                r.append((y[k] - sm(i * r[i] * y[k - i] for i in range(1, k)) / k) / y[0])
            return r
        if n == "sqrt":
            if not y[0].a > 0:
                raise No()
            r = [iv.sqrt(y[0])]
            for k in N:
                r.append((y[k] - sm(r[i] * r[k - i] for i in range(1, k))) / (2 * r[0]))
            return r
        raise No()


def positive(ctx, p, strict, limit=60.0):
    """True when p > 0 (>= 0) is certain over the whole range of its only variable; (name, value) of
    a point where it certainly is not; else False"""
    v = free_var(p)
    if v is None:
        return False
    b = bounds(ctx, v)
    if b is None:
        return False
    try:
        from mpmath import iv
    except ImportError:
        return False
    iv.prec = 100
    t0 = time.time()
    todo = [b]
    cells = 0
    while todo:
        lo, hi = todo.pop()
        cells += 1
        if time.time() - t0 > limit or cells > 200000:
            return False
        X = iv.mpf([0, 0]) + iv.mpf(lo.numerator) / lo.denominator
        Y = iv.mpf(hi.numerator) / hi.denominator
        X = iv.mpf([X.a, Y.b])
        mid = (lo + hi) / 2
        try:
            xs = Ev(iv, v, X).poly(p)
            if xs[0].a > 0 or (not strict and xs[0].a >= 0):
                continue
            c = iv.mpf(mid.numerator) / mid.denominator
            cs = Ev(iv, v, c).poly(p)
            h = X - c
            tot = xs[ORDER] * h ** ORDER
            for k in range(ORDER):
                tot += cs[k] * (h ** k if k else 1)
            if tot.a > 0 or (not strict and tot.a >= 0):
                continue
            if cs[0].b < 0:
                return (v.name, float(mid))
        except No:
            pass
        if hi - lo < (b[1] - b[0]) / 10**7:
            return False
        todo += [(lo, mid), (mid, hi)]
    return True


def deep(p):
    """worth trying before the solver: high degree or transcendental"""
    for m, _ in p.terms:
        if sum(abs(e) for _, e in m) > 6:
            return True
    return any(isinstance(x, Atom) and x.kind == "fn" and x.name in FN for x in walk(p))
