"""Term layer: hash-consed polynomials over atoms (values are mathematical reals /
integers) and Boolean terms.  Everything the symbolic executor computes is one of these."""
from fractions import Fraction as Fr
import math

_intern = {}
_ctr = [0]


def _new_id():
    _ctr[0] += 1
    return _ctr[0]


class Unsupported(BaseException):
    """The code left the subset the verifier understands (never a verdict)."""


# --------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "sort", "_lvl", "_free")

    def __repr__(self):
        return show_atom(self)


def mk_atom(kind, name, args=(), sort="R"):
    key = ("A", kind, name, args, sort)
    a = _intern.get(key)
    if a is None:
        a = Atom()
        a.id = _new_id()
        a.kind, a.name, a.args, a.sort = kind, name, args, sort
        a._lvl = None
        a._free = None
        _intern[key] = a
        _atoms[a.id] = a
    return a


_atoms = {}
_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return f"{p}!{_fresh[0]}"


def reset_fresh():
    _fresh[0] = 0


# --------------------------------------------------------------------- polys
class Poly:
    __slots__ = ("id", "terms", "_int", "_const")

    # terms: tuple of (monomial, Fraction) sorted; monomial: tuple of (atom_id, exp)
    def __repr__(self):
        return show(self)

    def is_const(self):
        return self._const is not None

    @property
    def const(self):
        return self._const

    @property
    def is_int(self):
        if self._int is None:
            self._int = all(
                c.denominator == 1
                and all(e > 0 and _atoms[a].sort == "I" for a, e in m)
                for m, c in self.terms
            )
        return self._int

    def __add__(s, o):
        return add(s, P(o))

    __radd__ = __add__

    def __neg__(s):
        return scale(s, Fr(-1))

    def __sub__(s, o):
        return add(s, scale(P(o), Fr(-1)))

    def __rsub__(s, o):
        return add(P(o), scale(s, Fr(-1)))

    def __mul__(s, o):
        return mul(s, P(o))

    __rmul__ = __mul__

    def __truediv__(s, o):
        return mul(s, inv(P(o)))

    def __rtruediv__(s, o):
        return mul(P(o), inv(s))

    def __pow__(s, n):
        return ipow(s, n)


def mk_poly(d):
    t = tuple(sorted((m, c) for m, c in d.items() if c))
    key = ("P", t)
    p = _intern.get(key)
    if p is None:
        p = Poly()
        p.id = _new_id()
        p.terms = t
        p._int = None
        if not t:
            p._const = Fr(0)
        elif len(t) == 1 and t[0][0] == ():
            p._const = t[0][1]
        else:
            p._const = None
        _intern[key] = p
    return p


def const(c):
    return mk_poly({(): Fr(c)})


ZERO = const(0)
ONE = const(1)


def atom_poly(a):
    return mk_poly({((a.id, 1),): Fr(1)})


def var(name, sort="R"):
    return atom_poly(mk_atom("var", name, (), sort))


PI = var("PI")


def simplest_between(lo, hi):
    """simplest fraction in [lo, hi], 0 < lo <= hi (Stern-Brocot)"""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fr(fl)
    if fl + 1 <= hi:
        return Fr(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_fcache = {}


def _simplest(x):
    e = Fr(math.ulp(x)) * Fr(3, 4)
    return simplest_between(Fr(x) - e, Fr(x) + e)


def from_float(x):
    """the number a float literal / float constant stands for"""
    r = _fcache.get(x)
    if r is None:
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite constant")
        if x == int(x) and abs(x) < 2**53:
            r = const(int(x))
        else:
            s = 1 if x > 0 else -1
            ax = abs(x)
            q = _simplest(ax)
            d = Fr(repr(ax))  # decimal reading
            if len(repr(ax)) <= 17 and float(d) == ax and "e" not in repr(ax):
                # a short decimal: it is what was written, unless a much simpler ratio fits
                if q.denominator * q.numerator > 10**9:
                    q = d
                elif q != d and q.denominator > 10**6:
                    q = d
            elif q.denominator * q.numerator > 10**12:
                q = d
            r = const(s * q)
            if q.denominator > 10**5:
                w = _simplest(ax / math.pi)
                if w.numerator * w.denominator < 10**6:
                    r = PI * const(s * w)
        _fcache[x] = r
    return r


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fr)):
        return const(x)
    if isinstance(x, float):
        return from_float(x)
    if isinstance(x, Atom):
        return atom_poly(x)
    raise Unsupported(f"not a number: {type(x).__name__}")


def add(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    d = dict(a.terms)
    for m, c in b.terms:
        d[m] = d.get(m, 0) + c
    return mk_poly(d)


def scale(a, c):
    if c == 1:
        return a
    return mk_poly({m: k * c for m, k in a.terms})


def _mono_mul(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e)), None


_mulcache = {}


def mul(a, b):
    if a.is_const():
        return scale(b, a.const)
    if b.is_const():
        return scale(a, b.const)
    key = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _mulcache.get(key)
    if r is not None:
        return r
    d = {}
    special = []
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            m, _ = _mono_mul(m1, m2)
            if _needs_norm(m):
                special.append((m, c1 * c2))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = mk_poly(d)
    for m, c in special:
        r = add(r, scale(_norm_mono(m), c))
    _mulcache[key] = r
    return r


def _needs_norm(m):
    ne = 0
    for a, e in m:
        at = _atoms[a]
        if at.kind == "fn" and at.name == "exp":
            ne += 1
            if e != 1:
                return True
        if at.kind == "fn" and at.name == "sqrt" and (e >= 2 or e <= -2):
            return True
        if at.kind == "inv" and e < 0:
            return True
    return ne > 1


def _norm_mono(m):
    """merge exp atoms, reduce sqrt powers, cancel inverses"""
    rest = []
    expo = ZERO
    r = ONE
    for a, e in m:
        at = _atoms[a]
        if at.kind == "fn" and at.name == "exp":
            expo = add(expo, scale(at.args[0], Fr(e)))
        elif at.kind == "fn" and at.name == "sqrt" and abs(e) >= 2:
            h = int(e / 2)
            r = mul(r, ipow(at.args[0], h))
            if e - 2 * h:
                rest.append((a, e - 2 * h))
        elif at.kind == "inv" and e < 0:
            r = mul(r, ipow(at.args[0], -e))
        else:
            rest.append((a, e))
    rp = mk_poly({tuple(rest): Fr(1)})
    if expo is not ZERO:
        rp = mul_raw(rp, fn("exp", expo))
    return mul(r, rp) if r is not ONE else rp


def mul_raw(a, b):
    d = {}
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            m, _ = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mk_poly(d)


def ipow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return ipow(inv(p), -n)
    if len(p.terms) == 1:
        m, c = p.terms[0]
        mm = tuple((a, e * n) for a, e in m)
        q = mk_poly({mm: Fr(1)})
        if _needs_norm(mm):
            q = _norm_mono(mm)
        return scale(q, c**n)
    r = ONE
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def lead_sign(p):
    return 1 if p.terms[-1][1] > 0 else -1


def inv(p):
    if p.is_const():
        if p.const == 0:
            raise Unsupported("division by the constant zero")
        return const(1 / p.const)
    if len(p.terms) == 1:
        m, c = p.terms[0]
        mm = tuple((a, -e) for a, e in m)
        q = _norm_mono(mm) if _needs_norm(mm) else mk_poly({mm: Fr(1)})
        return scale(q, 1 / c)
    # split off the common monomial factor and the content
    c = p.terms[-1][1]
    common = None
    for m, _ in p.terms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d} if True else None
            for a in list(common):
                pass
        if not common:
            break
    q = scale(p, 1 / c)
    if common:
        # only factor atoms present in every term (with min exponent); negative exponents too
        cm = tuple(sorted(common.items()))
        icm = mk_poly({tuple((a, -e) for a, e in cm): Fr(1)})
        q2 = mul(q, icm)
        if q2.is_const():
            return scale(mul(icm, inv(q2)), 1 / c)
        if len(q2.terms) > 1 and q2 is not q:
            return scale(mul(icm, inv(q2)), 1 / c)
    # clear negative exponents: p = q / mono
    neg = {}
    for m, _ in q.terms:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    if neg:
        cm = mk_poly({tuple(sorted((a, -e) for a, e in neg.items())): Fr(1)})
        return scale(mul(cm, inv(mul(q, cm))), 1 / c)
    return scale(atom_poly(mk_atom("inv", "inv", (q,), "R")), 1 / c)


# -------------------------------------------------------------- functions
def fn(name, *args):
    """interpreted mathematical functions, canonicalised a little"""
    args = tuple(P(a) for a in args)
    x = args[0]
    if name == "floor":
        if x.is_int:
            return x
        if x.is_const():
            return const(x.const.numerator // x.const.denominator)
        # pull out integer part of the polynomial
        ip, fp = {}, {}
        for m, c in x.terms:
            isint = all(e > 0 and _atoms[a].sort == "I" for a, e in m)
            if isint:
                fl = Fr(c.numerator // c.denominator)
                if fl:
                    ip[m] = fl
                if c - fl:
                    fp[m] = c - fl
            else:
                fp[m] = c
        return mk_poly(ip) + atom_poly(mk_atom("fn", "floor", (mk_poly(fp),), "I"))
    if name == "ceil":
        return -fn("floor", -x)
    if name == "abs":
        if x.is_const():
            return const(abs(x.const))
        if lead_sign(x) < 0:
            x = -x
        return ite(ge(x, ZERO), x, -x)
    if name == "exp":
        if x is ZERO:
            return ONE
    elif name == "log":
        if x is ONE:
            return ZERO
        if len(x.terms) == 1 and x.terms[0][1] == 1 and len(x.terms[0][0]) == 1:
            (a, e), = x.terms[0][0]
            at = _atoms[a]
            if at.kind == "fn" and at.name == "exp":
                return scale(at.args[0], Fr(e))
        # log of positive rational powers is not expanded
    elif name in ("sin", "tan", "arcsin", "arctan", "sinh", "tanh"):
        if x is ZERO:
            return ZERO
        if lead_sign(x) < 0:
            return -fn(name, -x)
        k = _pi_mult(x)
        if name == "sin" and k is not None:
            v = {Fr(0): 0, Fr(1, 6): Fr(1, 2), Fr(1, 2): 1, Fr(5, 6): Fr(1, 2), Fr(1): 0}.get(k % 1)
            if v is not None:
                return const(v * (-1) ** (int(k // 1)))
        if name == "tan" and k is not None:
            v = {Fr(0): 0, Fr(1, 4): 1, Fr(3, 4): -1}.get(k % 1)
            if v is not None:
                return const(v)
    elif name == "cos":
        if x is ZERO:
            return ONE
        if lead_sign(x) < 0:
            x = -x
        k = _pi_mult(x)
        if k is not None:
            v = {Fr(0): 1, Fr(1, 3): Fr(1, 2), Fr(1, 2): 0, Fr(2, 3): Fr(-1, 2)}.get(k % 1)
            if v is not None:
                return const(v * (-1) ** (int(k // 1)))
        args = (x,)
    elif name == "arccos":
        if x is ZERO:
            return PI / 2
        if x is ONE:
            return ZERO
        if x.is_const() and x.const == -1:
            return PI
        if lead_sign(x) < 0:
            return PI - fn("arccos", -x)
    elif name == "sqrt":
        if x.is_const() and x.const >= 0:
            n, d = x.const.numerator, x.const.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return const(Fr(rn, rd))
        if x.terms:
            c = x.terms[-1][1]
            c = abs(c)
            n, d = c.numerator, c.denominator
            # sqrt(k*y) = sqrt(k)*sqrt(y), k > 0: normalise the content to 1
            if c != 1:
                return mul(fn("sqrt", const(c)), fn("sqrt", scale(x, 1 / c))) if not x.is_const() else atom_poly(
                    mk_atom("fn", "sqrt", (x,), "R"))
    return atom_poly(mk_atom("fn", name, args, "R"))


def _pi_mult(x):
    if len(x.terms) == 1 and len(x.terms[0][0]) == 1:
        (a, e), = x.terms[0][0]
        if e == 1 and _atoms[a].name == "PI" and _atoms[a].kind == "var":
            return x.terms[0][1]
    return None


def app(name, args, sort="R"):
    """uninterpreted function application; args: Polys, Lams, Bools or hashables"""
    return atom_poly(mk_atom("app", name, tuple(args), sort))


def ite(c, a, b):
    a, b = P(a), P(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    # common-constant factoring keeps conditionals small:  ite(c, s+x, s+y) = s + ite(c,x,y)
    da, db = dict(a.terms), dict(b.terms)
    com = {m: k for m, k in da.items() if db.get(m) == k}
    s = ZERO
    if com:
        s = mk_poly(com)
        a, b = a - s, b - s
    # inside the branches the condition is known
    a = assume_in(a, c, True)
    b = assume_in(b, c, False)
    if a is b:
        return s + a
    sort = "I" if a.is_int and b.is_int else "R"
    # common content
    return s + atom_poly(mk_atom("ite", "ite", (c, a, b), sort))


_aicache = {}


def assume_in(p, c, val):
    """replace direct occurrences ite(c, ..) inside p (top level atoms only)"""
    hit = False
    for m, _ in p.terms:
        for a, e in m:
            at = _atoms[a]
            if at.kind == "ite" and at.args[0] is c:
                hit = True
    if not hit:
        return p
    r = ZERO
    for m, k in p.terms:
        t = const(k)
        for a, e in m:
            at = _atoms[a]
            if at.kind == "ite" and at.args[0] is c:
                t = mul(t, ipow(at.args[1] if val else at.args[2], e))
            else:
                t = mul(t, ipow(atom_poly(at), e))
        r = add(r, t)
    return r


# --------------------------------------------------------------------- bools
class Bool:
    __slots__ = ("id", "op", "args")

    def __repr__(self):
        return show_bool(self)

    def __and__(s, o):
        return And(s, o)

    def __or__(s, o):
        return Or(s, o)

    def __invert__(s):
        return Not(s)


def mk_bool(op, args):
    key = ("B", op, args)
    b = _intern.get(key)
    if b is None:
        b = Bool()
        b.id = _new_id()
        b.op, b.args = op, args
        _intern[key] = b
    return b


TRUE = mk_bool("true", ())
FALSE = mk_bool("false", ())


def B(x):
    if isinstance(x, Bool):
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    raise Unsupported(f"not a truth value: {type(x).__name__}")


def Not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "ge":  # p >= 0  ->  -p > 0
        return cmp0("gt", -b.args[0])
    if b.op == "gt":
        return cmp0("ge", -b.args[0])
    return mk_bool("not", (b,))


def _flat(op, bs):
    out = []
    for b in bs:
        if b.op == op:
            out.extend(b.args)
        else:
            out.append(b)
    return out


def And(*bs):
    s = {}
    for b in _flat("and", bs):
        if b is FALSE:
            return FALSE
        if b is not TRUE:
            s[b.id] = b
    for b in list(s.values()):
        if Not(b).id in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk_bool("and", tuple(s[i] for i in sorted(s)))


def Or(*bs):
    s = {}
    for b in _flat("or", bs):
        if b is TRUE:
            return TRUE
        if b is not FALSE:
            s[b.id] = b
    for b in list(s.values()):
        if Not(b).id in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk_bool("or", tuple(s[i] for i in sorted(s)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    return And(Or(Not(a), b), Or(a, Not(b)))


def BIte(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return Or(And(c, a), And(Not(c), b))


def cmp0(op, p):
    """p op 0, normalised"""
    if p.is_const():
        v = p.const
        return B(bool(v >= 0 if op == "ge" else v > 0 if op == "gt" else v == 0))
    # positive scaling to primitive integer coefficients
    den = 1
    for _, c in p.terms:
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for _, c in p.terms:
        g = math.gcd(g, int(c * den))
    k = Fr(den, g)
    isint = all(all(e > 0 and _atoms[a].sort == "I" for a, e in m) for m, _ in p.terms)
    if isint:
        # tighten: sum c_i m_i + c0 with gcd of the non-constant coefficients
        if op == "gt":
            p = scale(p, Fr(den)) - 1
            op = "ge"
            den = 1
        else:
            p = scale(p, Fr(den))
        g = 0
        c0 = 0
        for m, c in p.terms:
            if m == ():
                c0 = int(c)
            else:
                g = math.gcd(g, int(c))
        if op == "ge":
            d = {m: c / g for m, c in p.terms if m != ()}
            f = c0 // g
            if f:
                d[()] = Fr(f)
            p = mk_poly(d)
        else:
            if c0 % g:
                return FALSE
            p = scale(p, Fr(1, g))
    else:
        p = scale(p, k)
    if op == "eq" and lead_sign(p) < 0:
        p = -p
    return mk_bool(op, (p,))


def ge(a, b):
    return cmp0("ge", P(a) - P(b))


def gt(a, b):
    return cmp0("gt", P(a) - P(b))


def le(a, b):
    return ge(b, a)


def lt(a, b):
    return gt(b, a)


def eq(a, b):
    return cmp0("eq", P(a) - P(b))


def bvar(name):
    return mk_bool("bvar", (name,))


def bapp(name, args):
    return mk_bool("bapp", (name, tuple(args)))


# ------------------------------------------------------------------- lambdas
class Lam:
    """closed-over function of n bound integer variables; body Poly or Bool (or tuple)"""

    __slots__ = ("id", "vars", "body")

    def __repr__(self):
        return "\\" + ",".join(v.name for v in self.vars) + "." + repr(self.body)


def _level(t, memo):
    """max level of bound variables in t"""
    if isinstance(t, (Poly, Bool, Lam, Atom)):
        k = t.id
        if k in memo:
            return memo[k]
        memo[k] = 0
        if isinstance(t, Poly):
            r = max((_level(_atoms[a], memo) for m, _ in t.terms for a, _e in m), default=0)
        elif isinstance(t, Atom):
            if t.kind == "bound":
                r = t.args[0]
            else:
                r = max((_level(x, memo) for x in t.args), default=0)
        elif isinstance(t, Bool):
            r = max((_level(x, memo) for x in t.args), default=0)
        else:
            r = max(v.args[0] for v in t.vars)
            r = max(r, _level(t.body, memo))
        memo[k] = r
        return r
    if isinstance(t, tuple):
        return max((_level(x, memo) for x in t), default=0)
    return 0


def lam(n, f):
    """f: python function of n Poly index variables -> Poly/Bool/tuple"""
    ph = [mk_atom("var", fresh_name("ph"), (), "I") for _ in range(n)]
    body = f(*[atom_poly(a) for a in ph])
    base = _level(body, {})
    bv = [mk_atom("bound", f"b{base + 1 + i}", (base + 1 + i,), "I") for i in range(n)]
    body = subst(body, {a.id: atom_poly(v) for a, v in zip(ph, bv)})
    key = ("L", tuple(v.id for v in bv), body if not isinstance(body, tuple) else tuple(x.id for x in body))
    L = _intern.get(key)
    if L is None:
        L = Lam()
        L.id = _new_id()
        L.vars = tuple(bv)
        L.body = body
        _intern[key] = L
    return L


def lam_apply(L, *args):
    return subst(L.body, {v.id: P(a) for v, a in zip(L.vars, args)})


_substcache = {}


def subst(t, mp, memo=None):
    if memo is None:
        memo = {}
    return _subst(t, mp, memo)


def _subst(t, mp, memo):
    if isinstance(t, Poly):
        if t.is_const():
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        # substitute atoms; rebuild only if something changed
        new = {}
        changed = False
        for m, _ in t.terms:
            for a, e in m:
                if a not in new:
                    v = _subst_atom(_atoms[a], mp, memo)
                    new[a] = v
                    if v is not None:
                        changed = True
        if not changed:
            r = t
        else:
            r = ZERO
            acc = {}
            for m, c in t.terms:
                if all(new[a] is None for a, e in m):
                    acc[m] = acc.get(m, 0) + c
                else:
                    x = const(c)
                    for a, e in m:
                        b = new[a]
                        x = mul(x, ipow(b if b is not None else atom_poly(_atoms[a]), e))
                    for mm, cc in x.terms:
                        acc[mm] = acc.get(mm, 0) + cc
            r = mk_poly(acc)
        memo[t.id] = r
        return r
    if isinstance(t, Bool):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op in ("true", "false", "bvar"):
            r = mp.get(t.id, t)
        elif t.id in mp:
            r = mp[t.id]
        elif t.op in ("ge", "gt", "eq"):
            q = _subst(t.args[0], mp, memo)
            r = t if q is t.args[0] else cmp0(t.op, q)
        elif t.op == "not":
            r = Not(_subst(t.args[0], mp, memo))
        elif t.op == "and":
            r = And(*[_subst(x, mp, memo) for x in t.args])
        elif t.op == "or":
            r = Or(*[_subst(x, mp, memo) for x in t.args])
        elif t.op == "bapp":
            r = bapp(t.args[0], [_subst(x, mp, memo) for x in t.args[1]])
        elif t.op in ("any", "all"):
            r = mk_bool(t.op, (tuple(_subst(x, mp, memo) for x in t.args[0]), _subst(t.args[1], mp, memo)))
        else:
            raise Unsupported("subst " + t.op)
        memo[t.id] = r
        return r
    if isinstance(t, Lam):
        r = memo.get(t.id)
        if r is not None:
            return r
        if not free_hits(t, mp):
            r = t
        else:
            n = len(t.vars)
            r = lam(n, lambda *ix: _subst(subst(t.body, {v.id: i for v, i in zip(t.vars, ix)}), mp, {}))
        memo[t.id] = r
        return r
    if isinstance(t, tuple):
        return tuple(_subst(x, mp, memo) for x in t)
    return t


def free_hits(t, mp):
    """does t contain any atom/bool of mp?"""
    keys = set(mp)
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, (Poly, Bool, Lam, Atom)):
            if x.id in keys:
                return True
            if x.id in seen:
                continue
            seen.add(x.id)
            if isinstance(x, Poly):
                for m, _ in x.terms:
                    for a, _e in m:
                        st.append(_atoms[a])
            elif isinstance(x, Lam):
                st.append(x.body)
            else:
                st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return False


def _subst_atom(a, mp, memo):
    """None if unchanged"""
    v = mp.get(a.id)
    if v is not None:
        return v
    if a.kind in ("var", "bound"):
        return None
    k = ("a", a.id)
    if k in memo:
        return memo[k]
    new = tuple(_subst(x, mp, memo) for x in a.args)
    if all(x is y for x, y in zip(new, a.args)):
        r = None
    else:
        r = rebuild(a, new)
    memo[k] = r
    return r


def rebuild(a, new):
    if a.kind == "ite":
        return ite(*new)
    if a.kind == "inv":
        return inv(new[0])
    if a.kind == "fn":
        return fn(a.name, *new)
    if a.kind == "app":
        return mk_app(a.name, new, a.sort)
    if a.kind == "sum":
        return sum_(new[0], new[1])
    if a.kind == "ext":
        return extremum(a.name, new[0], new[1], a.sort)
    raise Unsupported("rebuild " + a.kind)


_app_hooks = {}


def mk_app(name, args, sort):
    h = _app_hooks.get(name)
    if h is not None:
        r = h(args)
        if r is not None:
            return r
    return app(name, args, sort)


# ------------------------------------------------------------------- sums
def sum_(bounds, L):
    """sum over the box prod [0, bounds_i) of the lambda body; linear normal form"""
    bounds = tuple(P(b) for b in bounds)
    body = L.body
    if any(b is ZERO for b in bounds):
        return ZERO
    # singleton axes are eliminated
    if any(b is ONE for b in bounds):
        keep = [i for i, b in enumerate(bounds) if b is not ONE]
        if not keep:
            return lam_apply(L, *[ZERO] * len(bounds))

        def g(*ix):
            full = [ZERO] * len(bounds)
            for i, x in zip(keep, ix):
                full[i] = x
            return lam_apply(L, *full)

        return sum_([bounds[i] for i in keep], lam(len(keep), g))
    # split the body into monomials, pull out factors free of the bound variables
    n = len(bounds)
    ph = [mk_atom("var", fresh_name("sv"), (), "I") for _ in range(n)]
    body = subst(body, {v.id: atom_poly(a) for v, a in zip(L.vars, ph)})
    phs = {a.id: True for a in ph}
    out = {}
    for m, c in body.terms:
        ins, outs = [], []
        for a, e in m:
            (ins if free_hits(_atoms[a], phs) else outs).append((a, e))
        out.setdefault(tuple(outs), {})[tuple(ins)] = c
    res = ZERO
    for outs, inner in out.items():
        op = mk_poly({outs: Fr(1)})
        for ins, c in inner.items():
            if not ins:
                t = ONE
                for b in bounds:
                    t = t * b
            else:
                p = mk_poly({ins: Fr(1)})
                # drop axes that do not occur? (sum over an axis the term ignores = multiply)
                used = [i for i, a in enumerate(ph) if free_hits(p, {a.id: True})]
                t = ONE
                for i, b in enumerate(bounds):
                    if i not in used:
                        t = t * b
                # a canonical order of axes: try as given
                l2 = lam(len(used), lambda *ix: subst(p, {ph[i].id: x for i, x in zip(used, ix)}))
                t = t * _sum_atom(tuple(bounds[i] for i in used), l2)
            res = res + op * t * c
    return res


def _sum_atom(bounds, L):
    # canonical axis order (sums over finite boxes commute)
    n = len(bounds)
    if n > 1:
        import itertools

        best = None
        for perm in itertools.permutations(range(n)):
            bb = tuple(bounds[i] for i in perm)

            def g(*ix, perm=perm):
                full = [None] * n
                for j, i in enumerate(perm):
                    full[i] = ix[j]
                return lam_apply(L, *full)

            l2 = lam(n, g)
            key = (tuple(b.id for b in bb), l2.id)
            if best is None or key < best[0]:
                best = (key, bb, l2)
        _, bounds, L = best
    sort = "I" if isinstance(L.body, Poly) and L.body.is_int else "R"
    return atom_poly(mk_atom("sum", "sum", (bounds, L), sort))


def extremum(which, bounds, L, sort="R"):
    """min/max of the body over a nonempty box"""
    bounds = tuple(P(b) for b in bounds)
    if isinstance(L.body, Poly) and not free_hits(L.body, {v.id: 1 for v in L.vars}):
        return L.body
    return atom_poly(mk_atom("ext", which, (bounds, L), sort))


def any_(bounds, L):
    bounds = tuple(P(b) for b in bounds)
    if L.body is FALSE or L.body is TRUE:
        return L.body  # nonempty boxes
    if not free_hits(L.body, {v.id: 1 for v in L.vars}):
        return L.body
    return mk_bool("any", (bounds, L))


def all_(bounds, L):
    return Not(any_(bounds, lam(len(L.vars), lambda *ix: Not(lam_apply(L, *ix)))))


# ------------------------------------------------------------- traversal
def walk(t, under_lam=False):
    """all atoms and Bool nodes reachable outside lambdas (or everywhere)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, (Poly, Bool, Lam, Atom)):
            if x.id in seen:
                continue
            seen.add(x.id)
            if isinstance(x, Poly):
                for m, _ in x.terms:
                    for a, _e in m:
                        st.append(_atoms[a])
            elif isinstance(x, Lam):
                if under_lam:
                    st.append(x.body)
            else:
                yield x
                st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)


# ------------------------------------------------------------- printing
def show(p, depth=0):
    if not p.terms:
        return "0"
    if depth > 6:
        return "..."
    out = []
    for m, c in p.terms[:12]:
        s = "*".join((show_atom(_atoms[a], depth + 1) + ("" if e == 1 else f"^{e}")) for a, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        else:
            out.append(f"{c}*{s}")
    if len(p.terms) > 12:
        out.append(f"...({len(p.terms)} terms)")
    return " + ".join(out)


def show_any(x, depth=0):
    if isinstance(x, Poly):
        return show(x, depth)
    if isinstance(x, Bool):
        return show_bool(x, depth)
    if isinstance(x, tuple):
        return "(" + ", ".join(show_any(y, depth) for y in x) + ")"
    if isinstance(x, Lam):
        return "\\" + ",".join(v.name for v in x.vars) + "." + show_any(x.body, depth + 1)
    return str(x)


def show_atom(a, depth=0):
    if a.kind in ("var", "bound"):
        return a.name
    if depth > 6:
        return "..."
    return f"{a.name}(" + ", ".join(show_any(x, depth + 1) for x in a.args) + ")"


def show_bool(b, depth=0):
    if depth > 6:
        return "..."
    if b.op == "ge":
        return f"({show(b.args[0], depth + 1)} >= 0)"
    if b.op == "gt":
        return f"({show(b.args[0], depth + 1)} > 0)"
    if b.op == "eq":
        return f"({show(b.args[0], depth + 1)} == 0)"
    if b.op in ("true", "false"):
        return b.op
    return f"{b.op}(" + ", ".join(show_any(x, depth + 1) for x in b.args) + ")"
