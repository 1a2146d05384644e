"""Scalars of the symbolic semantics.  A scalar is (value, missing-flag); values are
mathematical numbers (float rounding is an assumption of the whole development)."""
from fractions import Fraction as Fr
import math
import numbers
from . import terms as T
from .terms import (Poly, Bool, P, B, ZERO, ONE, TRUE, FALSE, And, Or, Not, ite, ge, gt, le, lt, eq, fn, const, BIte,
                    Unsupported)


class _Eng:
    cur = None


def ENG():
    return _Eng.cur


KIND_ORDER = {"b": 0, "i": 1, "f": 2, "c": 3}


def kmax(*ks):
    return max(ks, key=lambda k: KIND_ORDER[k])


class Sc:
    """numeric scalar"""

    __slots__ = ("re", "im", "nan", "kind", "np", "attrs_")
    __array_priority__ = 1000

    def __init__(self, re, nan=FALSE, kind="f", im=None, np=True):
        self.re, self.im, self.nan, self.kind, self.np = re, im, nan, kind, np

    # ---- numpy scalar surface
    ndim = 0
    shape = ()

    @property
    def real(self):
        return Sc(self.re, self.nan, "f" if self.kind == "c" else self.kind)

    @property
    def imag(self):
        return Sc(self.im if self.im is not None else ZERO, self.nan, "f")

    @property
    def dtype(self):
        from .npstub import DType

        return DType(self.kind)

    def item(self):
        return Sc(self.re, self.nan, self.kind, self.im, False)

    def astype(self, t, copy=True):
        from .npstub import kind_of_dtype

        return cast(self, kind_of_dtype(t))

    def tolist(self):
        return self.item()

    def copy(self):
        return self

    def min(self, *a, **k):
        return self

    max = min

    def sum(self, *a, **k):
        return self

    mean = sum

    def any(self, *a):
        return truth(self)

    all = any

    def is_integer(self):
        return eq_(Sc(fn("floor", self.re), self.nan), self)

    def clip(self, a=None, b=None, **k):
        from . import npstub

        return npstub.clip(self, a, b)

    def __array__(self, *a, **k):
        raise Unsupported("symbolic scalar handed to native numpy")

    def __repr__(self):
        return f"Sc({self.re!r})" + ("?" if self.nan is not FALSE else "")

    def __format__(self, spec):
        return f"<{T.show(self.re)[:40]}>"

    __str__ = __repr__

    def __hash__(self):
        if self.re.is_const():
            c = self.re.const
            return hash(int(c)) if c.denominator == 1 else hash(float(c))
        return hash(self.re.id)

    # ---- conversions
    def is_const(self):
        return self.re.is_const() and self.nan is FALSE and (self.im is None or self.im is ZERO)

    def __bool__(self):
        return ENG().fork(Or(self.nan, Not(eq(self.re, ZERO))))

    def __index__(self):
        if self.is_const() and self.re.const.denominator == 1:
            return int(self.re.const)
        raise Unsupported("symbolic integer used as a native index")

    def __int__(self):
        if self.is_const():
            return math.trunc(self.re.const)
        raise Unsupported("native int() of a symbolic value")

    def __float__(self):
        if self.is_const():
            return float(self.re.const)
        raise Unsupported("native float() of a symbolic value")

    def __round__(self, n=0):
        raise Unsupported("round")

    def __floor__(self):
        return Sc(fn("floor", self.re), self.nan, "i", np=False)

    def __ceil__(self):
        return Sc(fn("ceil", self.re), self.nan, "i", np=False)

    def __trunc__(self):
        return trunc(self)

    def _bin(self, op, o, rev=False):
        if not is_scalar(o):
            return NotImplemented
        o = lift(o)
        return binop(op, o, self) if rev else binop(op, self, o)

    def __add__(s, o): return s._bin("add", o)
    def __radd__(s, o): return s._bin("add", o, True)
    def __sub__(s, o): return s._bin("sub", o)
    def __rsub__(s, o): return s._bin("sub", o, True)
    def __mul__(s, o): return s._bin("mul", o)
    def __rmul__(s, o): return s._bin("mul", o, True)
    def __truediv__(s, o): return s._bin("div", o)
    def __rtruediv__(s, o): return s._bin("div", o, True)
    def __floordiv__(s, o): return s._bin("floordiv", o)
    def __rfloordiv__(s, o): return s._bin("floordiv", o, True)
    def __mod__(s, o): return s._bin("mod", o)
    def __rmod__(s, o): return s._bin("mod", o, True)
    def __pow__(s, o): return s._bin("pow", o)
    def __rpow__(s, o): return s._bin("pow", o, True)
    def __lt__(s, o): return s._bin("lt", o)
    def __le__(s, o): return s._bin("le", o)
    def __gt__(s, o): return s._bin("gt", o)
    def __ge__(s, o): return s._bin("ge", o)

    def __eq__(s, o):
        if o is None or isinstance(o, str):
            return False
        return s._bin("eq", o)

    def __ne__(s, o):
        if o is None or isinstance(o, str):
            return True
        return s._bin("ne", o)

    def __neg__(s): return Sc(-s.re, s.nan, "i" if s.kind == "b" else s.kind, None if s.im is None else -s.im, s.np)
    def __pos__(s): return s

    def __abs__(s):
        if s.im is not None and s.im is not ZERO:
            return Sc(fn("sqrt", s.re * s.re + s.im * s.im), s.nan, "f")
        return Sc(fn("abs", s.re), s.nan, "f" if s.kind == "c" else s.kind, None, s.np)


class SBool:
    """truth value (numpy bool scalar)"""

    __slots__ = ("b",)
    kind = "b"
    ndim = 0
    shape = ()
    nan = FALSE
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ENG().fork(self.b)

    def item(self):
        return self

    def __hash__(self):
        return hash(self.b.id)

    @property
    def dtype(self):
        from .npstub import DType

        return DType("b")

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def num(self):
        return Sc(ite(self.b, ONE, ZERO), FALSE, "i")

    def astype(self, t):
        from .npstub import kind_of_dtype

        return cast(self, kind_of_dtype(t))

    def __and__(s, o): return NotImplemented if not is_scalar(o) else SBool(And(s.b, truth(o).b))
    __rand__ = __and__
    def __or__(s, o): return NotImplemented if not is_scalar(o) else SBool(Or(s.b, truth(o).b))
    __ror__ = __or__
    def __invert__(s): return SBool(Not(s.b))

    def __xor__(s, o):
        if not is_scalar(o): return NotImplemented
        return SBool(Not(T.Iff(s.b, truth(o).b)))

    __rxor__ = __xor__

    def __eq__(s, o):
        if isinstance(o, (SBool, bool)):
            return SBool(T.Iff(s.b, truth(o).b))
        return s.num() == o

    def __ne__(s, o):
        r = s == o
        return ~r if isinstance(r, SBool) else not r

    def _n(s, op, o, rev=False):
        if not is_scalar(o): return NotImplemented
        return binop(op, lift(o), s.num()) if rev else binop(op, s.num(), lift(o))

    def __add__(s, o): return s._n("add", o)
    def __radd__(s, o): return s._n("add", o, True)
    def __sub__(s, o): return s._n("sub", o)
    def __rsub__(s, o): return s._n("sub", o, True)
    def __mul__(s, o): return s._n("mul", o)
    def __rmul__(s, o): return s._n("mul", o, True)
    def __lt__(s, o): return s._n("lt", o)
    def __gt__(s, o): return s._n("gt", o)
    def __le__(s, o): return s._n("le", o)
    def __ge__(s, o): return s._n("ge", o)
    def __truediv__(s, o): return s._n("div", o)
    def __repr__(s): return f"SBool({s.b!r})"


NAN = Sc(ZERO, TRUE, "f")


def is_scalar(x):
    return isinstance(x, (Sc, SBool, numbers.Number)) or (hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0
                                                          and type(x).__module__ == "numpy")


def lift(x):
    """anything scalar -> Sc (numbers) ; SBool -> numeric"""
    if isinstance(x, Sc):
        return x
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, bool):
        return Sc(const(int(x)), FALSE, "b", np=False)
    if isinstance(x, int):
        return Sc(const(x), FALSE, "i", np=False)
    if isinstance(x, Fr):
        return Sc(const(x), FALSE, "f", np=False)
    if isinstance(x, float):
        if math.isnan(x):
            return Sc(ZERO, TRUE, "f", np=False)
        return Sc(P(x), FALSE, "f", np=False)
    if isinstance(x, complex):
        return Sc(P(x.real), FALSE, "c", P(x.imag), np=False)
    if isinstance(x, Poly):
        return Sc(x, FALSE, "i" if x.is_int else "f")
    if isinstance(x, Bool):
        return SBool(x).num()
    if type(x).__module__ == "numpy" and getattr(x, "ndim", 1) == 0:
        return lift(x.item())
    raise Unsupported(f"scalar expected, got {type(x).__name__}")


def truth(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, bool):
        return SBool(B(x))
    if isinstance(x, Bool):
        return SBool(x)
    x = lift(x)
    return SBool(Or(x.nan, Not(eq(x.re, ZERO)), FALSE if x.im is None else Not(eq(x.im, ZERO))))


def cx(x):
    return x.im if x.im is not None else ZERO


def binop(op, a, b):
    nan = Or(a.nan, b.nan)
    k = kmax(a.kind, b.kind)
    np_ = a.np or b.np
    if op in ("add", "sub", "mul", "div"):
        kk = "i" if k == "b" else k
        if a.im is not None or b.im is not None:
            ai, bi = cx(a), cx(b)
            if op == "add":
                return Sc(a.re + b.re, nan, "c", ai + bi, np_)
            if op == "sub":
                return Sc(a.re - b.re, nan, "c", ai - bi, np_)
            if op == "mul":
                return Sc(a.re * b.re - ai * bi, nan, "c", a.re * bi + ai * b.re, np_)
            if bi is ZERO:
                return Sc(a.re / b.re, nan, "c", ai / b.re, np_)
            d = b.re * b.re + bi * bi
            return Sc((a.re * b.re + ai * bi) / d, nan, "c", (ai * b.re - a.re * bi) / d, np_)
        if op == "add":
            return Sc(a.re + b.re, nan, kk, None, np_)
        if op == "sub":
            return Sc(a.re - b.re, nan, kk, None, np_)
        if op == "mul":
            return Sc(a.re * b.re, nan, kk, None, np_)
        if b.re is ZERO:
            if not np_:
                raise ZeroDivisionError("division by zero")
            # numpy gives inf/nan; not a number the claims speak about
            return Sc(T.app("div0", (a.re,)), nan, "f", None, np_)
        return Sc(a.re / b.re, nan, "f", None, np_)
    if op in ("lt", "le", "gt", "ge"):
        r = {"lt": lt, "le": le, "gt": gt, "ge": ge}[op](a.re, b.re)
        return SBool(And(r, Not(nan)))
    if op in ("eq", "ne"):
        r = eq(a.re, b.re)
        if a.im is not None or b.im is not None:
            r = And(r, eq(cx(a), cx(b)))
        r = And(r, Not(nan))
        return SBool(r if op == "eq" else Not(r))
    if op == "floordiv":
        q = a.re / b.re if b.re is not ZERO else _zdiv()
        return Sc(fn("floor", q), nan, k if k != "b" else "i", None, np_)
    if op == "mod":
        q = a.re / b.re if b.re is not ZERO else _zdiv()
        return Sc(a.re - b.re * fn("floor", q), nan, k if k != "b" else "i", None, np_)
    if op == "pow":
        return pow_(a, b)
    raise Unsupported("operator " + op)


def _zdiv():
    raise ZeroDivisionError("integer division or modulo by zero")


def pow_(a, b):
    nan = Or(a.nan, b.nan)
    if b.re.is_const() and b.im is None:
        e = b.re.const
        if e.denominator == 1 and abs(e) <= 64:
            n = int(e)
            kind = a.kind if b.kind in "bi" else "f"
            if kind == "b":
                kind = "i"
            if n < 0 and kind == "i" and a.np:
                raise ValueError("Integers to negative integer powers are not allowed.")
            if a.im is not None:
                r = Sc(ONE, FALSE, "c", ZERO)
                for _ in range(abs(n)):
                    r = binop("mul", r, a)
                if n < 0:
                    r = binop("div", Sc(ONE), r)
                return Sc(r.re, nan, "c", r.im, a.np)
            if n == 0:
                return Sc(ONE, FALSE, kind)  # nan**0 == 1
            return Sc(a.re**n if n > 0 else T.inv(a.re)**(-n), nan, kind if n > 0 else "f", None, a.np or b.np)
        if e == Fr(1, 2):
            return mfun("sqrt", a)
        if e.denominator == 2 and abs(e) < 20:
            n = int(e - Fr(1, 2))
            s = mfun("sqrt", a)
            return Sc((a.re**n if n >= 0 else T.inv(a.re)**(-n)) * s.re, s.nan, "f")
    return Sc(fn("pow", a.re, b.re), nan, "f")


def mfun(name, x):
    """elementwise mathematical function"""
    if isinstance(x, SBool):
        x = x.num()
    if x.im is not None and x.im is not ZERO:
        if name == "conj":
            return Sc(x.re, x.nan, "c", -x.im)
        raise Unsupported(f"complex {name}")
    if name == "conj":
        return x
    nan = x.nan
    if name == "arccos" or name == "arcsin":
        nan = Or(nan, gt(fn("abs", x.re), ONE))
    elif name == "sqrt":
        nan = Or(nan, lt(x.re, ZERO))
    elif name == "log":
        nan = Or(nan, lt(x.re, ZERO))
    if name in ("floor", "ceil"):
        return Sc(fn(name, x.re), nan, "f")
    if name == "abs":
        return Sc(fn("abs", x.re), nan, x.kind)
    if name == "deg2rad" or name == "radians":
        return Sc(x.re * T.PI / 180, nan, "f")
    if name == "rad2deg" or name == "degrees":
        return Sc(x.re * 180 / T.PI, nan, "f")
    if name == "square":
        return Sc(x.re * x.re, nan, x.kind)
    if name == "sign":
        return Sc(ite(gt(x.re, ZERO), ONE, ite(lt(x.re, ZERO), -ONE, ZERO)), nan, x.kind)
    if name == "log10":
        return Sc(fn("log", x.re) / fn("log", const(10)), Or(nan, lt(x.re, ZERO)), "f")
    if name == "log2":
        return Sc(fn("log", x.re) / fn("log", const(2)), Or(nan, lt(x.re, ZERO)), "f")
    if name == "log1p":
        return Sc(fn("log", ONE + x.re), Or(nan, lt(x.re, -ONE)), "f")
    if name == "expm1":
        return Sc(fn("exp", x.re) - 1, nan, "f")
    if name == "reciprocal":
        return Sc(T.inv(x.re), nan, "f")
    if name == "cbrt":
        return Sc(fn("cbrt", x.re), nan, "f")
    return Sc(fn(name, x.re), nan, "f")


def trunc(x):
    x = lift(x)
    if x.re.is_int:
        return Sc(x.re, x.nan, "i", None, x.np)
    f = fn("floor", x.re)
    return Sc(ite(ge(x.re, ZERO), f, -fn("floor", -x.re)), x.nan, "i", None, x.np)


def cast(x, kind):
    if kind is None:
        return x
    if kind == "b":
        return truth(x)
    if isinstance(x, SBool):
        x = x.num()
    if kind == "i":
        if x.kind in "bi":
            return Sc(x.re, x.nan, "i")
        # casting a missing value to an integer gives an arbitrary integer
        t = trunc(x)
        if x.nan is FALSE:
            return Sc(t.re, FALSE, "i")
        return Sc(ite(x.nan, const(-(2**63)), t.re), FALSE, "i")
    if kind == "f":
        if x.im is not None:
            return Sc(x.re, x.nan, "f")
        return Sc(x.re, x.nan, "f")
    if kind == "c":
        return Sc(x.re, x.nan, "c", cx(x))
    return x


def select(c, a, b):
    """c: Bool; scalar merge"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(BIte(c, truth(a).b, truth(b).b))
    a, b = lift(a), lift(b)
    nan = BIte(c, a.nan, b.nan)
    k = kmax(a.kind, b.kind)
    # where an operand is missing its value part is irrelevant
    if a.nan is TRUE and b.nan is not TRUE:
        return Sc(b.re, nan, k, b.im)
    if b.nan is TRUE:
        return Sc(a.re, nan, k, a.im)
    im = None
    if a.im is not None or b.im is not None:
        im = ite(c, cx(a), cx(b))
    return Sc(ite(c, a.re, b.re), nan, k, im, a.np or b.np)


def eq_(a, b):
    return binop("eq", lift(a), lift(b))


def minmax2(which, a, b, nanprop=True):
    """np.minimum / np.maximum"""
    a, b = lift(a), lift(b)
    c = le(a.re, b.re) if which == "min" else ge(a.re, b.re)
    return Sc(ite(c, a.re, b.re), Or(a.nan, b.nan), kmax(a.kind, b.kind))


def agree(a, b):
    """Bool: a and b are the same result (both missing, or equal numbers)"""
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return T.Iff(truth(a).b, truth(b).b)
    a, b = lift(a), lift(b)
    e = eq(a.re, b.re)
    if a.im is not None or b.im is not None:
        e = And(e, eq(cx(a), cx(b)))
    if a.nan is b.nan:
        if a.nan is FALSE:
            return e
        return Or(a.nan, e)
    return And(T.Iff(a.nan, b.nan), Or(a.nan, b.nan, e))


def sc_subst(x, mp):
    if isinstance(x, SBool):
        return SBool(T.subst(x.b, mp))
    return Sc(T.subst(x.re, mp), T.subst(x.nan, mp), x.kind, None if x.im is None else T.subst(x.im, mp), x.np)
