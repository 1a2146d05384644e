"""Symbolic checking context: contracts become proof obligations over the real source."""
import inspect
import json
import sys
import time
import traceback
from fractions import Fraction as Fr
from . import terms as T
from .terms import *
from . import values as V
from .values import Sc, SBool, lift, truth, is_scalar, select, _Eng
from . import engine as EN
from .engine import Engine, PathAbort, SymList, SymSeq, SymStr, Obligation, P_, dim
from . import npstub as N, xrstub as X
from .prover import z3_check, STATS, feasible
from . import prover as PR
from .spec import Discard, Stop, SUMMARIES, CASES, words


def I(p):
    p = P_(p)
    if p.is_const():
        return int(p.const)
    return Sc(p, FALSE, "i", np=False)


def deliberate(e):
    """raised by a raise statement (of the code, or of a stub stating a dependency's behaviour),
    not by the symbolic machinery tripping over something it does not model"""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1]
    if (last.line or "").lstrip().startswith(("raise", "else: raise")) or " raise " in (last.line or ""):
        return True
    if "/vpy/" in last.filename:
        return False
    return not isinstance(e, (AttributeError, TypeError, NameError, RecursionError, NotImplementedError))


OPAQUE = ("CORR", "EOF_", "OPQ_", "STR_")


def opaque(t):
    return any(isinstance(x, T.Atom) and x.kind == "app" and str(x.name).startswith(OPAQUE) or
               isinstance(x, T.Bool) and x.op == "bapp" and str(x.args[0]).startswith(OPAQUE) for x in walk(t, True))


class Field:
    def __init__(self, E, shape, f, kind="f"):
        self.E, self.shape, self.f, self.kind = E, tuple(shape), f, kind

    def __call__(self, *ix):
        r = self.f(*[P_(i) for i in ix])
        return r if isinstance(r, (Sc, SBool)) else lift(r)


class SymE:
    sym = True
    case = None

    def __init__(self, eng):
        self.eng = eng
        self.reset()

    def reset(self):
        self.inputs = {}  # name -> info
        self.pk = []
        self.sym_idx = []
        self.used_names = set()

    # ------------------------------------------------------------ choices and inputs
    def pick(self, name, options):
        options = list(options)
        i = self.eng.choose(len(options), name)
        self.pk.append((name, options[i]))
        return options[i]

    def dim(self, name, lo=1, hi=None, hot=()):
        v = var(name, "I")
        self.eng.assume(ge(v, const(lo)))
        if hi is not None:
            self.eng.assume(le(v, const(hi)))
        self.inputs[name] = ("int",)
        return I(v)

    def int(self, name, lo=None, hi=None):
        v = var(name, "I")
        if lo is not None:
            self.eng.assume(ge(v, P_(lo)))
        if hi is not None:
            self.eng.assume(le(v, P_(hi)))
        self.inputs[name] = ("int",)
        return I(v)

    def real(self, name, lo=None, hi=None, nan=False, hot=(), kind="f", strict=False):
        return self.field(name, (), lo, hi, nan, hot, kind, strict)()

    def flag(self, name):
        b = bvar(name)
        self.inputs[name] = ("flag",)
        return SBool(b)

    def field(self, name, shape, lo=None, hi=None, nan=False, hot=(), kind="f", strict=False, plant=None):
        shape = tuple(shape)
        self.inputs[name] = ("field", len(shape))
        sort = "I" if kind == "i" else "R"

        def val(ix):
            return var(name, sort) if not shape else T.app(name, ix, sort)

        def rng(*ix):
            v = val(ix)
            cs = []
            if lo is not None:
                cs.append((gt if strict else ge)(v, P_(lo) if not isinstance(lo, Sc) else lo.re))
            if hi is not None:
                cs.append((lt if strict else le)(v, P_(hi) if not isinstance(hi, Sc) else hi.re))
            if plant is not None:
                here = And(*[eq(a, P_(b)) for a, b in zip(ix, plant[0])])
                pv = lift(plant[1])
                return BIte(here, eq(v, pv.re), And(*cs))
            return And(*cs)

        def el(*ix):
            nn = FALSE
            if nan:
                nn = bvar(name + "?") if not shape else T.bapp(name + "?", ix)
            return Sc(val(ix), nn, kind)

        if shape:
            if lo is not None or hi is not None or plant is not None:
                self.eng.ctx.elem[name] = rng
            if plant is not None:
                px = tuple(P_(i) for i in plant[0])
                self.eng.assume(Implies(And(*[And(ge(i, ZERO), lt(i, P_(n))) for i, n in zip(px, shape)]),
                                        eq(val(px), lift(plant[1]).re)))
        else:
            self.eng.assume(rng())
        f = Field(self, shape, el, kind)
        f.name = name
        return f

    def levels(self, name, n, lo=None, hi=None, increasing=True, hot=(), const_step=None):
        """strictly monotone 1-D coordinate"""
        f = self.field(name, (n,), lo, hi)
        L = lambda i: T.app(name, (i,))
        if increasing is not None:
            o = lt if increasing else gt
            self.eng.ctx.qfacts.append((name, 2, lambda i, j: Implies(And(ge(i, ZERO), lt(i, j), lt(j, P_(n))), o(L(i), L(j)))))
        return f

    def derive(self, shape, f, kind="f"):
        return Field(self, shape, lambda *ix: f(*[I(i) for i in ix]), kind)

    def assume(self, c):
        self.eng.assume(truth(c).b)

    def forall_assume(self, field, pred):
        """pred of every element of a field (element invariant)"""
        name = field.name
        old = self.eng.ctx.elem.get(name)

        def inv(*ix):
            p = truth(pred(*[I(i) for i in ix])).b
            return And(old(*ix), p) if old else p

        self.eng.ctx.elem[name] = inv

    # ------------------------------------------------------------ containers
    def box(self, kind, fld, dims=None, coords=None, attrs=None, name=None):
        if kind == "scalar":
            x = fld()
            return Sc(x.re, x.nan, x.kind, x.im, False)
        if kind == "npscalar":
            return fld()
        if kind == "list":
            sh = fld.shape

            def build(pre, d):
                n = sh[d]
                el = (lambda i: fld(*pre, P_(i)).item()) if d == len(sh) - 1 else (lambda i: build(pre + [P_(i)], d + 1))
                if isinstance(n, int):
                    return SymList([el(const(i)) for i in range(n)])
                l = SymList()
                l.sym = SymSeq(P_(n), el)
                return l

            return build([], 0)
        arr = N.SymArray(fld.shape, lambda *ix: fld(*ix), fld.kind)
        arr.st.inp = True
        if kind == "numpy":
            return arr
        if kind == "xarray":
            cs = {}
            for k, v in (coords or {}).items():
                if isinstance(v, tuple):
                    cs[k] = (v[0], self.box("numpy", v[1])) + ((dict(v[2]),) if len(v) > 2 else ())
                elif isinstance(v, (list, X.DataArray)):
                    cs[k] = v
                else:
                    cs[k] = self.box("numpy", v)
            return X.DataArray(arr, coords=cs, dims=dims, name=name, attrs=self.meta() if attrs is None else dict(attrs))
        raise Unsupported("container " + kind)

    def meta(self, base=None):
        """attributes: the given ones and every name the modules under contract mention"""
        d = dict(base or {})
        for f in self.case.funcs if self.case else ():
            for w in words(f.split(".")[0]):
                d.setdefault(w, "m1")
        return d

    def dataset(self, d, attrs=None):
        return X.Dataset(d, attrs=attrs)

    # ------------------------------------------------------------ results
    def isxr(self, o):
        return isinstance(o, X.DataArray)

    def isnp(self, o):
        return isinstance(o, N.SymArray) or (isinstance(o, (Sc, SBool)))

    def is_ndarray(self, o):
        return isinstance(o, N.SymArray)

    def is_num(self, o):
        return isinstance(o, (Sc, int, float, Fr))

    def shape(self, o):
        if isinstance(o, (Sc, SBool, int, float)):
            return ()
        if isinstance(o, (SymSeq,)):
            return (I(o.n),)
        if isinstance(o, SymList):
            return (I(o.sym.n),) if o.sym is not None else (len(o),)
        if isinstance(o, tuple):
            return (len(o),)
        return tuple(I(P_(d)) for d in o.shape)

    def at(self, o, *ix):
        if isinstance(o, X.DataArray):
            o = o._arr
        if isinstance(o, (Sc, SBool, int, float, complex)):
            return o
        if isinstance(o, SymList):
            r = o[ix[0]]
            return self.at(r, *ix[1:]) if len(ix) > 1 else r
        return o.get(*ix)

    def dims(self, o):
        return tuple(o.dims)

    def name(self, o):
        return o.name

    def attrs(self, o):
        return dict(o.attrs)

    def coord_names(self, o):
        return set(o._coords)

    def coord(self, o, k):
        c = o._coords[k]
        return c.arr

    def coord_dims(self, o, k):
        return tuple(o._coords[k].dims)

    def kind(self, o):
        o = o._arr if isinstance(o, X.DataArray) else o
        return o.kind if not isinstance(o, (int, float)) else ("i" if isinstance(o, int) else "f")

    # ------------------------------------------------------------ obligations
    def fail(self, label, why):
        self._obl(label, FALSE, why)

    def _obl(self, label, goal, note=""):
        t0 = time.time()
        self.eng.ctx_now = self.eng.ctx
        r = self.eng.prover.prove(self.eng.ctx, goal)
        d = {"label": label, "ok": r.ok, "how": r.how, "status": r.status, "secs": round(time.time() - t0, 3),
             "picks": dict((str(k), v) for k, v in self.pk), "note": note}
        if not r.ok:
            d["goal"] = T.show_bool(goal)[:1500]
            if r.residual is not None:
                d["residual"] = T.show_bool(r.residual)[:1500]
            d["model"] = self._concretise(r, goal)
            if d["model"] is None and r.status == "refuted":
                d["why_no_model"] = "no small model"
                if opaque(goal):
                    # two ways of computing what an uninterpreted dependency computes need not agree syntactically
                    d["status"] = "undecided"
        self.obls.append(d)

    def _concretise(self, r, goal):
        if isinstance(r.cex, tuple) and r.cex and r.cex[0] == "point":
            return {"ints": {}, "fields": {r.cex[1]: [[[], r.cex[2]]]}, "flags": {}}
        ctx = r.ctx or self.eng.ctx
        resid = r.residual if r.residual is not None else goal
        neg = [] if resid is FALSE else [Not(resid)]
        small = [le(var(n, "I"), const(5)) for n, i in self.inputs.items() if i[0] == "int"]
        m = None
        for extra, lin in ((small, False), (small, True)):
            try:
                s, m, enc = z3_check(ctx, neg + extra, 5000, linear=lin, want_model=True)
            except Exception:
                return None
            if m is not None:
                break
        if m is None:
            return None
        import z3
        out = {"ints": {}, "fields": {}, "flags": {}}

        def num(v):
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(Fr(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v):
                a = v.approx(20)
                return float(Fr(a.numerator_as_long(), a.denominator_as_long()))
            return None

        for n, info in self.inputs.items():
            if info[0] == "int":
                v = num(m.eval(z3.Int(n), model_completion=True))
                out["ints"][n] = v
            elif info[0] == "flag":
                out["flags"][n] = bool(z3.is_true(m.eval(z3.Bool("b_" + n), model_completion=True)))
            elif info[0] == "field":
                out["fields"][n] = []
        for key, ex in list(enc.cache.items()):
            if key[0] == "a":
                a = T._atoms[key[1]]
                if a.kind == "var" and a.name in out["fields"]:
                    out["fields"][a.name].append([[], num(m.eval(ex, model_completion=True))])
                elif a.kind == "app" and a.name in out["fields"]:
                    try:
                        ix = [num(m.eval(enc.poly(x, "I"), model_completion=True)) for x in a.args]
                    except Exception:
                        continue
                    out["fields"][a.name].append([ix, num(m.eval(ex, model_completion=True))])
        for key, ex in list(enc.cache.items()):
            if key[0] == "b":
                b = enc.bools[key[1]]
                if b.op == "bvar" and str(b.args[0]).endswith("?") and b.args[0][:-1] in out["fields"]:
                    if z3.is_true(m.eval(ex, model_completion=True)):
                        out["fields"][b.args[0][:-1]].append([[], None])
                elif b.op == "bapp" and str(b.args[0]).endswith("?") and b.args[0][:-1] in out["fields"]:
                    if z3.is_true(m.eval(ex, model_completion=True)):
                        ix = [num(m.eval(enc.poly(x, "I"), model_completion=True)) for x in b.args[1]]
                        out["fields"][b.args[0][:-1]].append([ix, None])
        return out

    def ok(self, label, cond):
        self._obl(label, truth(cond).b)

    def eq(self, label, a, b, tol=None, scale=None):
        if isinstance(a, N.SymArray) or isinstance(b, N.SymArray) or isinstance(a, X.DataArray):
            if isinstance(a, (N.SymArray, X.DataArray)) and a.ndim == 0:
                a = self.at(a)
            if isinstance(b, (N.SymArray, X.DataArray)) and b.ndim == 0:
                b = self.at(b)
        self._obl(label, V.agree(a, b))

    def eq_any(self, label, a, *bs, tol=None, scale=None):
        """a agrees with one of the values (the same one everywhere on the path)"""
        for b in bs[:-1]:
            n = len(self.obls)
            self.eq(label, a, b)
            if self.obls[-1]["ok"]:
                return
            del self.obls[n:]
        self.eq(label, a, bs[-1])

    def le(self, label, a, b, tol=None):
        a, b = lift(a), lift(b)
        self._obl(label, And(le(a.re, b.re), Not(a.nan), Not(b.nan)))

    def same(self, label, a, b):
        """equality of plain Python values (names, dims, attrs, shapes)"""
        self._obl(label, self._same(a, b), f"{a!r:.200} vs {b!r:.200}")

    def _same(self, a, b):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            r = (a == b) if isinstance(a, SymStr) else (b == a)
            return truth(r).b
        if is_scalar(a) and is_scalar(b) and not isinstance(a, str):
            return V.agree(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return FALSE
            return And(*[self._same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return FALSE
            return And(*[self._same(a[k], b[k]) for k in a])
        if isinstance(a, N.SymArray) or isinstance(b, N.SymArray):
            if not (isinstance(a, N.SymArray) and isinstance(b, N.SymArray)) or a.ndim != b.ndim:
                return FALSE
            return self._arr_same(a, b.shape, b.snapshot())
        return TRUE if a == b else FALSE

    def points(self, shape):
        ix = []
        for d in shape:
            k = var(fresh_name("pt"), "I")
            self.eng.assume(And(ge(k, ZERO), lt(k, P_(d))))
            ix.append(I(k))
        yield tuple(ix)

    def index(self, name, n):
        """an arbitrary index below n"""
        return self.int(name, 0, lift(n) - 1)

    # ------------------------------------------------------------ calls
    def get(self, q):
        mod, f = q.split(".")
        m = self.eng.load(mod)
        fn = getattr(m, f, None)
        if fn is None:
            raise Unsupported(f"{q} no longer exists")
        return fn

    def has(self, q):
        mod, f = q.split(".")
        return hasattr(self.eng.load(mod), f)

    def _run(self, q, a, k):
        fn = self.get(q)
        snap = [self._snap(x) for x in list(a) + list(k.values())]
        self.eng.warnings = []
        self.eng.events = []
        save = set(self.eng.active_contracts)
        self.eng.active_contracts.add(q)
        self._top = q
        try:
            try:
                out = ("value", self.eng.call(fn, *a, **k))
            except Exception as e:
                if not isinstance(e, (Unsupported, PathAbort)) and not deliberate(e):
                    raise Unsupported(f"{type(e).__name__} in the symbolic run: {e}") from e
                out = ("raise", e)
        finally:
            self.eng.active_contracts = save
        for s in snap:
            self._check_snap(s, q)
        return out

    def call(self, q, *a, **k):
        kind, v = self._run(q, a, k)
        if kind == "raise":
            tb = traceback.extract_tb(v.__traceback__)
            loc = [f"{x.filename.split('/')[-1]}:{x.lineno}" for x in tb[-3:]]
            self._obl(f"{q} accepts the request", FALSE, f"{type(v).__name__}: {v} at {loc}")
            raise PathAbort()
        return v

    def try_call(self, q, *a, **k):
        return self._run(q, a, k)

    def raises(self, label, types, q, *a, **k):
        kind, v = self._run(q, a, k)
        if kind == "raise" and isinstance(v, types):
            self._obl(label, TRUE)
        else:
            self._obl(label, FALSE, f"{kind}: {v!r:.200}")

    def frame(self, q, *objs):
        """(also done by call) the listed objects are unchanged"""

    def _snap(self, x):
        if isinstance(x, N.SymArray):
            return ("arr", x, x.st, x.st.f, x.shape)
        if isinstance(x, X.DataArray):
            return ("xr", x, x._arr, x._arr.st, x._arr.st.f, dict(x.attrs), dict(x._coords),
                    {k: (c.arr, c.arr.st.f, dict(c.attrs)) for k, c in x._coords.items()}, x.dims, x.name)
        if isinstance(x, X.Dataset):
            return ("ds", x, [self._snap(v) for v in x._vars.values()], dict(x.attrs), list(x._vars))
        if isinstance(x, SymList):
            return ("list", x, x.sym, list(list.__iter__(x)))
        if isinstance(x, dict):
            return ("dict", x, dict(x))
        return ("other", x)

    def _arr_same(self, arr, sh, f):
        cs = []
        ix = []
        pre = []
        for a, b in zip(arr.shape, sh):
            cs.append(eq(P_(a), P_(b)))
            k = var(fresh_name("fr"), "I")
            pre.append(And(ge(k, ZERO), lt(k, P_(b))))
            ix.append(k)
        g = arr.snapshot()
        return And(*cs, Implies(And(*pre), V.agree(g(*ix), f(*ix))))

    def _st_same(self, st, f):
        if st.f is f:
            return TRUE
        ix, pre = [], []
        for b in st.shape:
            k = var(fresh_name("fr"), "I")
            pre.append(And(ge(k, ZERO), lt(k, P_(b))))
            ix.append(k)
        return Implies(And(*pre), V.agree(st.f(*ix), f(*ix)))

    def _check_snap(self, s, q):
        lab = f"{q} leaves its inputs unchanged"
        if s[0] == "arr":
            self._obl(lab, And(B(len(s[1].shape) == len(s[4])), self._st_same(s[2], s[3])))
        elif s[0] == "xr":
            _, x, arr, st, f, at, co, cf, dims, name = s
            g = self._st_same(st, f) if x._arr.st is st else self._arr_same(x._arr, arr.shape, f)
            good = x.dims == dims and x.name == name and list(x._coords) == list(co) and _pyeq(x.attrs, at)
            self._obl(lab, And(B(bool(good)), g), f"attrs {x.attrs} was {at}")
            for k, (ca, fo, cat) in cf.items():
                c = x._coords.get(k)
                if c is None:
                    continue
                gg = self._st_same(ca.st, fo) if c.arr.st is ca.st else self._arr_same(c.arr, ca.shape, fo)
                self._obl(lab + f" (coordinate {k})", And(B(_pyeq(c.attrs, cat)), gg))
        elif s[0] == "ds":
            self._obl(lab, B(list(s[1]._vars) == s[4] and _pyeq(s[1].attrs, s[3])))
            for y in s[2]:
                self._check_snap(y, q)
        elif s[0] == "list":
            self._obl(lab, B(s[1].sym is s[2] and len(list(list.__iter__(s[1]))) == len(s[3]) and
                             all(p is r for p, r in zip(list.__iter__(s[1]), s[3]))))
        elif s[0] == "dict":
            self._obl(lab, B(_pyeq(s[1], s[2])))

    def warned(self):
        return list(self.eng.warnings)

    # ------------------------------------------------------------ mathematics
    pi = property(lambda s: Sc(T.PI, FALSE, "f"))
    nan = V.NAN

    def exp(s, x): return V.mfun("exp", lift(x))
    def log(s, x): return V.mfun("log", lift(x))
    def sqrt(s, x): return V.mfun("sqrt", lift(x))
    def sin(s, x): return V.mfun("sin", lift(x))
    def cos(s, x): return V.mfun("cos", lift(x))
    def tan(s, x): return V.mfun("tan", lift(x))
    def asin(s, x): return V.mfun("arcsin", lift(x))
    def acos(s, x): return V.mfun("arccos", lift(x))
    def atan(s, x): return V.mfun("arctan", lift(x))
    def floor(s, x): return V.mfun("floor", lift(x))
    def abs(s, x): return abs(lift(x))
    def num(s, x): return lift(x)

    def pow(s, x, y): return V.binop("pow", lift(x), lift(y))

    def frac(s, a, b):
        return Sc(const(Fr(a, b)), FALSE, "f")

    def min(s, a, b): return V.minmax2("min", a, b)
    def max(s, a, b): return V.minmax2("max", a, b)

    def ite(s, c, a, b):
        c = truth(c).b
        if callable(a) or callable(b):
            a = a() if callable(a) and c is not FALSE else (V.NAN if callable(a) else a)
            b = b() if callable(b) and c is not TRUE else (V.NAN if callable(b) else b)
        return select(c, a, b)

    def isnan(s, x): return SBool(lift(x).nan)
    def And(s, *c): return SBool(And(*[truth(x).b for x in c]))
    def Or(s, *c): return SBool(Or(*[truth(x).b for x in c]))
    def Not(s, c): return SBool(Not(truth(c).b))
    def implies(s, a, b): return s.Or(s.Not(a), b)

    def sum(s, n, f):
        if isinstance(n, int):
            r = lift(0)
            for i in range(n):
                r = r + f(i)
            return r
        L = lam(1, lambda i: lift(f(I(i))).re)
        nn = any_((P_(n),), lam(1, lambda i: lift(f(I(i))).nan))
        p = f(I(var("probe_sum", "I")))
        if lift(p).im is not None:
            return Sc(sum_((P_(n),), L), nn, "c", sum_((P_(n),), lam(1, lambda i: V.cx(lift(f(I(i)))))))
        return Sc(sum_((P_(n),), L), nn, lift(p).kind)

    def extremum(s, which, n, f):
        if isinstance(n, int):
            r = lift(f(0))
            for i in range(1, n):
                r = V.minmax2(which, r, f(i))
            return r
        nn = any_((P_(n),), lam(1, lambda i: lift(f(I(i))).nan))
        return Sc(extremum(which, (P_(n),), lam(1, lambda i: lift(f(I(i))).re), "R"), nn, "f")

    def exists(s, n, f):
        if isinstance(n, int):
            return s.Or(*[f(i) for i in range(n)])
        return SBool(any_((P_(n),), lam(1, lambda i: truth(f(I(i))).b)))

    def forall(s, n, f):
        return s.Not(s.exists(n, lambda i: s.Not(f(i))))

    def table(s, values, k):
        """values[k] for a symbolic index in range"""
        return N.const_array([lift(v) for v in values], "f").get(lift(k).re)

    def eq_(s, a, b):
        return SBool(eq(lift(a).re, lift(b).re))

    def pyfloat(s, x):
        x = lift(x)
        return Sc(x.re, x.nan, "f", None, False)

    def lemma(s, label, concl, hyps, why):
        """trusted mathematical facts `hyps` (named in the evidence); the conclusion is an obligation"""
        s.eng.trusted.add("mathematical fact: " + why)
        for h in hyps:
            s.assume(h)
        s.ok(label, concl)
        s.assume(concl)

    def is_levels(s, x):
        return isinstance(x, (N.SymArray, X.DataArray)) and x.ndim == 1

    def plain(s, x):
        return x._arr if isinstance(x, X.DataArray) else x

    def array(s, shape, f, kind="f"):
        return N.SymArray(tuple(shape), lambda *ix: lift(f(*[I(i) for i in ix])), kind)

    def require_monotone(s, label, p, n, dec):
        i, j = var(fresh_name("mi"), "I"), var(fresh_name("mj"), "I")
        c = lift(p(I(i))) > lift(p(I(j))) if dec else lift(p(I(i))) < lift(p(I(j)))
        s._obl(label, Implies(And(ge(i, ZERO), lt(i, j), lt(j, P_(n))), truth(c).b))

    def sum_by_induction(s, label, n, f, closed):
        """sum_{k<n} f(k), after proving sum_{k<m} f(k) = closed(m) by induction on m"""
        s._obl(label + " (base)", V.agree(lift(closed(0)), lift(0)))
        k = var(fresh_name("ind"), "I")
        save = s.eng.ctx
        s.eng.ctx = save.plus(ge(k, ZERO), lt(k, P_(n)))
        s.eng._known = {}
        s._obl(label + " (step)", V.agree(lift(closed(I(k) + 1)), lift(closed(I(k))) + lift(f(I(k)))))
        s.eng.ctx = save
        s.eng._known = {}
        s.eng.trusted.add("induction over the number of summands")
        return closed(n)

    def branch(s, c):
        """fork the path on a condition of the specification"""
        return bool(truth(c))

    def known(s, c):
        return s.eng.known(truth(c).b)

    def filtered(s, n, f, keep, t):
        """real part at t of the inverse DFT of the DFT of f with the bins outside keep zeroed"""
        return N.filtered(P_(n), lambda i: lift(f(I(i))), lambda k: truth(keep(I(k))).b, P_(t))

    def half(s, x):
        return Sc(lift(x).re / 2, FALSE, "i", None, False)

    def _rag(s, h):
        """degree and order at position h of the list of pairs (n, m), 0 <= m <= n, n = 0, 1, ..."""
        EN.rag_facts(s.eng)
        key = lam(1, lambda k: k + 1)
        s.eng.trusted.add("enumeration of (outer, inner) pairs of a nested append loop by position (bijection lemma)")
        return T.app("rag_n", (key, h), "I"), T.app("rag_m", (key, h), "I")

    def harmonics(s, N):
        h = var(fresh_name("h"), "I")
        s.eng.assume(And(ge(h, ZERO), lt(h, (P_(N) + 1) * (P_(N) + 2) / 2)))
        n, m = s._rag(h)
        yield I(n), I(m), I(h)

    def harmonic_sum(s, N, term):
        K = (P_(N) + 1) * (P_(N) + 2) / 2

        def f(h):
            n, m = s._rag(h)
            return lift(term(I(n), I(m), I(h)))
        return s._sum((K,), f)

    def sum2(s, sh, f):
        return s._sum(tuple(P_(x) for x in sh), lambda j, i: lift(f(I(j), I(i))))

    def _sum(s, sh, f):
        k = len(sh)
        re = T.sum_(sh, lam(k, lambda *ix: f(*ix).re))
        im = T.sum_(sh, lam(k, lambda *ix: V.cx(f(*ix))))
        nn = any_(sh, lam(k, lambda *ix: f(*ix).nan))
        return Sc(re, nn, "c" if im is not ZERO else "f", im if im is not ZERO else None)

    def sph(s, n, m, polar, azimuth):
        from .stubs import ylm
        a, b, c, d = map(lift, (n, m, polar, azimuth))
        return ylm(a.re, b.re, c.re, d.re)

    def complex(s, a, b):
        return Sc(lift(a).re, FALSE, "c", lift(b).re)

    def re(s, z): return Sc(z.re, z.nan, "f")
    def im(s, z): return Sc(V.cx(z), z.nan, "f")

    def grid_interp(s, method, sh, la, lo, f, fill, ty, tx):
        """bilinear (nearest) interpolation of f(j, i) on the grid la(j), lo(i) at (ty, tx); fill outside"""
        return X.interp_grid(method, tuple(P_(x) for x in sh), [lambda j: lift(la(I(j))), lambda i: lift(lo(I(i)))],
                             lambda j, i: lift(f(I(j), I(i))), fill, [ty, tx])

    def voronoi(s, sh, th, ph, j, i):
        """area of the cell of grid point (j, i) among all grid points on the unit sphere"""
        sh = tuple(P_(x) for x in sh)
        flat = lambda f: N.reshape(N.SymArray(sh, lambda a, b: lift(f(I(a), I(b))), "f"), (I(sh[0]) * I(sh[1]),))
        t, p = flat(th).snapshot(), flat(ph).snapshot()
        c = lambda n, f, k: fn(n, lift(f(k)).re)
        L = (lam(1, lambda k: c("sin", p, k) * c("sin", t, k)), lam(1, lambda k: c("sin", p, k) * c("cos", t, k)),
             lam(1, lambda k: c("cos", p, k)))
        n = sh[0] * sh[1]
        arr = N.SymArray((I(n),), lambda k: Sc(T.app("VORONOI", ((n,), *L, ONE, k))), "f")
        return N.reshape(arr, (I(sh[0]), I(sh[1]))).get(P_(j), P_(i))

    # ------------------------------------------------------------ names and arbitrary arguments
    def strings(s, name, shape, pool=None, distinct=False, maybe=1.0):
        """unknown strings, one per index"""
        if shape:
            f = lambda *k: T.app("STR_" + name, tuple(P_(i) for i in k), "I")
        else:
            f = lambda: var("STR_" + name, "I")
        g = lambda *k: SymStr(f(*k))
        g.code = f
        return g

    def string_list(s, n, f):
        l = SymList()
        l.sym = SymSeq(P_(n), lambda k: f(I(k)))
        return l

    def nonempty(s, x):
        s.eng.assume(Not(x.eq_const("")))
        return x

    def caps(s, x, sep):
        """every part between separators capitalised"""
        seq = x.split(sep)
        return EN.sym_join(sep, SymSeq(seq.n, lambda k: seq.elem(k).capitalize()))

    def streq(s, a, b):
        return SBool(a.eq_const(b) if isinstance(a, SymStr) else b.eq_const(a))

    def str_at(s, j, opts):
        """opts[j]"""
        r = opts[-1]
        for q in range(len(opts) - 2, -1, -1):
            r = EN.merge(eq(P_(j), const(q)), opts[q], r)
        return r

    def named(s, n, name, attrs, pool=None):
        return EN.SymNames(n, name.code, {k: v.code for k, v in attrs.items()})

    def holds_name(s, ds, x):
        return SBool(ds.member(x))

    def divmod(s, h, m):
        q, r = EN.divmod_(P_(h), const(m))
        return I(q), I(r)

    def first(s, n, pred):
        """least index with pred (which must exist)"""
        return I(EN.first_index(P_(n), lam(1, lambda k: truth(pred(I(k))).b)))

    def anything(s, name):
        return EN.Opq(name)

    def capture(s, q, wrapper, a, k):
        """run wrapper(*a, **k) with q replaced by a recorder: (calls, result, the recorder's result)"""
        calls, token = [], EN.Opq("result of " + q)
        base = s.get(q)

        def use(en, f, a_, k_):
            calls.append(s.bound(q, a_, k_))
            return token

        save = s.eng.contracts.get(q)
        s.eng.contracts[q] = use
        try:
            out = s.call(wrapper, *a, **k)
        finally:
            if save is None:
                del s.eng.contracts[q]
            else:
                s.eng.contracts[q] = save
        return calls, out, token

    def bound(s, q, a, k):
        b = inspect.signature(s.get(q)).bind(*a, **k)
        b.apply_defaults()
        return dict(b.arguments)

    def identical(s, label, got, want):
        """the very same objects"""
        good = set(got) == set(want) and all(got[x] is want[x] or (not isinstance(got[x], EN.Opq) and not isinstance(
            want[x], EN.Opq) and type(got[x]) is type(want[x]) and _pyeq(got[x], want[x])) for x in want)
        s._obl(label, TRUE if good else T.bapp("OPQ_same", ()), f"{got!r:.200} vs {want!r:.200}")

    def reads_arguments(s, q):
        """does the body of q mention any of its parameters?"""
        import dis
        f = s.get(q)
        co = f.__code__
        ps = set(co.co_varnames[:co.co_argcount + co.co_kwonlyargcount + bool(co.co_flags & 4) + bool(co.co_flags & 8)])
        if any(i.argval in ps for i in dis.get_instructions(co)) or bool(set(co.co_cellvars) & ps) or bool(
                {"locals", "vars", "eval", "exec"} & set(co.co_names)):
            raise Unsupported(f"{q} reads its arguments: one run no longer stands for every argument list")
        return False

    def eof(s, sh, f, w, center, ddof):
        from . import stubs
        return stubs.EofAnalysis(tuple(sh), lambda *k: lift(f(*[I(i) for i in k])),
                                 None if w is None else (lambda *k: lift(w(*[I(i) for i in k]))), center, ddof)

    def val(s, o):
        """a number, or the array of numbers of a labelled array"""
        return o._arr if isinstance(o, X.DataArray) else o

    def corr(s, sh, a, b, w=None, skipna=False):
        """weighted Pearson correlation of the pairs (a(*ix), b(*ix)), ix in the box sh, taken in row-major order"""
        from . import stubs
        n = ONE
        for d in sh:
            n = n * P_(d)
        g = lambda f: None if f is None else stubs.flatten(tuple(sh), lambda *k: lift(f(*[I(i) for i in k])))
        return stubs.corr(n, g(a), g(b), g(w), skipna)

    def derivative(s, f, x, name, h):
        """exact derivative of a polynomial in the input `name`"""
        p = lift(f(x)).re
        v = var(name)
        (m, _c), = v.terms
        aid = m[0][0]
        d = {}
        for m, c in p.terms:
            e = dict(m)
            k = e.pop(aid, 0)
            if any(aid in [a.id for a in walk(atom_poly(T._atoms[b])) if isinstance(a, T.Atom)] for b in e):
                raise Unsupported("derivative of a non-polynomial")
            if k:
                if k != 1:
                    e[aid] = k - 1
                mm = tuple(sorted(e.items()))
                d[mm] = d.get(mm, 0) + c * k
        return Sc(T.mk_poly(d), FALSE, "f")

    def distinct_from_integers(s, *xs):
        pass

    def discard(s):
        raise Discard()

    def interp(s, log, tgt, n, fx, fy):
        """piecewise-linear interpolation of (fx(k), fy(k)), k < n, at tgt (in ln x when log)"""
        from .stubs import interp_app
        return interp_app(log, lift(tgt).re, P_(n), lambda k: fx(I(k)), lambda k: fy(I(k)))

    # unstructured grids (zonal means are uninterpreted)
    def mesh(s, name, lats):
        from . import stubs
        g = stubs.Mesh(name, s.dim("n_face"), s.field(name + "_lat", (s.dim("n_lat"),), -90, 90))
        g.lat = "given latitudes"
        return g

    def mesh_array(s, g, fld, dims, coords=None, attrs=None, name=None):
        from . import stubs
        b = s.box("xarray", fld, dims=dims, coords=coords, attrs=attrs or {}, name=name)
        r = stubs.UxDataArray(b, uxgrid=g)
        r.attrs = b.attrs
        return r

    def mesh_dataset(s, g, d):
        from . import stubs
        for k, v in d.items():
            v.name = k
        xc = {}
        for v in d.values():
            xc.update({k: v._coord(k) for k in v._coords})
        return stubs.UxDataset(d, coords=xc, uxgrid=g)

    def zonal(s, g, sh, f):
        """zonal means of the face values f(*leading, face): function of (*leading, latitude)"""
        from . import stubs
        return lambda *ix: stubs.zonal_app(g.tag, g.nf, lambda k: f(*[I(P_(i)) for i in ix[:-1]], I(k)), P_(ix[-1]), g.clean)

    def zonal_complete(s, g, f, pred=None):
        """assume: the zonal means of the field f exist (and satisfy pred)"""
        g.clean.add(f.name)
        nm = f"OPQ_ZONAL_{g.tag}:{f.name}"
        if pred:
            s.eng.ctx.elem[nm] = lambda *ix: truth(pred(Sc(T.app(nm, ix), FALSE, "f"))).b

    def zonal_missing(s, g, f, *ix):
        """assume: one zonal mean of f does not exist"""
        s.eng.assume(T.bapp(f"OPQ_ZONAL_{g.tag}:{f.name}?", tuple(P_(lift(i).re) for i in ix)))

    def app(s, name, *args):
        return Sc(T.app(name, tuple(args)), FALSE, "f")

    def with_missing(s, v, c):
        return Sc(v.re, truth(c).b, v.kind)

    def used(s, q):
        """was the contract of q used instead of its body?"""
        return q in s.eng.used

    def labelled(s, *a):
        return all(isinstance(x, (X.DataArray, Sc)) for x in a)

    def elementwise(s, f, *args):
        """value of an elementwise helper for scalar, array or labelled arguments"""
        if any(isinstance(a, X.DataArray) for a in args):
            return X.apply(lambda *v: N.emap(lambda *w: f(*[lift(x) for x in w]), *v, kind="f"), *args)
        if any(isinstance(a, N.SymArray) for a in args):
            return N.emap(lambda *v: f(*[lift(x) for x in v]), *args, kind="f")
        return f(*[lift(a) for a in args])


def _pyeq(a, b):
    if type(a) is not type(b) and not (isinstance(a, dict) and isinstance(b, dict)):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(_pyeq(a[k], b[k]) for k in a)
    if isinstance(a, (Sc, SBool, N.SymArray, X.DataArray)):
        return a is b
    return a == b


def run_case(cid, time_limit=60.0, total=300.0, no_contracts=(), max_paths=2000):
    """prove one case; returns a JSON-able record"""
    sys.setrecursionlimit(20000)
    from .spec import load_all
    load_all()
    c = CASES[cid]
    t0 = time.time()
    eng = Engine(time_limit=min(time_limit, total))
    eng.max_paths = max_paths
    eng.deadline = t0 + total
    E = SymE(eng)
    E.case = CASES[cid]
    eng.require = lambda label, goal: E._obl(label, goal)
    _Eng.cur = eng

    if c.modular:
        for q, (fn, by) in SUMMARIES.items():
            if q in no_contracts or by == cid:
                continue

            def use(en, f, a, k, fn=fn):
                try:
                    b = inspect.signature(f).bind(*a, **k)
                    b.apply_defaults()
                    return fn(E, *b.args, **b.kwargs)
                except TypeError:
                    return NotImplemented

            eng.contracts[q] = use
    res = {"case": cid, "obls": [], "paths": 0, "reachable": 0, "unsupported": [], "errors": []}

    def body():
        E.reset()
        E.obls = []
        N.install_invariants(eng.ctx)
        try:
            c.fn(E)
        except Stop:
            pass
        except Discard:
            raise PathAbort()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            u = Unsupported(f"{type(e).__name__} while the contract is evaluated: {str(e)[:200]}")
            raise u from e

    try:
        for out, info in eng.explore(body):
            res["obls"].extend(E.obls)
            if out == "unsupported":
                tb = [x for x in traceback.extract_tb((info.__cause__ or info).__traceback__)]
                loc = [f"{x.filename.split('/')[-1]}:{x.lineno}" for x in tb if "/geocat/" in x.filename or "contracts" in x.filename]
                loc += [f"{x.filename.split('/')[-1]}:{x.lineno}" for x in tb[-3:]]
                res["unsupported"].append({"why": str(info), "at": loc[-6:], "picks": dict((str(k), v) for k, v in E.pk)})
            elif out == "done":
                res["paths"] += 1
                if z3_check(eng.ctx, [], 2000) != "unsat":
                    res["reachable"] += 1
            if time.time() > t0 + total:
                res["unsupported"].append({"why": "time limit", "picks": {}})
                break
    except Unsupported as u:
        res["unsupported"].append({"why": str(u), "picks": {}})
    except Exception as e:
        res["errors"].append(traceback.format_exc()[-3000:])
    res["seconds"] = round(time.time() - t0, 2)
    res["used_contracts"] = sorted(eng.used)
    res["functions"] = sorted(eng.covered)
    res["trusted"] = sorted(eng.trusted)
    res["stats"] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in STATS.items()}
    res["cvc5_disagree"] = PR.CVC5_DISAGREE
    return res


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("case")
    ap.add_argument("--out")
    ap.add_argument("--limit", type=float, default=60)
    ap.add_argument("--total", type=float, default=300)
    ap.add_argument("--no", default="")
    ap.add_argument("--cvc5", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from vpy import sym as me
    if a.cvc5:
        PR.CVC5[0] = True
    r = me.run_case(a.case, a.limit, a.total, tuple(x for x in a.no.split(",") if x))
    if a.out:
        json.dump(r, open(a.out, "w"), default=str)
    if a.v or not a.out:
        from collections import Counter
        print(a.case, "paths", r["paths"], "reach", r["reachable"], "obls", len(r["obls"]), "failed",
              sum(not o["ok"] for o in r["obls"]), "secs", r["seconds"], "used", r["used_contracts"])
        print(Counter(o["how"] for o in r["obls"]))
        for u in r["unsupported"][:6]:
            print("  UNSUPPORTED", u)
        for u in r["errors"][:3]:
            print("  ERROR", u)
        for o in [o for o in r["obls"] if not o["ok"]][:6]:
            print("  FAIL", json.dumps(o, default=str)[:1800])
