"""Modules the verified code imports: assumed contracts of the dependencies."""
import math
import types
import typing
import builtins
from . import terms as T
from .terms import *
from . import values as V
from .prover import Prover
from .values import Sc, SBool, lift, truth, is_scalar, _Eng, mfun
from . import npstub, xrstub
from .npstub import SymArray, P_, dim, ENG, asarray

_mods = {}


class Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n}")


def stub(name):
    def d(f):
        _mods[name] = f
        return f
    return d


_built = {}


def get(name):
    if name not in _built:
        f = _mods.get(name)
        if f is None:
            return None
        _built[name] = f()
    return _built[name]


def import_(name, fromlist=()):
    full = get(name)
    if full is None:
        if name in ("typing", "__future__", "collections", "functools", "itertools", "collections.abc", "numbers", "enum",
                    "dataclasses", "operator", "abc", "types", "re", "textwrap", "copy"):
            return builtins.__import__(name, fromlist=fromlist or ())
        raise Unsupported(f"import of {name}")
    if fromlist:
        return full
    return get(name.split(".")[0])


@stub("numpy")
def _np():
    return npstub.module()


@stub("numpy.fft")
def _npfft():
    return npstub.fft


@stub("xarray")
def _xr():
    return xrstub.module()


@stub("math")
def _math():
    m = Stub("math")

    def mk(n):
        def f(x):
            x = lift(x.item() if isinstance(x, SymArray) else x)
            if n in ("floor", "ceil"):
                if x.nan is not FALSE and ENG().fork(x.nan):
                    raise ValueError("cannot convert float NaN to integer")
                r = fn(n, x.re)
                return int(r.const) if r.is_const() else Sc(r, FALSE, "i", None, False)
            r = mfun(n, x)
            return Sc(r.re, r.nan, "f", None, False)
        return f
    for n in "floor ceil sqrt exp log sin cos tan radians degrees log10 log2 fabs".split():
        setattr(m, n, mk({"fabs": "abs", "radians": "deg2rad", "degrees": "rad2deg"}.get(n, n)))
    m.acos, m.asin, m.atan = mk("arccos"), mk("arcsin"), mk("arctan")
    m.trunc = V.trunc
    m.isnan = lambda x: SBool(lift(x).nan)
    m.pi = Sc(PI, FALSE, "f", None, False)
    m.e = Sc(fn("exp", ONE), FALSE, "f", None, False)
    m.nan, m.inf = math.nan, math.inf
    m.pow = lambda a, b: V.pow_(lift(a), lift(b))
    return m


class _Catch:
    def __init__(self, *a, **k):
        self.rec = k.get("record")

    def __enter__(self):
        return [] if self.rec else None

    def __exit__(self, *a):
        return False


@stub("warnings")
def _warn():
    m = Stub("warnings")

    def warn(msg, category=UserWarning, stacklevel=1, **k):
        e = ENG()
        e.events.append(("warn", category.__name__ if isinstance(category, type) else str(category), str(msg)))
        e.warnings.append(str(msg))
    m.warn = warn
    m.catch_warnings = _Catch
    m.filterwarnings = m.simplefilter = lambda *a, **k: None
    return m


# ---------------------------------------------------------------- metpy
def interp_app(log, tgt, n, fx, fy):
    """one-dimensional piecewise-linear interpolation (in ln x when log) of the pairs
    (fx(k), fy(k)), k < n, at tgt; missing outside the range and next to a missing value"""
    X = (lambda k: fn("log", lift(fx(k)).re)) if log else (lambda k: lift(fx(k)).re)
    tgt = fn("log", tgt) if log else tgt

    def val(k):
        v = lift(fy(k))
        return v.re if v.nan is FALSE else ite(v.nan, ZERO, v.re)
    args = ((n,), lam(1, X), lam(1, val), lam(1, lambda k: ite(lift(fy(k)).nan, ONE, ZERO)), tgt)
    return Sc(T.app("INTERP1", args), bapp("INTERP1nan", args))


def metpy_interp(log):
    nm = "metpy.interpolate." + ("log_" if log else "") + "interpolate_1d"

    def interpolate_1d(x, xp, *variables, axis=0, fill_value=math.nan, return_list_always=False):
        x, xp = asarray(x), asarray(xp)
        if not (isinstance(fill_value, float) and math.isnan(fill_value)):
            raise Unsupported("interpolation fill value")
        e = ENG()
        outs = []
        for v in variables:
            v = asarray(v)
            nd = v.ndim
            ax = npstub.norm_axis(axis, nd)
            n = P_(v.shape[ax])
            fv, fxp, fx = v.snapshot(), xp.snapshot(), x.snapshot()
            if xp.ndim == nd:
                for a, b in zip(xp.shape, v.shape):
                    if P_(a) is not P_(b) and not e.fork(eq(P_(a), P_(b))):
                        raise ValueError("coordinate shape differs from the data")
                gx = lambda rest, k: lift(fxp(*rest[:ax], k, *rest[ax:]))
            elif xp.ndim == 1 and nd == 1:
                if P_(xp.shape[0]) is not n and not e.fork(eq(P_(xp.shape[0]), n)):
                    raise ValueError("coordinate length differs from the data")
                gx = lambda rest, k: lift(fxp(k))
            else:
                raise Unsupported("interpolation coordinate of this rank")
            if x.ndim != 1:
                raise Unsupported("interpolation targets of this rank")

            def g(*ix, fv=fv, ax=ax, n=n, gx=gx):
                rest = ix[:ax] + ix[ax + 1:]
                q = lift(fx(ix[ax]))
                return interp_app(log, q.re, n, lambda k: gx(rest, k), lambda k: fv(*rest[:ax], k, *rest[ax:]))
            # preconditions of the dependency's contract
            i, j = atom_poly(mk_atom("var", fresh_name("ti"), (), "I")), atom_poly(mk_atom("var", fresh_name("tj"), (), "I"))
            m = P_(x.shape[0])
            a, b = lift(fx(i)), lift(fx(j))
            rng = And(ge(i, ZERO), lt(i, j), lt(j, m))
            asc, desc = Implies(rng, le(a.re, b.re)), Implies(rng, ge(a.re, b.re))
            if not e.known(asc) and not e.known(desc):
                # neither order by linear reasoning: the obligation is the order of two adjacent-looking arbitrary indices
                up = Prover(6).prove(e.ctx.plus(rng), le(a.re, b.re)).ok
                e.require(f"precondition of {nm}: targets in ascending or descending order", asc if up else desc)
            ks = [atom_poly(mk_atom("var", fresh_name("tk"), (), "I")) for _ in range(nd)]
            inb = And(*[And(ge(k, ZERO), lt(k, P_(d))) for k, d in zip(ks, v.shape)])
            c = gx(tuple(ks[:ax] + ks[ax + 1:]), ks[ax])
            good = Not(c.nan)
            if log:
                good = And(good, gt(c.re, ZERO))
            e.require(f"precondition of {nm}: coordinates" + (" positive" if log else " not missing"), Implies(inb, good))
            good = Not(a.nan)
            if log:
                good = And(good, gt(a.re, ZERO))
            e.require(f"precondition of {nm}: targets" + (" positive" if log else " not missing"),
                      Implies(And(ge(i, ZERO), lt(i, m)), good))
            sh = v.shape[:ax] + (x.shape[0],) + v.shape[ax + 1:]
            outs.append(SymArray(sh, g, "f"))
        e.trusted.add(nm + ": per series piecewise-linear interpolation of the (coordinate, value) pairs, missing outside the "
                      "range; preconditions (ordered targets, no missing coordinates, positive for log) are obligations")
        if len(outs) == 1 and not return_list_always:
            return outs[0]
        return outs
    return interpolate_1d


@stub("metpy.interpolate")
def _metpyi():
    m = Stub("metpy.interpolate")
    m.interpolate_1d = metpy_interp(False)
    m.log_interpolate_1d = metpy_interp(True)
    return m


@stub("metpy")
def _metpy():
    m = Stub("metpy")
    m.interpolate = get("metpy.interpolate")
    return m


@stub("packaging.version")
def _pv():
    m = Stub("packaging.version")

    class Version:
        def __init__(self, s):
            self.v = tuple(int(x) for x in str(s).split(".")[:3] if x.isdigit())

        def __lt__(a, b): return a.v < b.v
        def __le__(a, b): return a.v <= b.v
        def __gt__(a, b): return a.v > b.v
        def __ge__(a, b): return a.v >= b.v
        def __eq__(a, b): return a.v == b.v
    m.Version = Version
    m.parse = Version
    return m


@stub("scipy")
def _scipy():
    m = Stub("scipy")
    m.__version__ = "1.18.1"
    m.special, m.spatial = get("scipy.special"), get("scipy.spatial")
    return m


def ylm(n, m, polar, azimuth):
    """spherical harmonic as an uninterpreted function of its four arguments"""
    if n is ZERO and m is ZERO:
        return Sc(fn("sqrt", ONE / (4 * PI)), FALSE, "c", ZERO)
    return Sc(T.app("Yre", (n, m, polar, azimuth)), FALSE, "c", T.app("Yim", (n, m, polar, azimuth)))


@stub("scipy.special")
def _special():
    m = Stub("scipy.special")

    def yre(n, mm, th, ph):
        return T.app("Yre", (n, mm, th, ph))

    def sph_harm_y(n, mm, theta, phi, **k):
        # converts every argument with asarray: labelled input gives an unlabelled result
        arrs = [npstub.toarr(asarray(a) if isinstance(a, (list, xrstub.DataArray)) else a) for a in (n, mm, theta, phi)]

        def g(a, b, c, d):
            a, b, c, d = map(lift, (a, b, c, d))
            nn = Or(a.nan, b.nan, c.nan, d.nan)
            y = ylm(a.re, b.re, c.re, d.re)
            return Sc(y.re, nn, "c", y.im)
        ENG().trusted.add("scipy.special.sph_harm_y(n, m, polar, azimuth) is the spherical harmonic Y_n^m, elementwise with "
                          "broadcasting; Y_0^0 = sqrt(1/(4 pi))")
        return npstub.emap(g, *arrs, kind="c")
    m.sph_harm_y = sph_harm_y
    m.sph_harm = lambda mm, n, th, ph: sph_harm_y(n, mm, ph, th)
    return m


@stub("scipy.spatial")
def _spatial():
    m = Stub("scipy.spatial")

    class SphericalVoronoi:
        def __init__(self, points, radius=1, center=None, threshold=1e-6):
            self.p = asarray(points)
            self.r = lift(radius)
            if center is None:
                self.c = None
            else:
                self.c = asarray(center)

        def calculate_areas(self):
            p = self.p
            if p.ndim != 2:
                raise ValueError("points must be two-dimensional")
            if self.c is not None:
                for d in range(3):
                    if lift(self.c.get(const(d))).re is not ZERO:
                        raise Unsupported("Voronoi centre")
            f = p.snapshot()
            n = P_(p.shape[0])
            Ls = tuple(lam(1, lambda k, d=d: lift(f(k, const(d))).re) for d in range(3))
            ENG().trusted.add("scipy.spatial.SphericalVoronoi(points).calculate_areas()[k] is the area of the cell of points[k]")
            return SymArray((p.shape[0],), lambda k: Sc(T.app("VORONOI", ((n,), Ls[0], Ls[1], Ls[2], self.r.re, k))), "f")
    m.SphericalVoronoi = SphericalVoronoi
    return m


def flatten(sh, f):
    """row-major flattening of f over the box sh"""
    if len(sh) == 1:
        return f
    n = ONE
    for d in sh:
        n = n * P_(d)
    return npstub.reshape(SymArray(tuple(sh), f, "f"), (dim(n),)).snapshot()


def corr(n, a, b, w, skipna):
    """weighted Pearson correlation of the n pairs (a(k), b(k)) with weights w(k)"""
    v = lambda f: lam(1, lambda k: (lambda x: x.re if x.nan is FALSE else ite(x.nan, ZERO, x.re))(lift(f(k))))
    miss = lam(1, lambda k: Or(lift(a(k)).nan, lift(b(k)).nan))
    skip = ONE if skipna else ZERO
    args = ((P_(n),), v(a), v(b), v(w) if w is not None else lam(1, lambda k: ONE),
            lam(1, lambda k: ite(Or(lift(a(k)).nan, lift(b(k)).nan), ONE, ZERO)), skip)
    nn = T.bapp("CORRnan", args) if skipna else any_((P_(n),), miss)
    return Sc(T.app("CORR", args), nn, "f")


def same_size(a, b, what):
    if a is not b and P_(a) is not P_(b) and not ENG().fork(eq(P_(a), P_(b))):
        raise ValueError(what)


def pearson_np(a, b, weights, axis, skipna):
    if not all(isinstance(x, SymArray) for x in (a, b)):
        raise Unsupported("_pearson_r of something that is not an array")
    if not isinstance(skipna, bool):
        raise Unsupported("skipna")
    w = weights
    for x in (b, w):
        if x is None:
            continue
        if not isinstance(x, SymArray) or x.ndim != a.ndim:
            raise Unsupported("_pearson_r with arrays of different ranks")
        for p, q in zip(a.shape, x.shape):
            same_size(p, q, "operands could not be broadcast together")
    ax = npstub.norm_axis(axis, a.ndim)
    fa, fb, fw = a.snapshot(), b.snapshot(), None if w is None else w.snapshot()
    if fw is not None and lift(fw(*[var(fresh_name("cw"), "I") for _ in range(a.ndim)])).nan is not FALSE:
        raise Unsupported("missing weights")
    n = a.shape[ax]

    def el(*rest):
        g = lambda f: None if f is None else (lambda k: f(*rest[:ax], k, *rest[ax:]))
        return corr(n, g(fa), g(fb), g(fw), skipna)
    ENG().trusted.add("xskillscore pearson_r / _pearson_r: weighted Pearson correlation of the pairs along the axis (dims), a missing "
                      "element making the result missing unless skipna")
    if a.ndim == 1:
        return el()
    return SymArray(a.shape[:ax] + a.shape[ax + 1:], el, "f")


def pearson_xr(a, b, dim=None, weights=None, skipna=False, keep_attrs=False):
    D = xrstub.DataArray
    if not isinstance(a, D) or not isinstance(b, D) or not (weights is None or isinstance(weights, D)):
        raise Unsupported("xskillscore.pearson_r of something that is not a DataArray")
    dims = list(a.dims) if dim is None else [dim] if isinstance(dim, str) else list(dim)
    if not dims or not isinstance(skipna, bool) or not isinstance(keep_attrs, bool):
        raise Unsupported("xskillscore.pearson_r options")
    for d in dims:
        if d not in a.dims:
            raise ValueError(f"{d} is not a dimension")
    if set(a.dims) != set(b.dims):
        raise Unsupported("xskillscore.pearson_r of different dimensions")
    rest = [d for d in a.dims if d not in dims]
    for d in a.dims:
        same_size(a.sizes[d], b.sizes[d], "sizes differ")
    xrstub.merge_coords([a, b])
    core = tuple(a.sizes[d] for d in dims)
    if weights is not None:
        if set(weights.dims) != set(dims):
            raise ValueError("weights dimensions do not match")
        for d in dims:
            same_size(weights.sizes[d], a.sizes[d], "weights sizes do not match")
        fw = weights.transpose(*dims)._arr.snapshot()
    fa, fb = (x.transpose(*rest, *dims)._arr.snapshot() for x in (a, b))
    n = ONE
    for d in core:
        n = n * P_(d)

    def el(*ix):
        g = lambda f: flatten(core, lambda *k: f(*ix, *k))
        return corr(n, g(fa), g(fb), None if weights is None else flatten(core, fw), skipna)
    ENG().trusted.add("xskillscore pearson_r / _pearson_r: weighted Pearson correlation of the pairs along the axis (dims), a missing "
                      "element making the result missing unless skipna")
    arr = SymArray(tuple(a.sizes[d] for d in rest), el, "f") if rest else npstub.toarr(el())
    co = {k: c for k, c in a._coords.items() if set(c.dims) <= set(rest)}
    return D._mk(arr, rest, co, a.name if a.name == b.name else None, a.attrs if keep_attrs else {})


@stub("xskillscore")
def _xs():
    m = Stub("xskillscore")
    m.pearson_r = pearson_xr
    c = Stub("xskillscore.core")
    c.np_deterministic = get("xskillscore.core.np_deterministic")
    m.core = c
    return m


@stub("xskillscore.core.np_deterministic")
def _xsi():
    m = Stub("xskillscore.core.np_deterministic")
    m._pearson_r = pearson_np
    return m


@stub("eofs")
def _eofs():
    m = Stub("eofs")
    m.xarray = get("eofs.xarray")
    return m


@stub("eofs.xarray")
def _eofsx():
    m = Stub("eofs.xarray")
    m.Eof = Eof
    return m


class EofAnalysis:
    """the quantities of the EOF analysis of x (time first) as uninterpreted functions of everything
    the analysis depends on: sizes, values, weights, centring and degrees of freedom"""

    def __init__(self, shape, f, w, center, ddof):
        nd = len(shape)
        wl = ZERO if w is None else lam(nd - 1, lambda *k: lift(w(*k)).re)
        ph = [var(fresh_name("eo"), "I") for _ in shape]
        if lift(f(*ph)).nan is not FALSE:
            raise Unsupported("missing values in an EOF analysis")
        self.shape = shape
        self.key = (tuple(P_(d) for d in shape), lam(nd, lambda *k: lift(f(*k)).re), wl, truth(center).num().re if isinstance(
            center, SBool) else (ONE if center else ZERO), lift(ddof).re)

    def q(self, name, *args):
        return Sc(T.app("EOF_" + name, (*self.key, *[lift(a).re for a in args])), FALSE, "f")

    def align(self, o, p):
        pass

    def eof(self, k, scaling, *ix):
        return self.q("eof", k, scaling, *ix)

    def pc(self, k, scaling, t):
        return self.q("pc", k, scaling, t)

    def eig(self, k):
        return self.q("eigenvalue", k)

    def frac(self, k):
        return self.q("fraction", k)

    def north(self, k, vf):
        return self.q("north", k, 1 if vf else 0)

    def total(self):
        return self.q("total")


class Eof:
    def __init__(self, array, weights=None, center=True, ddof=1):
        D = xrstub.DataArray
        if not isinstance(array, D):
            raise TypeError("the input must be an xarray DataArray")
        if array.ndim < 2:
            raise ValueError("the input data set must be at least two dimensional")
        if "time" not in array.dims:
            raise Unsupported("EOF analysis of data without a dimension called time")
        if array.dims[0] != "time":
            raise ValueError("time must be the first dimension, consider using the transpose() method")
        w = None
        if weights is not None:
            if isinstance(weights, str):
                raise Unsupported("EOF weighting schemes")
            wa = weights._arr if isinstance(weights, D) else weights
            if not isinstance(wa, SymArray) or wa.ndim != array.ndim - 1:
                raise Unsupported("EOF weights of this kind")
            for p, q in zip(wa.shape, array.shape[1:]):
                same_size(p, q, "weight array dimensions are incompatible")
            w = wa.snapshot()
        self.a = array
        self.n = P_(array.shape[0])
        self.p = ONE
        for d in array.shape[1:]:
            self.p = self.p * P_(d)
        self.s = EofAnalysis(array.shape, array._arr.snapshot(), w, center, ddof)
        ENG().trusted.add("eofs.xarray.Eof: the EOF analysis of the array (time first) with the given weights, centring and ddof; "
                          "each quantity depends on nothing else; at least min(times, points) modes")

    def _count(self, k):
        if k is None:
            raise Unsupported("all modes")
        if isinstance(k, float) or is_scalar(k) and lift(k).kind not in "ib":
            raise TypeError("slice indices must be integers")
        q = lift(k).re
        if not ENG().known(And(ge(q, ONE), le(q, self.n), le(q, self.p))):
            raise Unsupported("number of modes not known to be available")
        return dim(q)

    def _mk(self, sh, f, dims, name, more=()):
        arr = SymArray(sh, f, "f")
        at = {"long_name": "long name of " + name}
        co = {"mode": (("mode",), npstub.arange(sh[dims.index("mode")]), {"long_name": "eof_mode_number"})}
        for k in more:
            co[k] = self.a._coord(k)
        return xrstub.DataArray(arr, coords=co, dims=dims, name=name, attrs=at)

    def _sc(self, x):
        x = lift(x)
        if not ENG().known(Or(eq(x.re, ZERO), eq(x.re, ONE), eq(x.re, const(2)))):
            if ENG().fork(Not(Or(eq(x.re, ZERO), eq(x.re, ONE), eq(x.re, const(2))))):
                raise ValueError("invalid scaling option")
        return x.re

    def eofs(self, eofscaling=0, neofs=None):
        k, sc = self._count(neofs), self._sc(eofscaling)
        return self._mk((k,) + tuple(self.a.shape[1:]), lambda m, *ix: self.s.eof(m, sc, *ix), ("mode",) + tuple(self.a.dims[1:]), "eofs",
                        self.a.dims[1:])

    def pcs(self, pcscaling=0, npcs=None):
        k, sc = self._count(npcs), self._sc(pcscaling)
        return self._mk((self.a.shape[0], k), lambda t, m: self.s.pc(m, sc, t), ("time", "mode"), "pcs", ("time",))

    def eigenvalues(self, neigs=None):
        return self._mk((self._count(neigs),), lambda m: self.s.eig(m), ("mode",), "eigenvalues")

    def varianceFraction(self, neigs=None):
        return self._mk((self._count(neigs),), lambda m: self.s.frac(m), ("mode",), "variance_fractions")

    def northTest(self, neigs=None, vfscaled=False):
        vf = bool(vfscaled)
        return self._mk((self._count(neigs),), lambda m: self.s.north(m, vf), ("mode",), "typical_errors")

    def totalAnomalyVariance(self):
        return self.s.total()


@stub("cf_xarray")
def _cf():
    return Stub("cf_xarray")


@stub("dask.array.core")
def _dask():
    return Stub("dask.array.core")


@stub("dask")
def _dask0():
    return Stub("dask")


@stub("pandas")
def _pd():
    return Stub("pandas")


@stub("cftime")
def _cftime():
    return Stub("cftime")


# ---------------------------------------------------------------- uxarray
def zonal_app(tag, nf, f, j, clean=()):
    """mean along one latitude of the face values f: an uninterpreted function of the values, the
    latitudes asked for and the position in them; for a row of an input field, of the row's indices"""
    x = var("probe_face", "I")
    v = lift(f(x))
    if v.nan is FALSE and v.im is None and len(v.re.terms) == 1:
        m, c = v.re.terms[0]
        a = T._atoms[m[0][0]] if c == 1 and len(m) == 1 and m[0][1] == 1 else None
        if a is not None and a.kind == "app" and a.args and a.args[-1] is x and not any(mentions(b, x) for b in a.args[:-1]):
            nm = f"OPQ_ZONAL_{tag}:{a.name}"
            args = tuple(a.args[:-1]) + (P_(j),)
            return Sc(T.app(nm, args), FALSE if a.name in clean else bapp(nm + "?", args), "f")
    args = (P_(nf), lam(1, lambda k: ite(lift(f(k)).nan, ZERO, lift(f(k)).re)), lam(1, lambda k: ite(lift(f(k)).nan, ONE, ZERO)), P_(j))
    nm = "OPQ_ZONAL_" + tag
    return Sc(T.app(nm, args), bapp(nm + "?", args), "f")


def mentions(t, x):
    a = T._atoms[x.terms[0][0][0][0]]
    return any(y is a for y in T.walk(t, True))


class Mesh:
    """an unstructured grid and the latitudes a zonal mean is asked for"""

    def __init__(self, tag, nf, lats):
        self.tag, self.nf, self.lats, self.clean = tag, nf, lats, set()


class UxDataArray(xrstub.DataArray):
    def __init__(self, *a, uxgrid=None, **k):
        super().__init__(*a, **k)
        if uxgrid is None:
            raise Unsupported("UxDataArray without a grid")
        self.uxgrid = uxgrid

    def _like(self, *a, **k):
        r = super()._like(*a, **k)
        r.uxgrid = self.uxgrid
        return r

    def zonal_mean(self, lat=(-90, 90, 10), conservative=False, **kw):
        g = self.uxgrid
        if lat is not g.lat or conservative or kw:
            raise Unsupported("zonal_mean of other latitudes or bands")
        ax = self.dims.index("n_face")
        a, sh = self._arr, list(self.shape)
        if P_(sh[ax]) is not P_(g.nf):
            raise Unsupported("zonal_mean of another mesh")
        sh[ax] = g.lats.shape[0]
        r = SymArray(tuple(sh), lambda *ix: zonal_app(g.tag, g.nf, lambda k: a.get(*(ix[:ax] + (k,) + ix[ax + 1:])), ix[ax], g.clean), "f")
        dims = list(self.dims)
        dims[ax] = "latitudes"
        out = xrstub.DataArray(r, dims=dims, name=(self.name + "_zonal_mean") if self.name is not None else "zonal_mean",
                               attrs={"zonal_mean": True, "conservative": False})
        for k, c in self._coords.items():
            if "n_face" not in c.dims:
                out._coords[k] = c
        lt = SymArray(g.lats.shape, lambda i: g.lats(i), "f")
        out._coords["latitudes"] = xrstub.CoordVar(("latitudes",), lt, {})
        return out


class UxDataset(xrstub.Dataset):
    def __init__(self, *a, uxgrid=None, **k):
        super().__init__(*a, **k)
        self.uxgrid = uxgrid


@stub("uxarray")
def _ux():
    m = Stub("uxarray")
    m.UxDataArray, m.UxDataset = UxDataArray, UxDataset
    return m
