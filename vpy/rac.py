"""Concrete checking context: the same contracts asserted on the real package while it runs
(bounded stand-in, counter-example replay and cross-check of the proofs)."""
import ast
import copy
import importlib
import json
import math
import os
import sys
import time
import traceback
import warnings
import zlib

import numpy as np
from .spec import Discard, Stop, CASES, load_all, words, META

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Violation(Exception):
    def __init__(self, label, msg):
        self.label, self.msg = label, msg


class Field:
    def __init__(self, arr, kind):
        self.arr, self.kind = arr, kind
        self.shape = tuple(int(x) for x in arr.shape)

    def __call__(self, *ix):
        return self.arr[tuple(int(i) for i in ix)] if ix or self.arr.ndim == 0 else self.arr[()]


_lits = {}


def mined(modname):
    """numeric literals of the module under test: likely thresholds"""
    if modname not in _lits:
        out = set()
        p = os.path.join(REPO, "geocat", "comp", modname + ".py")
        try:
            for n in ast.walk(ast.parse(open(p).read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    out.add(float(n.value))
                    out.add(-float(n.value))
        except OSError:
            pass
        _lits[modname] = sorted(out)
    return _lits[modname]


class ConE:
    sym = False
    pi = math.pi
    nan = np.float64("nan")

    def __init__(self, case, seed, trial, force=None, counts=None, picks=None):
        self.case = case
        self.rng = np.random.default_rng([seed & 0xFFFFFFFF, zlib.crc32(case.id.encode()), trial])
        self.force = force or {}
        self.forced_picks = picks or {}
        self.counts = counts if counts is not None else {}
        self.drawn = {"picks": {}, "ints": {}, "fields": {}, "flags": {}}
        self.nchecks = 0
        self.ncalls = 0
        self.big = self.rng.random() < 0.08
        self.lits = sorted({v for f in case.funcs for v in mined(f.split(".")[0])})
        self.npt = 0
        self.nmeta = 0

    # ------------------------------------------------------------ inputs
    def pick(self, name, options):
        options = list(options)
        if name in self.forced_picks and self.forced_picks[name] in [_j(o) for o in options]:
            i = [_j(o) for o in options].index(self.forced_picks[name])
        elif self.rng.random() < 0.6:
            c = [self.counts.get((name, str(o)), 0) for o in options]
            m = min(c)
            i = int(self.rng.choice([k for k, x in enumerate(c) if x == m]))
        else:
            i = int(self.rng.integers(len(options)))
        o = options[i]
        self.counts[(name, str(o))] = self.counts.get((name, str(o)), 0) + 1
        self.drawn["picks"][name] = _j(o)
        return o

    def dim(self, name, lo=1, hi=None, hot=()):
        v = self.force.get("ints", {}).get(name)
        if v is None or v < lo or (hi is not None and v > hi):
            top = lo + (9 if self.big else 3)
            if hi is not None:
                top = min(top, hi)
            v = int(self.rng.integers(lo, top + 1))
            if hot and self.rng.random() < 0.12:
                v = int(self.rng.choice(list(hot)))
            elif self.rng.random() < 0.04:  # sizes the code mentions
                c = [int(x) + q for x in self.lits if x == int(x) for q in (0, 1) if lo <= int(x) + q <= min(30, 30 if hi is None else hi)]
                if c:
                    v = int(self.rng.choice(c))
        self.drawn["ints"][name] = int(v)
        return int(v)

    def int(self, name, lo=None, hi=None):
        v = self.force.get("ints", {}).get(name)
        if v is None or (lo is not None and v < lo) or (hi is not None and v > hi):
            a = -5 if lo is None else int(lo)
            b = a + 10 if hi is None else int(hi)
            if b < a:
                raise Discard()
            v = int(self.rng.integers(a, b + 1))
        self.drawn["ints"][name] = int(v)
        return int(v)

    def index(self, name, n):
        return self.int(name, 0, int(n) - 1)

    def flag(self, name):
        v = self.force.get("flags", {}).get(name)
        if v is None:
            v = bool(self.rng.random() < 0.5)
        self.drawn["flags"][name] = v
        return v

    def real(self, name, lo=None, hi=None, nan=False, hot=(), kind="f", strict=False):
        return self.field(name, (), lo, hi, nan, hot, kind, strict)()

    def _draw(self, shape, lo, hi, hot, kind, strict):
        r = self.rng
        a = -100.0 if lo is None and hi is None else (float(hi) - 100 if lo is None else float(lo))
        b = 100.0 if lo is None and hi is None else (float(lo) + 200 if hi is None else float(hi))
        n = int(np.prod(shape)) if shape else 1
        u = r.random()
        w = b - a
        if kind == "i":
            v = r.integers(math.ceil(a), math.floor(b) + 1, n).astype(float)
            hh = [x for x in list(hot) if a <= x <= b]
            if hh and u < 0.5:
                m = r.random(n) < 0.5
                v[m] = r.choice(hh, m.sum())
            return v.reshape(shape)
        lits = [x for x in self.lits if a < x < b]
        hh = [x for x in hot if a <= x <= b]
        if u < 0.3:
            v = a + w * r.random(n)
        elif u < 0.4:
            v = np.full(n, a + w * r.random())
        elif u < 0.5:
            v = np.round(a + w * r.random(n))
            v = np.where((v < a) | (v > b), a + w * r.random(n), v)
        elif u < 0.56:
            v = np.where(r.random(n) < 0.5, a, b)
        else:
            v = a + w * r.random(n)
            for i in range(n):
                q = r.random()
                if hh and q < 0.55:
                    c = float(r.choice(hh))
                    j = r.random()
                    v[i] = c if j < 0.34 else c + (1 if r.random() < 0.5 else -1) * (
                        1e-6 * (1 + abs(c)) if j < 0.6 else w * 0.02 * r.random())
                elif lits and q < 0.75:
                    c = float(r.choice(lits))
                    v[i] = c + (1 if r.random() < 0.5 else -1) * (1e-6 * (1 + abs(c)) if r.random() < 0.5 else w * 0.02 * r.random())
        v = np.clip(v, a, b)
        if strict:
            bad = (v <= a) if lo is not None else np.zeros(n, bool)
            if hi is not None:
                bad |= v >= b
            v[bad] = a + w * (0.01 + 0.98 * r.random(bad.sum()))
        return v.reshape(shape)

    def field(self, name, shape, lo=None, hi=None, nan=False, hot=(), kind="f", strict=False, plant=None):
        shape = tuple(int(x) for x in shape)
        v = self._draw(shape, lo, hi, hot, kind, strict)
        if nan and self.rng.random() < 0.45:
            v = np.array(v, dtype=float)
            m = self.rng.random(shape) < self.rng.choice([0.1, 0.3, 0.9])
            v[m] = np.nan
        f = self.force.get("fields", {}).get(name)
        v = np.array(v, dtype=float)
        if f is not None:
            if isinstance(f, dict):
                full = np.array([np.nan if x is None else x for x in f["flat"]], dtype=float)
                if full.size == v.size:
                    v = full.reshape(shape)
            else:
                if self.rng.random() < 0.5:
                    real = [x for ix, x in f if x is not None]
                    if real:
                        v[...] = real[0]
                for ix, x in f:
                    if len(ix) == len(shape) and all(i is not None and 0 <= i < s for i, s in zip(ix, shape)):
                        if x is None and not nan:
                            continue
                        y = np.nan if x is None else x
                        if not (lo is not None and y < lo) and not (hi is not None and y > hi):
                            v[tuple(ix)] = y
        if plant is not None:
            v[tuple(int(i) for i in plant[0])] = float(plant[1])
        self.drawn["fields"][name] = {"shape": list(shape), "flat": [None if math.isnan(x) else float(x) for x in v.ravel()]}
        if kind == "i" and not nan:
            v = v.astype(np.int64)
        fl = Field(v, kind)
        fl.name = name
        return fl

    def levels(self, name, n, lo=None, hi=None, increasing=True, hot=(), const_step=None):
        n = int(n)
        a = 0.0 if lo is None else float(lo)
        b = a + 100.0 if hi is None else float(hi)
        r = self.rng
        w = b - a
        g = 0.1 + r.random(n + 1)
        if const_step or (const_step is None and r.random() < 0.3):
            g = np.ones(n + 1)
        if r.random() < 0.5:
            g[0] *= 10 * r.random()
            g[-1] *= 10 * r.random()
        x = a + w * np.cumsum(g)[:-1] / g.sum()
        if r.random() < 0.3 and n > 1:
            y = np.round(x, 1)
            if len(set(y)) == n and y.min() >= a and y.max() <= b:
                x = y
        f = self.force.get("fields", {}).get(name)
        if f is not None:
            if isinstance(f, dict):
                if len(f["flat"]) == n:
                    x = np.array(f["flat"], dtype=float)
            else:
                z = np.array(x)
                if not increasing and increasing is not None:
                    z = z[::-1].copy()
                for ix, val in f:
                    if len(ix) == 1 and ix[0] is not None and 0 <= ix[0] < n and val is not None and a <= val <= b:
                        z[ix[0]] = val
                d = np.diff(z)
                if increasing is None or (np.all(d > 0) if increasing else np.all(d < 0)):
                    x = z if increasing is not False else z[::-1]
        if increasing is False and not isinstance(f, dict):
            x = x[::-1].copy()
        self.drawn["fields"][name] = {"shape": [n], "flat": [float(t) for t in x]}
        fl = Field(np.array(x, dtype=float), "f")
        fl.name = name
        return fl

    def derive(self, shape, f, kind="f"):
        shape = tuple(int(x) for x in shape)
        v = np.empty(shape, dtype={"f": float, "i": np.int64, "c": complex, "b": bool}[kind])
        for ix in np.ndindex(*shape):
            v[ix] = f(*ix)
        return Field(v, kind)

    def from_array(self, arr, kind="f"):
        return Field(np.asarray(arr), kind)

    def time_axis(self, name, step, whole_years=False, months=False):
        """uniformly sampled time axis; step in hours or 'month'; whole_years: January to December"""
        from .ctime import TimeAxis
        r = self.rng
        f = self.force.get("time", {}).get(name)
        if f is None:
            cal = str(r.choice(["numpy", "numpy", "noleap", "standard", "360_day", "all_leap", "julian"]))
            y = int(r.choice([1999, 2000, 2001, 1899, 1904, int(r.integers(1700, 2150))]))
            if whole_years:
                ny = int(r.integers(1, 5 if step == "month" or step >= 24 else 3))
                if step == "month":
                    n = 12 * ny
                    if r.random() < 0.1:
                        n = 12 * (100 + int(r.integers(6)))
                else:
                    from .ctime import TimeAxis as TA
                    import cftime
                    c = "proleptic_gregorian" if cal == "numpy" else cal
                    days = (cftime.datetime(y + ny, 1, 1, calendar=c) - cftime.datetime(y, 1, 1, calendar=c)).days
                    n = days * 24 // step
                start = (y, 1, 1, 0)
            else:
                n = int(r.integers(3, 60 if step == "month" else 200))
                if step != "month" and step >= 6 and r.random() < 0.5:
                    n = int(r.integers(200, 1200))
                start = (y, int(r.integers(1, 13)), 1 if step == "month" else int(r.integers(1, 29)),
                         0 if step == "month" else int(r.integers(24)))
            f = [cal, list(start), step, n, int(r.integers(0, 28)) if step == "month" and r.random() < 0.5 else 0]
        self.drawn.setdefault("time", {})[name] = f
        return TimeAxis(f[0], tuple(f[1]), f[2], f[3], f[4])

    def group_mean(self, groups, b, f, w=None):
        """(weighted) mean of f over the members of group b"""
        m = groups.members[int(b)]
        ws = [1.0 if w is None else float(w(i)) for i in m]
        return sum(x * float(f(i)) for i, x in zip(m, ws)) / sum(ws)

    def sample(self, n, k=25):
        n = int(n)
        return range(n) if n <= k else sorted({0, 1, n - 1, *map(int, self.rng.integers(0, n, k))})

    def assume(self, c):
        if not bool(c):
            raise Discard()

    def forall_assume(self, field, pred):
        for ix in np.ndindex(*field.shape):
            if not bool(pred(*ix)):
                raise Discard()

    # ------------------------------------------------------------ containers
    def box(self, kind, fld, dims=None, coords=None, attrs=None, name=None):
        if kind == "scalar":
            return fld.arr.item()
        if kind == "npscalar":
            return fld.arr[()]
        if kind == "list":
            return fld.arr.tolist()
        a = layout(fld.arr, self.rng_for("layout%d" % self.nmeta))
        self.nmeta += 1
        if kind == "numpy":
            return a
        import xarray as xr
        cs = {}
        for k, v in (coords or {}).items():
            if isinstance(v, tuple):
                cs[k] = (v[0], self.box("numpy", v[1])) + ((dict(v[2]),) if len(v) > 2 else ())
            elif isinstance(v, (list, xr.DataArray)):
                cs[k] = v
            else:
                cs[k] = self.box("numpy", v)
        d = xr.DataArray(a, coords=cs, dims=dims, name=name, attrs=self.meta() if attrs is None else dict(attrs))
        if kind == "dask":
            d = d.chunk({k: max(1, s // 2) for k, s in d.sizes.items()})
        return d

    def meta(self, base=None):
        """attributes: the given ones and a few others, among them names the code itself mentions"""
        d = dict(base or {})
        r = self.rng_for("meta%d" % self.nmeta)
        self.nmeta += 1
        if r.random() < 0.6:
            pool = [w for f in self.case.funcs for w in words(f.split(".")[0])]
            for _ in range(int(r.integers(1, 4))):
                w = str(r.choice(list(META)) if r.random() < 0.5 or not pool else r.choice(pool))
                d.setdefault(w, [-99.0, "m1", "m2", 7][int(r.integers(4))])
        return d

    def dataset(self, d, attrs=None):
        import xarray as xr
        return xr.Dataset(d, attrs=attrs)

    # ------------------------------------------------------------ results
    def isxr(self, o):
        import xarray as xr
        return isinstance(o, xr.DataArray)

    def isnp(self, o):
        return isinstance(o, (np.ndarray, np.generic))

    def is_ndarray(self, o):
        return isinstance(o, np.ndarray)

    def is_num(self, o):
        return isinstance(o, (int, float, np.number)) and not isinstance(o, bool)

    def shape(self, o):
        return tuple(np.shape(o))

    def at(self, o, *ix):
        if self.isxr(o):
            o = o.values
        if isinstance(o, np.ndarray):
            return o[tuple(int(i) for i in ix)]
        if isinstance(o, (list, tuple)):
            r = o
            for i in ix:
                r = r[int(i)]
            return r
        if ix:
            raise Violation("result has the expected rank", f"scalar {o!r} indexed by {ix}")
        return o

    def dims(self, o): return tuple(o.dims)
    def name(self, o): return o.name
    def attrs(self, o): return dict(o.attrs)
    def coord_names(self, o): return set(o.coords)
    def coord(self, o, k): return o.coords[k].values
    def coord_dims(self, o, k): return tuple(o.coords[k].dims)

    def kind(self, o):
        return {"f": "f", "i": "i", "u": "i", "b": "b", "c": "c"}.get(np.asarray(o).dtype.kind, "?")

    # ------------------------------------------------------------ obligations
    def fail(self, label, why):
        raise Violation(label, why)

    def ok(self, label, cond):
        self.nchecks += 1
        if not bool(cond):
            raise Violation(label, "condition is false")

    def ok_msg(self, label, cond, msg):
        self.nchecks += 1
        if not bool(cond):
            raise Violation(label, msg())

    def note(self, key, v):
        """part of the drawn input, kept for the replay record"""
        self.drawn.setdefault("notes", {})[key] = v

    def rng_for(self, name):
        """random source of a composite input; reproducible from the replay record"""
        v = self.force.get("seeds", {}).get(name)
        if v is None:
            v = int(self.rng.integers(2 ** 62))
        self.drawn.setdefault("seeds", {})[name] = v
        return np.random.default_rng(v)

    def _close(self, a, b, tol, scale):
        try:
            if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
                return bool(a) == bool(b)
            a, b = complex(a), complex(b)
        except Exception:
            return False
        return all(self._close1(x, y, tol, scale) for x, y in ((a.real, b.real), (a.imag, b.imag)))

    @staticmethod
    def _close1(x, y, tol, scale):
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        if math.isinf(x) or math.isinf(y):
            return x == y
        return abs(x - y) <= tol * max(scale, abs(x), abs(y))

    def eq(self, label, a, b, tol=None, scale=None):
        self.nchecks += 1
        if not self._close(a, b, 1e-9 if tol is None else tol, 1.0 if scale is None else abs(float(scale))):
            raise Violation(label, f"got {a!r}, contract says {b!r}")

    def le(self, label, a, b, tol=None):
        self.nchecks += 1
        t = 1e-9 if tol is None else tol
        if not (a <= b + t * max(1.0, abs(a), abs(b))):
            raise Violation(label, f"{a!r} <= {b!r} is false")

    def same(self, label, a, b):
        self.nchecks += 1
        if not _pysame(a, b):
            raise Violation(label, f"got {a!r:.300}, contract says {b!r:.300}")

    def eq_any(self, label, a, *bs, tol=None, scale=None):
        self.nchecks += 1
        if not any(self._close(a, b, 1e-9 if tol is None else tol, 1.0 if scale is None else scale) for b in bs):
            raise Violation(label, f"got {a!r}, contract says one of {bs!r}")

    def table(self, values, k):
        return np.float64(values[int(k)])

    # unstructured grids
    def mesh(self, name, lats):
        import types
        import uxarray as ux
        from contracts.psi import grid
        g = types.SimpleNamespace(grid=grid(self.pick(name + " grid", [0, 1, 2])), lat=self.pick(name + " latitudes", lats))
        g.nf = g.grid.n_face
        z = ux.UxDataArray(np.zeros(g.nf), dims=("n_face",), uxgrid=g.grid).zonal_mean(lat=g.lat)
        g.lats = self.from_array(z.latitudes.values)
        g.lats.shape = z.shape
        return g

    def mesh_array(self, g, fld, dims, coords=None, attrs=None, name=None):
        import uxarray as ux
        co = {k: (c[0], c[1].arr.copy()) + tuple(c[2:]) if isinstance(c, tuple) else c.arr.copy() for k, c in (coords or {}).items()}
        return ux.UxDataArray(fld.arr.copy(), dims=dims, coords=co, attrs=dict(attrs or {}), name=name, uxgrid=g.grid)

    def mesh_dataset(self, g, d):
        import uxarray as ux
        return ux.UxDataset(d, uxgrid=g.grid)

    def zonal(self, g, sh, f):
        import uxarray as ux
        sh = tuple(int(x) for x in sh)
        a = np.array([[f(*ix, k) for k in range(g.nf)] for ix in np.ndindex(*sh)], dtype=float).reshape(sh + (g.nf,))
        z = ux.UxDataArray(a, dims=tuple(f"d{i}" for i in range(len(sh))) + ("n_face",), uxgrid=g.grid).zonal_mean(lat=g.lat).values
        return lambda *ix: z[tuple(int(i) for i in ix)]

    def zonal_missing(self, g, f, *ix):
        """assume that one zonal mean of f does not exist"""
        f.arr[tuple(int(i) for i in ix[:-1])] = np.nan

    def zonal_complete(self, g, f, pred=None):
        """assume that the zonal means exist and satisfy pred"""
        z = self.zonal(g, f.arr.shape[:-1], lambda *ix: f(*ix))
        for ix in np.ndindex(*f.arr.shape[:-1]):
            for j in range(g.lats.arr.shape[0]):
                self.assume(not np.isnan(z(*ix, j)) and (pred is None or pred(z(*ix, j))))

    def points(self, shape):
        shape = tuple(int(x) for x in shape)
        n = int(np.prod(shape)) if shape else 1
        if n <= 60:
            yield from np.ndindex(*shape)
        else:
            for _ in range(60):
                yield tuple(int(self.rng.integers(s)) for s in shape)

    # ------------------------------------------------------------ calls
    def get(self, q):
        mod, f = q.split(".")
        m = importlib.import_module("geocat.comp." + mod)
        if not hasattr(m, f):
            raise Gone(q)
        return getattr(m, f)

    def has(self, q):
        mod, f = q.split(".")
        return hasattr(importlib.import_module("geocat.comp." + mod), f)

    def _run(self, q, a, k):
        fn = self.get(q)
        args = list(a) + list(k.values())
        snaps = [_snapshot(x) for x in args]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                with np.errstate(all="ignore"):
                    out = ("value", fn(*a, **k))
            except (Discard, Violation):
                raise
            except Exception as e:
                out = ("raise", e)
            self._w = [str(x.message) for x in w]
        self.ncalls += 1
        for x, s in zip(args, snaps):
            self.nchecks += 1
            m = _unchanged(x, s)
            if m:
                raise Violation(f"{q} leaves its inputs unchanged", m)
        if out[0] == "value":
            m = _shared(out[1], args)
            self.nchecks += 1
            if m:
                raise Violation(f"{q} returns values of its own", m)
        return out

    def call(self, q, *a, **k):
        kind, v = self._run(q, a, k)
        self.nchecks += 1
        if kind == "raise":
            tb = traceback.extract_tb(v.__traceback__)
            loc = [f"{x.filename.split('/')[-1]}:{x.lineno}" for x in tb[-3:]]
            raise Violation(f"{q} accepts the request", f"{type(v).__name__}: {str(v)[:300]} at {loc}")
        return v

    def try_call(self, q, *a, **k):
        return self._run(q, a, k)

    def raises(self, label, types, q, *a, **k):
        kind, v = self._run(q, a, k)
        self.nchecks += 1
        if kind != "raise" or not isinstance(v, types):
            raise Violation(label, f"{kind}: {type(v).__name__} {str(v)[:200]}")

    def warned(self):
        return list(self._w)

    # ------------------------------------------------------------ mathematics
    def _np(s, f, x):
        with np.errstate(all="ignore"):
            return f(np.float64(x))

    def exp(s, x): return s._np(np.exp, x)
    def log(s, x): return s._np(np.log, x)
    def sqrt(s, x): return s._np(np.sqrt, x)
    def sin(s, x): return s._np(np.sin, x)
    def cos(s, x): return s._np(np.cos, x)
    def tan(s, x): return s._np(np.tan, x)
    def asin(s, x): return s._np(np.arcsin, x)
    def acos(s, x): return s._np(np.arccos, x)
    def atan(s, x): return s._np(np.arctan, x)
    def floor(s, x): return s._np(np.floor, x)
    def abs(s, x): return abs(x)
    def num(s, x): return np.float64(x)
    def pow(s, x, y): return np.float64(x) ** np.float64(y)
    def frac(s, a, b): return np.float64(a) / np.float64(b)
    def min(s, a, b): return np.minimum(a, b)
    def max(s, a, b): return np.maximum(a, b)

    def ite(s, c, a, b):
        r = a if bool(c) else b
        return r() if callable(r) else r

    def isnan(s, x):
        try:
            return bool(np.isnan(x))
        except TypeError:
            return False

    def And(s, *c): return all(bool(x) for x in c)
    def Or(s, *c): return any(bool(x) for x in c)
    def Not(s, c): return not bool(c)
    def implies(s, a, b): return (not bool(a)) or bool(b)

    def sum(s, n, f):
        r = 0.0
        for i in range(int(n)):
            r = r + f(i)
        return r

    def extremum(s, which, n, f):
        v = [f(i) for i in range(int(n))]
        return np.min(v) if which == "min" else np.max(v)

    def exists(s, n, f):
        return any(bool(f(i)) for i in range(int(n)))

    def forall(s, n, f):
        return all(bool(f(i)) for i in range(int(n)))

    def eq_(s, a, b):
        return a == b

    def interp(s, log, tgt, n, fx, fy):
        n = int(n)
        x = [float(fx(k)) for k in range(n)]
        y = [float(fy(k)) for k in range(n)]
        t = float(tgt)
        if log:
            x, t = [math.log(v) for v in x], math.log(t)
        o = sorted(range(n), key=lambda k: x[k])
        x, y = [x[k] for k in o], [y[k] for k in o]
        eps = 1e-9 * max(abs(v) for v in x + [t, 1e-30])
        for k in range(n):
            if k in (0, n - 1) and 0 < abs(t - x[k]) < eps:
                raise Discard()  # the last bit decides whether the target is inside
            if abs(t - x[k]) < eps and (log and k in (0, n - 1) or any(math.isnan(v) for v in y[max(0, k - 1):k + 2])):
                raise Discard()  # equal pressures may get logarithms that differ in the last bit; a level next to a missing one
        if n < 2 or t < x[0] or t > x[-1]:
            if n == 1 and t == x[0]:
                raise Discard()
            return math.nan
        k = max(i for i in range(n - 1) if x[i] <= t)
        if t == x[k]:
            k = max(k - 1, 0) if k and math.isnan(y[k + 1]) else k
        u = (t - x[k]) / (x[k + 1] - x[k])
        if (math.isnan(y[k]) or math.isnan(y[k + 1])) and min(u, 1 - u) < 1e-9:
            raise Discard()
        return y[k] + (y[k + 1] - y[k]) * u

    def filtered(s, n, f, keep, t):
        n = int(n)
        x = np.array([complex(f(k)) for k in range(n)])
        if np.isnan(x).any():  # every bin is missing
            return math.nan if any(bool(keep(k)) for k in range(n)) else 0.0
        w = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
        X = w @ x
        X = np.array([X[k] if bool(keep(k)) else 0 for k in range(n)])
        return float(((w[:, int(t)].conj() @ X) / n).real)

    def half(s, x):
        return int(x) // 2

    def harmonics(s, N):
        for n in range(int(N) + 1):
            for m in range(n + 1):
                if N < 6 or s.rng.random() < 0.1:
                    yield n, m, n * (n + 1) // 2 + m

    def harmonic_sum(s, N, term):
        return sum(term(n, m, n * (n + 1) // 2 + m) for n in range(int(N) + 1) for m in range(n + 1))

    def sum2(s, sh, f):
        return sum(f(j, i) for j in range(int(sh[0])) for i in range(int(sh[1])))

    def sph(s, n, m, polar, azimuth):
        from scipy.special import sph_harm_y
        return complex(sph_harm_y(int(n), int(m), float(polar), float(azimuth)))

    def complex(s, a, b): return complex(a, b)
    def re(s, z): return z.real
    def im(s, z): return z.imag

    def _cell(s, method, c, t):
        """[(index, weight)] of the coordinates around t; None outside"""
        n = len(c)
        o = sorted(range(n), key=lambda k: c[k])
        x = [c[k] for k in o]
        eps = 1e-9 * max(1.0, max(abs(v) for v in x))
        for e in (x[0], x[-1]):
            if 0 < abs(t - e) < eps:
                raise Discard()
        if t < x[0] or t > x[-1]:
            return None
        if n == 1:
            raise Discard()
        k = min(max(i for i in range(n) if x[i] <= t), n - 2)
        u = (t - x[k]) / (x[k + 1] - x[k])
        if method == "nearest":
            if abs(u - 0.5) < 1e-6:
                raise Discard()
            return [(o[k if u < 0.5 else k + 1], 1.0)]
        return [(o[k], 1 - u), (o[k + 1], u)]

    def grid_interp(s, method, sh, la, lo, f, fill, ty, tx):
        cy = s._cell(method, [float(la(j)) for j in range(int(sh[0]))], float(ty))
        cx = s._cell(method, [float(lo(i)) for i in range(int(sh[1]))], float(tx))
        if cy is None or cx is None:
            return float(fill)
        r = 0.0
        for j, u in cy:
            for i, w in cx:
                v = float(f(j, i))
                if math.isnan(v) and u * w < 1e-9:
                    raise Discard()  # on a grid line next to a missing cell: either answer is accepted
                r += u * w * v
        if method != "nearest":
            # a target on a grid line: the library may bracket it from the other side
            for c, cc, n in ((cy, la, sh[0]), (cx, lo, sh[1])):
                if min(w for _, w in c) < 1e-9 and any(math.isnan(float(f(j, i))) for j in range(int(sh[0])) for i in range(int(sh[1]))):
                    raise Discard()
        return r

    def voronoi(s, sh, th, ph, j, i):
        from scipy.spatial import SphericalVoronoi
        key = id(th.arr)
        if getattr(s, "_vk", None) != key:
            t, p = th.arr.ravel(), ph.arr.ravel()
            o = s.rng.permutation(t.size)
            pts = np.stack([np.sin(p) * np.cos(t), np.sin(p) * np.sin(t), np.cos(p)], axis=1)[o]
            a = np.empty(t.size)
            a[o] = SphericalVoronoi(pts).calculate_areas()
            s._vk, s._va = key, a.reshape(th.arr.shape)
        return s._va[int(j), int(i)]

    # names and arbitrary arguments
    def strings(s, name, shape, pool=None, distinct=False, maybe=1.0):
        r = s.rng_for(name)
        n = int(shape[0]) if shape else 1
        if s.force is not None and name in s.force.get("notes", {}):
            out = list(s.force["notes"][name])
        else:
            out = []
            for _ in range(n):
                x = pool[int(r.integers(len(pool)))] if r.random() < maybe else ""
                while distinct and x in out:
                    x = pool[int(r.integers(len(pool)))]
                out.append(x)
        s.note(name, out)
        f = lambda k=0: out[int(k)]
        f.all = out
        return f

    def string_list(s, n, f):
        return [f(k) for k in range(int(n))]

    def nonempty(s, x):
        return x

    def caps(s, x, sep):
        return sep.join(w.capitalize() for w in x.split(sep))

    def streq(s, a, b):
        return a == b

    def str_at(s, j, opts):
        return opts[int(j)]

    def named(s, n, name, attrs, pool=None):
        import xarray as xr
        r = s.rng_for("coords")
        at = lambda k: {q: f(k) for q, f in attrs.items() if f(k) != ""}
        co = [pool[int(r.integers(len(pool)))] for _ in range(int(r.integers(0, 3)))]
        co = [c for c in dict.fromkeys(co) if c not in name.all]
        s.note("coordinates", co)
        return xr.Dataset({name(k): ((), 1.0, at(k)) for k in range(int(n))}, coords={c: (c, [0.0]) for c in co})

    def holds_name(s, ds, x):
        return x in ds.variables

    def divmod(s, h, m):
        return divmod(int(h), m)

    def first(s, n, pred):
        return next(k for k in range(int(n)) if pred(k))

    def anything(s, name):
        return object()

    def capture(s, q, wrapper, a, k):
        mod, f = q.split(".")
        m = importlib.import_module("geocat.comp." + mod)
        base, w = s.get(q), s.get(wrapper)
        if base is w:
            raise Discard()
        calls, token = [], object()

        def rec(*a_, **k_):
            calls.append(s.bound(q, a_, k_, base))
            return token

        s.ncalls += 1
        setattr(m, f, rec)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = w(*a, **k)
        except Exception:
            raise Discard()
        finally:
            setattr(m, f, base)
        if not calls:
            raise Discard()
        return calls, out, token

    def bound(s, q, a, k, fn=None):
        import inspect
        b = inspect.signature(fn or s.get(q)).bind(*a, **k)
        b.apply_defaults()
        return dict(b.arguments)

    def identical(s, label, got, want):
        s.nchecks += 1
        if set(got) != set(want) or any(got[x] is not want[x] for x in want):
            raise Violation(label, f"{got!r:.300} instead of {want!r:.300}")

    def reads_arguments(s, q):
        return False

    def eof(s, sh, f, w, center, ddof):
        """the analysis of the eofs library itself (its mathematics is checked in c25_eofs)"""
        from eofs.standard import Eof

        class R:
            pass
        e = Eof(s._table(sh, f), weights=None if w is None else s._table(sh[1:], w), center=center, ddof=ddof)
        lam = e.eigenvalues()
        if lam[min(lam.size, sh[0] - 1) - 1] < 1e-9 * lam[0] or np.any(np.abs(np.diff(lam)) < 1e-6 * lam[0]):
            raise Discard()  # the modes are not unique
        r = R()
        E0, P0 = ([g(sc) for sc in range(3)] for g in (e.eofs, e.pcs))
        r.se, r.sp = np.ones(lam.size), np.ones(lam.size)

        def align(o, p):
            """a mode is determined up to its sign"""
            for k in range(min(lam.size, len(o), len(p))):
                for v, ref, sg in ((o, E0[0][k], r.se), (p, P0[0][:, k], r.sp)):
                    v = np.asarray(v)[k]
                    if v.shape == ref.shape and (v * ref).sum() < 0:
                        sg[k] = -1
        r.align = align
        r.eof = lambda k, sc, *ix: r.se[k] * E0[sc][(k,) + ix]
        r.pc = lambda k, sc, t: r.sp[k] * P0[sc][t, k]
        r.eig = lambda k: lam[k]
        r.frac = lambda k: e.varianceFraction()[k]
        r.north = lambda k, vf: e.northTest(vfscaled=vf)[k]
        r.total = lambda: e.totalAnomalyVariance()
        return r

    def _table(s, sh, f):
        a = np.empty(tuple(sh))
        for ix in np.ndindex(*sh):
            a[ix] = f(*ix)
        return a

    def val(s, o):
        return o.values if hasattr(o, "values") else o

    def corr(s, sh, a, b, w=None, skipna=False):
        x = []
        for ix in np.ndindex(*sh):
            p = (float(a(*ix)), float(b(*ix)), 1.0 if w is None else float(w(*ix)))
            if np.isnan(p[0]) or np.isnan(p[1]):
                if not skipna:
                    return math.nan
                continue
            x.append(p)
        if not x:
            return math.nan
        a, b, w = (np.array(v) for v in zip(*x))
        W = w.sum()
        da, db = a - (w * a).sum() / W, b - (w * b).sum() / W
        va, vb = (w * da * da).sum(), (w * db * db).sum()
        lim = 1e-6 * W * max(1, np.abs(a).max(), np.abs(b).max())
        if va < lim or vb < lim:
            raise Discard()  # a constant input has no correlation
        return (w * da * db).sum() / np.sqrt(va * vb)

    def derivative(s, f, x, name, h):
        return (f(x + h) - f(x - h)) / (2 * h)

    def distinct_from_integers(s, *xs):
        for x in xs:
            if abs(x - round(x)) < 1e-9 * max(1, abs(x)):
                raise Discard()

    def discard(s):
        raise Discard()

    def used(s, q):
        return False

    def pyfloat(s, x):
        return float(x)

    def sum_by_induction(s, label, n, f, closed):
        r = 0.0
        for k in range(int(n)):
            s.eq(label, r, closed(k))
            r = r + f(k)
        return r

    def branch(s, c):
        return bool(c)

    def known(s, c):
        return bool(c)


class Gone(Exception):
    """a private helper under contract was renamed or removed"""


def layout(a, r):
    """a copy of the values in some memory layout"""
    u = r.random()
    if a.ndim == 0 or u < 0.6:
        return a.copy()
    if u < 0.8 and a.ndim > 1:
        return np.asfortranarray(a.copy())
    if u < 0.9:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        v = b[..., ::2]
    else:
        v = np.zeros(a.shape, dtype=a.dtype)[..., ::-1]
    v[...] = a
    return v


def _j(o):
    return o if isinstance(o, (str, int, float, bool, type(None))) else repr(o)


def _pysame(a, b):
    if hasattr(a, "identical") and hasattr(b, "identical"):
        return type(a) is type(b) and a.identical(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))
        return bool(np.all(a == b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_pysame(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_pysame(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or (math.isnan(a) and math.isnan(b))
    try:
        return bool(a == b)
    except Exception:
        return False


def _snapshot(x):
    import xarray as xr
    if isinstance(x, xr.Dataset):
        return ("ds", x.copy(deep=True), copy.deepcopy(x.attrs), {k: _snapshot(v) for k, v in x.variables.items()})
    if isinstance(x, xr.Variable) and not isinstance(x, xr.DataArray):
        return ("var", np.array(x.values, copy=True), copy.deepcopy(dict(x.attrs)), x.dims)
    if isinstance(x, xr.DataArray):
        return ("da", np.array(x.values, copy=True), copy.deepcopy(dict(x.attrs)), x.dims, x.name,
                {k: (np.array(v.values, copy=True), copy.deepcopy(dict(v.attrs)), v.dims) for k, v in x.coords.items()})
    if isinstance(x, np.ndarray):
        return ("np", x.copy(), x.shape, x.dtype)
    if isinstance(x, (list, dict)):
        return ("py", copy.deepcopy(x))
    return None


def _idsame(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in "fcmM":
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.all(a == b))


def _unchanged(x, s):
    if s is None:
        return None
    if s[0] == "np":
        return None if x.shape == s[2] and _idsame(x, s[1]) else f"array changed from {s[1]!r:.150} to {x!r:.150}"
    if s[0] == "py":
        return None if _pysame(x, s[1]) and type(x) is type(s[1]) else f"{s[1]!r:.150} became {x!r:.150}"
    if s[0] == "var":
        return None if x.dims == s[3] and _idsame(x.values, s[1]) and _pysame(dict(x.attrs), s[2]) else "variable changed"
    if s[0] == "da":
        if x.dims != s[3]:
            return f"dims changed from {s[3]} to {x.dims}"
        if x.name != s[4]:
            return f"name changed from {s[4]} to {x.name}"
        if not _idsame(x.values, s[1]):
            return f"values changed from {s[1]!r:.150} to {x.values!r:.150}"
        if not _pysame(dict(x.attrs), s[2]):
            return f"attrs changed from {s[2]} to {dict(x.attrs)}"
        if set(x.coords) != set(s[5]):
            return f"coordinates changed from {sorted(map(str, s[5]))} to {sorted(map(str, x.coords))}"
        for k, (v, at, dm) in s[5].items():
            c = x.coords[k]
            if c.dims != dm or not _idsame(c.values, v):
                return f"coordinate {k} changed"
            if not _pysame(dict(c.attrs), at):
                return f"attributes of coordinate {k} changed from {at} to {dict(c.attrs)}"
        return None
    if s[0] == "ds":
        if list(x.variables) != list(s[3]):
            return f"variables changed: {list(s[3])} -> {list(x.variables)}"
        if not _pysame(dict(x.attrs), s[2]):
            return "dataset attributes changed"
        for k, v in s[3].items():
            m = _unchanged(x.variables[k], v)
            if m:
                return f"{k}: {m}"
    return None


def _bases(x):
    import xarray as xr
    if isinstance(x, xr.DataArray):
        return [x.values] if not hasattr(x.data, "dask") else []
    if isinstance(x, xr.Dataset):
        return [v.values for v in x.data_vars.values()]
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)) and len(x) < 20:
        return [b for y in x for b in _bases(y)]
    return []


def _shared(out, args):
    for o in _bases(out):
        for a in args:
            for b in _bases(a):
                if o.size and b.size and o.flags.writeable and np.may_share_memory(o, b) and np.shares_memory(o, b):
                    return "the result shares its memory with an input"
    return None


def run_trial(c, seed, trial, force=None, counts=None, picks=None):
    """(status, info): ok / discard / violation / error"""
    E = ConE(c, seed, trial, force, counts, picks)
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.fn(E)
        return "ok", E
    except Stop:
        return "ok", E
    except Discard:
        return "discard", E
    except Gone as g:
        return "gone", (E, str(g))
    except Violation as v:
        return "violation", (E, v.label, v.msg)
    except Exception as e:
        if E.ncalls and not isinstance(e, MemoryError):
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{x.filename.split('/')[-1]}:{x.lineno}" for x in tb[-4:]]
            return "violation", (E, "the result has the described form", f"{type(e).__name__}: {str(e)[:300]} at {loc}")
        return "error", (E, traceback.format_exc()[-2500:])


def record(c, E, label, msg, seed, trial):
    return {"case": c.id, "label": label, "message": msg, "seed": seed, "trial": trial, "input": E.drawn}


def run_case(cid, seed, trials, seconds, models=(), known=None):
    """models: counter-models of the verifier to replay first"""
    c = CASES[cid]
    t0 = time.time()
    out = {"case": cid, "trials": 0, "checks": 0, "discarded": 0, "violations": [], "errors": [], "gone": [], "picks": {},
           "replayed_models": 0}
    known = known or (lambda rec: False)
    counts = {}
    seen = set()
    out["known"] = []

    def note(st, info, tr):
        if st == "ok":
            out["trials"] += 1
            out["checks"] += info.nchecks
        elif st == "discard":
            out["discarded"] += 1
        elif st == "gone":
            if info[1] not in out["gone"]:
                out["gone"].append(info[1])
        elif st == "violation":
            out["trials"] += 1
            rec = record(c, info[0], info[1], info[2], seed, tr)
            k = known(rec)
            if k:
                if k not in out["known"]:
                    out["known"].append(k)
                return
            if info[1] not in seen:
                seen.add(info[1])
                out["violations"].append(rec)
        else:
            out["errors"].append(info[1])

    for mi, (pk, md) in enumerate(models):
        for rep in range(6):
            st, info = run_trial(c, seed, 10**6 + mi * 100 + rep, md, {}, pk)
            note(st, info, 10**6 + mi * 100 + rep)
            if st != "discard":
                out["replayed_models"] += 1
            if st == "violation":
                break
    # also random search with the picks of failing obligations
    for tr in range(trials):
        if time.time() - t0 > seconds or len(out["violations"]) >= 3 or len(out["errors"]) >= 3:
            break
        pk = None
        if models and tr % 3 == 0:
            pk = models[tr // 3 % len(models)][0]
        st, info = run_trial(c, seed, tr, None, counts, pk)
        note(st, info, tr)
        if st == "gone" and tr > 5 and out["trials"] == 0:
            break
    out["picks"] = {f"{k[0]}={k[1]}": v for k, v in sorted(counts.items(), key=str)}
    out["seconds"] = round(time.time() - t0, 2)
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("cases", nargs="*")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--trials", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--models")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    load_all()
    if a.replay:
        r = json.load(open(a.replay))
        if "input" not in r:
            print(json.dumps(r, indent=1)[:6000])
            return 0
        c = CASES[r["case"]]
        st, info = run_trial(c, r["seed"], r["trial"], r["input"], {}, r["input"]["picks"])
        print("replay:", st, info[1:] if isinstance(info, tuple) else "")
        return 1 if st == "violation" else 0
    from .known import matcher
    models = json.load(open(a.models)) if a.models else {}
    res = []
    for cid in a.cases or list(CASES):
        c = CASES[cid]
        r = run_case(cid, a.seed, a.trials or c.trials, a.seconds or c.seconds, models.get(cid, ()), matcher(c.prop))
        res.append(r)
        if not a.out:
            print(cid, {k: r[k] for k in ("trials", "checks", "discarded", "seconds", "gone", "known")})
            for v in r["violations"][:2]:
                print("  VIOL", v["label"], v["message"][:600], json.dumps(v["input"])[:500])
            for e in r["errors"][:1]:
                print("  ERR", e)
    if a.out:
        json.dump(res, open(a.out, "w"), default=str)
    return 0


if __name__ == "__main__":
    # the registry lives in vpy.spec, whatever name this file runs under
    from vpy import rac as me
    sys.exit(me.main())
