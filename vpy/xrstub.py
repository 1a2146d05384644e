"""The xarray the verified code sees: labelled arrays over npstub arrays (assumed contracts of the
xarray operations the library calls)."""
import types
from . import terms as T
from .terms import *
from . import values as V
from .values import Sc, SBool, lift, truth, is_scalar, select, binop, mfun, minmax2, kmax
from . import npstub as N
from .npstub import SymArray, ENG, P_, dim, asarray, toarr
from .npstub import dim as dim_
from .engine import SymList, SymStr

_builtin_any, _builtin_all = any, all


class MissingDimensionsError(ValueError):
    pass


class Index:
    """stand-in for the pandas index of a dimension"""

    def __init__(self, arr):
        self._arr = arr

    def __getattr__(self, n):
        raise Unsupported("index attribute " + n)


class Coords:
    def __init__(self, owner):
        self.o = owner

    def keys(self):
        return list(self.o._coords)

    def __iter__(self):
        return iter(list(self.o._coords))

    def __len__(self):
        return len(self.o._coords)

    def __contains__(self, k):
        return k in self.o._coords

    def _contains(self, k):
        return k in self.o._coords

    def __getitem__(self, k):
        return self.o._coord(k)

    def __setitem__(self, k, v):
        self.o._setcoord(k, v)

    def items(self):
        return [(k, self.o._coord(k)) for k in self.o._coords]

    def values(self):
        return [self.o._coord(k) for k in self.o._coords]

    def get(self, k, d=None):
        return self.o._coord(k) if k in self.o._coords else d

    def _as_dict(self):
        return {k: self.o._coord(k) for k in self.o._coords}

    def to_dataset(self):
        raise Unsupported("coords.to_dataset")

    def update(self, d):
        for k, v in dict(d).items():
            self[k] = v

    @property
    def dims(self):
        return self.o.dims

    def copy(self):
        return {k: self.o._coord(k) for k in self.o._coords}


def interp_grid(method, ns, cf, at, fill, tgt):
    """multilinear (nearest) interpolation on a rectangular grid, as uninterpreted functions of the
    sizes, the coordinates, the values and the target; fill outside the range of the coordinates"""
    k = len(ns)
    t = [lift(x) for x in tgt]

    def val(*ks):
        v = lift(at(*ks))
        return v.re if v.nan is FALSE else ite(v.nan, ZERO, v.re)
    C = tuple(lam(1, lambda i, c=c: lift(c(i)).re) for c in cf)
    args = (method, ns, *C, lam(k, val), lam(k, lambda *ks: ite(lift(at(*ks)).nan, ONE, ZERO)), *[x.re for x in t])
    r = Sc(T.app("INTERP2", args), T.bapp("INTERP2nan", args))
    out = Or(*[T.bapp("OUTSIDE", ((n,), c, x.re)) for n, c, x in zip(ns, C, t)])
    return V.select_any(out, lambda: lift(fill), lambda: r) if hasattr(V, "select_any") else N.select_any(out, lambda: lift(fill), lambda: r)


class Attrs(dict):
    pass


class DataArray:
    __array_priority__ = 5000
    __hash__ = None

    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, indexes=None, fastpath=False):
        if isinstance(data, DataArray):
            if coords is None:
                coords = data._coordmap()
            if dims is None:
                dims = data.dims
            if name is None:
                name = data.name
            if attrs is None:
                attrs = data.attrs
            data = data._arr
        elif data is None:
            raise Unsupported("DataArray without data")
        arr = asarray(data)
        self._arr = arr
        if isinstance(coords, Coords):
            coords = coords.o._coordmap()
        if dims is None:
            if isinstance(coords, dict) and coords and arr.ndim == len(coords):
                dims = tuple(coords)
            elif isinstance(coords, (list, tuple)) and coords:
                dims = []
                for i, c in enumerate(coords):
                    if isinstance(c, tuple):
                        dims.append(c[0])
                    elif isinstance(c, DataArray) and c.name is not None:
                        dims.append(c.name)
                    else:
                        dims.append(f"dim_{i}")
            else:
                dims = tuple(f"dim_{i}" for i in range(arr.ndim))
        if isinstance(dims, str):
            dims = (dims,)
        dims = tuple(dims)
        if len(dims) != arr.ndim:
            raise ValueError("different number of dimensions on data and dims")
        if len(set(dims)) != len(dims):
            raise ValueError("repeated dimension names")
        self.dims = dims
        self.name = name
        self.attrs = dict(attrs) if attrs is not None else {}
        self._coords = {}
        if coords is not None:
            if isinstance(coords, (list, tuple)):
                if len(coords) != arr.ndim:
                    raise ValueError("coords is not dict-like, but it has the wrong number of items")
                coords = {d: (c[1] if isinstance(c, tuple) else c) for d, c in zip(dims, coords)}
            for k, v in dict(coords).items():
                self._setcoord(k, v)

    # ---- construction helpers
    def _coordmap(self):
        return {k: v for k, v in self._coords.items()}

    def _setcoord(self, k, v):
        at = {}
        if isinstance(v, CoordVar):
            dm, a, at = v.dims, v.arr, v.attrs
        elif isinstance(v, DataArray):
            dm, a, at = v.dims, v._arr, v.attrs
            if len(dm) == 1 and dm[0] != k and k in self.dims:
                raise ValueError(f"dimension coordinate {k!r} conflicts")
        elif isinstance(v, tuple) and len(v) in (2, 3) and isinstance(v[0], (str, list, tuple)):
            dm = (v[0],) if isinstance(v[0], str) else tuple(v[0])
            a = asarray(v[1])
            at = dict(v[2]) if len(v) == 3 else {}
        elif is_scalar(v):
            dm, a = (), toarr(v)
        else:
            a = asarray(v)
            if a.ndim == 0:
                dm = ()
            elif a.ndim == 1 and k in self.dims:
                dm = (k,)
            else:
                raise MissingDimensionsError(f"cannot set variable {k!r} without explicit dims")
        if len(dm) != a.ndim:
            raise ValueError("dimensions of a coordinate do not match its data")
        for d, s in zip(dm, a.shape):
            if d not in self.dims:
                raise ValueError(f"coordinate {k} has dimensions not found on the data array")
            n = self.shape[self.dims.index(d)]
            if P_(n) is not P_(s) and not ENG().fork(eq(P_(n), P_(s))):
                raise ValueError(f"conflicting sizes for dimension {d!r}")
        self._coords[k] = CoordVar(dm, a, dict(at))

    def _coord(self, k):
        c = self._coords.get(k)
        if c is None:
            if k in self.dims:
                n = self.shape[self.dims.index(k)]
                return DataArray(N.arange(n), dims=(k,), name=k)
            raise KeyError(k)
        r = DataArray(c.arr, dims=c.dims, name=k)
        r.attrs = c.attrs
        r._coords = {n: v for n, v in self._coords.items() if set(v.dims) <= set(c.dims)}
        return r

    def _like(self, arr, keep_name=True, attrs=False):
        r = DataArray.__new__(type(self) if type(self) is not DataArray else DataArray)
        r._arr = arr
        r.dims = self.dims
        r.name = self.name if keep_name else None
        r.attrs = dict(self.attrs) if attrs else {}
        r._coords = dict(self._coords)
        return r

    @classmethod
    def _mk(cls, arr, dims, coords, name, attrs):
        r = DataArray.__new__(DataArray)
        r._arr, r.dims, r._coords, r.name, r.attrs = arr, tuple(dims), dict(coords), name, dict(attrs)
        return r

    # ---- attributes
    @property
    def shape(self):
        return self._arr.shape

    @property
    def ndim(self):
        return self._arr.ndim

    @property
    def size(self):
        return self._arr.size

    @property
    def dtype(self):
        return self._arr.dtype

    @property
    def values(self):
        return self._arr

    @values.setter
    def values(self, v):
        self.data = v

    @property
    def data(self):
        return self._arr

    @data.setter
    def data(self, v):
        v = asarray(v)
        if v.ndim != self.ndim:
            raise ValueError("replacement data must match the Variable's shape")
        for a, b in zip(v.shape, self.shape):
            if P_(a) is not P_(b) and not ENG().fork(eq(P_(a), P_(b))):
                raise ValueError("replacement data must match the Variable's shape")
        self._arr = v

    @property
    def variable(self):
        return self

    @property
    def coords(self):
        return Coords(self)

    @property
    def sizes(self):
        return dict(zip(self.dims, self.shape))

    @property
    def chunksizes(self):
        return {}

    @property
    def chunks(self):
        return None

    @property
    def indexes(self):
        return {k: Index(v.arr) for k, v in self._coords.items() if v.dims == (k,)}

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self._like(self._arr.real, attrs=True)

    @property
    def imag(self):
        return self._like(self._arr.imag, attrs=True)

    @property
    def cf(self):
        return CF(self)

    @property
    def dt(self):
        raise Unsupported("datetime accessor")

    @property
    def loc(self):
        raise Unsupported("label-based selection")

    _known_missing = frozenset(("T all any argmax argmin argsort as_numpy assign_attrs assign_coords astype attrs bfill "
                                "broadcast_equals broadcast_like chunk chunks chunksizes clip close coarsen combine_first compute "
                                "conj conjugate convert_calendar coords copy count cumprod cumsum cumulative cumulative_integrate "
                                "curvefit data diff differentiate dims dot drop drop_attrs drop_duplicates drop_encoding drop_indexes"
                                " drop_isel drop_sel drop_vars dropna dt dtype encoding equals expand_dims ffill fillna from_dict "
                                "from_iris from_series get_axis_num get_index groupby groupby_bins head identical idxmax idxmin imag "
                                "indexes integrate interp interp_calendar interp_like interpolate_na isel isin isnull item load "
                                "load_async loc map_blocks max mean median min name nbytes ndim notnull pad persist pipe plot polyfit"
                                " prod quantile query rank real reduce reindex reindex_like rename reorder_levels resample "
                                "reset_coords reset_encoding reset_index roll rolling rolling_exp round searchsorted sel set_close "
                                "set_index set_xindex shape shift size sizes sortby squeeze stack std str sum swap_dims tail thin "
                                "to_dask_dataframe to_dataframe to_dataset to_dict to_index to_iris to_masked_array to_netcdf "
                                "to_numpy to_pandas to_series to_unstacked_dataset to_zarr transpose unify_chunks unstack values var "
                                "variable weighted where xindexes").split())

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_coords", "dims", "_arr"):
            raise AttributeError(n)
        if n in self._coords or n in self.dims:
            return self._coord(n)
        if n in DataArray._known_missing:
            raise Unsupported("DataArray." + n)
        if n in self.attrs:
            return self.attrs[n]
        raise AttributeError(f"'DataArray' object has no attribute '{n}'")

    # ---- methods
    def interp(self, coords=None, method="linear", assume_sorted=False, kwargs=None, **ck):
        tg = dict(coords or {})
        tg.update(ck)
        if assume_sorted:
            raise Unsupported("interp(assume_sorted=True)")
        kwargs = dict(kwargs or {})
        fill = kwargs.pop("fill_value", math.nan)
        kwargs.pop("bounds_error", None)
        if kwargs or isinstance(fill, str) or method not in ("linear", "nearest"):
            raise Unsupported("interpolation options")
        dims = [d for d in self.dims if d in tg]
        if len(dims) != len(tg):
            raise ValueError("interpolation along a dimension that does not exist")
        ts = {}
        for d in dims:
            if d not in self._coords:
                raise Unsupported("interpolation along a dimension without coordinate")
            t = tg[d]
            t = t._arr if isinstance(t, DataArray) else N.toarr(t) if is_scalar(t) else asarray(t)
            if t.ndim != 1:
                raise Unsupported("interpolation targets of this rank")
            ts[d] = t
        for k, c in self._coords.items():
            if k not in dims and set(c.dims) & set(dims):
                raise Unsupported("interpolation of an array with further coordinates")
        f = self._arr.snapshot()
        cf = [self._coords[d].arr.snapshot() for d in dims]
        tf = [ts[d].snapshot() for d in dims]
        pos = [self.dims.index(d) for d in dims]
        ns = tuple(P_(self.shape[q]) for q in pos)

        def g(*ix):
            def at(*ks):
                j = list(ix)
                for q, k in zip(pos, ks):
                    j[q] = k
                return f(*j)
            return interp_grid(method, ns, cf, at, fill, [t(ix[q]) for t, q in zip(tf, pos)])
        sh = list(self.shape)
        cs = {}
        for q, d in zip(pos, dims):
            sh[q] = ts[d].shape[0]
        arr = SymArray(tuple(sh), g, "f")
        for k, c in self._coords.items():
            cs[k] = CoordVar((k,), ts[k], dict(c.attrs)) if k in dims else c
        ENG().trusted.add("xarray.DataArray.interp: interpolation (linear / nearest) of the values over the named dimensions "
                          "by their coordinates in any order, fill_value outside their range")
        return DataArray._mk(arr, self.dims, cs, self.name, self.attrs)

    def copy(self, deep=True, data=None):
        if data is not None:
            r = self._like(self._arr, attrs=True)
            r.data = data
            return r
        r = self._like(self._arr.copy() if deep else self._arr, attrs=True)
        if deep:
            r._coords = {k: c if isinstance(c, StackVar) else CoordVar(c.dims, c.arr.copy(), dict(c.attrs)) for k, c in
                         self._coords.items()}
        return r

    def __copy__(self):
        return self.copy(deep=False)

    def __deepcopy__(self, memo):
        return self.copy(deep=True)

    def get_axis_num(self, d):
        if isinstance(d, (list, tuple)):
            return tuple(self.get_axis_num(x) for x in d)
        if d not in self.dims:
            raise ValueError(f"{d!r} not found in array dimensions {self.dims}")
        return self.dims.index(d)

    def to_numpy(self):
        return self._arr

    def item(self):
        return self._arr.item() if self.ndim else self._arr.get().item()

    def tolist(self):
        return self._arr.tolist()

    def astype(self, t, copy=True, **k):
        r = self._arr.astype(t)
        return self._like(r if isinstance(r, SymArray) else toarr(r), attrs=True)

    def compute(self, **k):
        return self.copy()

    load = persist = compute

    def drop_attrs(self, deep=True):
        r = self._like(self._arr)
        r._coords = {k: CoordVar(c.dims, c.arr, {}) for k, c in self._coords.items()}
        return r

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        r = self._like(self._arr, attrs=True)
        for n in names:
            if n not in r._coords:
                if errors == "raise":
                    raise ValueError("these variables cannot be found")
                continue
            del r._coords[n]
        return r

    def drop(self, labels=None, dim=None, **k):
        if dim is not None:
            raise Unsupported("drop with dim")
        return self.drop_vars(labels)

    def reset_coords(self, names=None, drop=False):
        if not drop:
            raise Unsupported("reset_coords")
        return self.drop_vars([k for k in self._coords if k not in self.dims] if names is None else names)

    def assign_coords(self, coords=None, **k):
        r = self._like(self._arr, attrs=True)
        d = dict(coords._as_dict() if isinstance(coords, Coords) else coords or {})
        d.update(k)
        for n, v in d.items():
            r._setcoord(n, v)
        return r

    def assign_attrs(self, *a, **k):
        r = self._like(self._arr, attrs=True)
        r.attrs.update(*a, **k)
        return r

    def rename(self, new=None, **names):
        if new is None and not names:
            r = self._like(self._arr, attrs=True)
            r.name = None
            return r
        if new is not None and not isinstance(new, dict):
            r = self._like(self._arr, attrs=True)
            r.name = new
            return r
        mp = dict(new or {})
        mp.update(names)
        for k in mp:
            if k not in self.dims and k not in self._coords:
                raise ValueError(f"cannot rename {k!r} because it is not a variable or dimension")
        r = self._like(self._arr, attrs=True)
        r.dims = tuple(mp.get(d, d) for d in self.dims)
        if len(set(r.dims)) != len(r.dims):
            raise ValueError("the new name conflicts")
        r._coords = {mp.get(k, k): c if isinstance(c, StackVar) and not set(c.dims) & set(mp) else
                     CoordVar(tuple(mp.get(d, d) for d in c.dims), c.arr, c.attrs) for k, c in self._coords.items()}
        return r

    def stack(self, dim=None, create_index=True, **k):
        mp = dict(dim or {})
        mp.update(k)
        if len(mp) != 1 or not create_index:
            raise Unsupported("stack of several dimensions")
        (new, ds), = mp.items()
        ds = list(ds)
        for d in ds:
            if d not in self.dims:
                raise ValueError(f"dimension {d!r} not found")
        rest = [d for d in self.dims if d not in ds]
        t = self.transpose(*rest, *ds)
        sizes = self.sizes
        tot = ONE
        for d in ds:
            tot = tot * P_(sizes[d])
        arr = N.reshape(t._arr, tuple(sizes[d] for d in rest) + (dim_(tot),))
        parts = []
        for d in ds:
            c = self._coords.get(d)
            parts.append((d, sizes[d], c))
            if c is not None:
                f = c.arr.snapshot()
                i, j = (atom_poly(mk_atom("var", fresh_name("st"), (), "I")) for _ in range(2))
                ENG().require("precondition of stack/unstack: distinct coordinate labels", Implies(
                    And(ge(i, ZERO), lt(i, j), lt(j, P_(sizes[d]))), Not(eq(lift(f(i)).re, lift(f(j)).re))))
        co = {}
        for n, c in self._coords.items():
            if set(c.dims) <= set(rest):
                co[n] = c
            elif c.dims != (n,):
                raise Unsupported("stack with other coordinates")
        co[new] = StackVar((new,), N.arange(dim_(tot)), parts)
        ENG().trusted.add("xarray stack/unstack: row-major flattening of the listed dimensions and its inverse")
        return DataArray._mk(arr, rest + [new], co, self.name, self.attrs)

    def unstack(self, dim=None, fill_value=None, sparse=False):
        hits = [n for n, c in self._coords.items() if isinstance(c, StackVar)]
        if dim is not None:
            hits = [h for h in hits if h in ([dim] if isinstance(dim, str) else list(dim))]
        r = self
        for h in hits:
            c = r._coords[h]
            rest = [d for d in r.dims if d != h]
            t = r.transpose(*rest, h)
            arr = N.reshape(t._arr, tuple(r.sizes[d] for d in rest) + tuple(z for _, z, _ in c.parts))
            co = {n: v for n, v in r._coords.items() if n != h}
            for d, z, v in c.parts:
                co[d] = v if v is not None else CoordVar((d,), N.arange(z), {})
            r = DataArray._mk(arr, rest + [d for d, _, _ in c.parts], co, r.name, r.attrs)
        return r if hits else r._like(r._arr, attrs=True)

    def swap_dims(self, d=None, **k):
        raise Unsupported("swap_dims")

    def transpose(self, *dims, transpose_coords=True, missing_dims="raise"):
        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
            dims = tuple(dims[0])
        if not dims:
            dims = self.dims[::-1]
        if Ellipsis in dims:
            i = dims.index(Ellipsis)
            rest = [d for d in self.dims if d not in dims]
            dims = dims[:i] + tuple(rest) + dims[i + 1:]
        if missing_dims == "ignore":
            dims = tuple(d for d in dims if d in self.dims)
        if set(dims) != set(self.dims) or len(dims) != len(self.dims):
            raise ValueError(f"{dims} must be a permuted list of {self.dims}, unless `...` is included")
        perm = [self.dims.index(d) for d in dims]
        r = self._like(N.permute(self._arr, perm), attrs=True)
        r.dims = tuple(dims)
        return r

    def expand_dims(self, dim=None, axis=None, **k):
        if dim is None and k:
            dim = k
        if isinstance(dim, dict):
            if _builtin_any(not (isinstance(v, int) and v == 1) for v in dim.values()):
                raise Unsupported("expand_dims with sizes")
            dim = list(dim)
        dim = [dim] if isinstance(dim, str) else list(dim)
        ax = [0] * len(dim) if axis is None else ([axis] if isinstance(axis, int) else list(axis))
        if len(dim) != 1:
            raise Unsupported("expand_dims of several dimensions")
        a = N.norm_axis(ax[0], self.ndim + 1)
        r = self._like(N.expand_dims(self._arr, a), attrs=True)
        d = list(self.dims)
        d.insert(a, dim[0])
        r.dims = tuple(d)
        return r

    def squeeze(self, dim=None, drop=False, axis=None):
        if dim is None:
            ds = [d for d, s in zip(self.dims, self.shape) if isinstance(s, int) and s == 1]
        else:
            ds = [dim] if isinstance(dim, str) else list(dim)
        return self.isel({d: 0 for d in ds}, drop=drop)

    def isel(self, indexers=None, drop=False, missing_dims="raise", **k):
        ind = dict(indexers or {})
        ind.update(k)
        for d in ind:
            if d not in self.dims:
                raise ValueError(f"Dimensions {{{d!r}}} do not exist")
        # vectorised: one index array defined on other dimensions of this array
        vec = {d: v for d, v in ind.items() if isinstance(v, DataArray) and v.ndim}
        if vec:
            if len(ind) != 1:
                raise Unsupported("vectorised indexing along several dimensions")
            (d, v), = vec.items()
            others = [x for x in self.dims if x != d]
            if not set(v.dims) <= set(others):
                raise Unsupported("vectorised indexing introducing a dimension")
            fa, fv = self._arr.snapshot(), v._arr.snapshot()
            p = self.dims.index(d)
            vp = [others.index(x) for x in v.dims]
            for x in v.dims:
                a, b = self.sizes[x], v.sizes[x]
                if P_(a) is not P_(b) and not ENG().fork(eq(P_(a), P_(b))):
                    raise IndexError("dimension sizes differ")
            n = P_(self.shape[p])
            neg = N._check_bounds(v._arr, n)

            def f(*ix):
                j = lift(fv(*[ix[q] for q in vp])).re
                if neg:
                    j = ite(ge(j, ZERO), j, j + n)
                return fa(*ix[:p], j, *ix[p:])
            arr = SymArray([self.sizes[x] for x in others], f, self._arr.kind)
            # vectorised results put the new dimensions first in xarray unless they are all present
            return DataArray._mk(arr, others, {kk: c for kk, c in self._coords.items() if d not in c.dims}, self.name,
                                 self.attrs)
        key = tuple(self._ikey(ind.get(d, slice(None))) for d in self.dims)
        return self._sub(key, drop)

    def _ikey(self, x):
        if isinstance(x, DataArray):
            x = x._arr
        if isinstance(x, SymArray) and x.ndim == 0:
            x = x.get()
        if isinstance(x, list):
            x = asarray(x)
        return x

    def _sub(self, key, drop=False):
        r = N.getitem(self._arr, key)
        if not isinstance(r, SymArray):
            r = toarr(r)
        keep = [d for d, x in zip(self.dims, key) if isinstance(x, (slice, SymArray))]
        co = {}
        for k, c in self._coords.items():
            kk = tuple(key[self.dims.index(d)] for d in c.dims)
            if isinstance(c, StackVar):
                if isinstance(kk[0], slice) and kk[0] == slice(None):
                    co[k] = c
                elif isinstance(kk[0], (slice, SymArray)):
                    raise Unsupported("part of a stacked dimension")
                continue
            if drop and len([1 for x in kk if not isinstance(x, (slice, SymArray))]) == len(kk) and kk:
                if not (set(c.dims) <= set(keep)):
                    continue
            a = N.getitem(c.arr, kk) if kk else c.arr
            a = a if isinstance(a, SymArray) else toarr(a)
            if drop and a.ndim == 0 and c.dims:
                continue
            co[k] = CoordVar(tuple(d for d, x in zip(c.dims, kk) if isinstance(x, (slice, SymArray))), a, c.attrs)
        return DataArray._mk(r, keep, co, self.name, self.attrs)

    def _poskey(self, k):
        if isinstance(k, dict):
            return tuple(self._ikey(k.get(d, slice(None))) for d in self.dims)
        if not isinstance(k, tuple):
            k = (k,)
        if len(k) == 1 and isinstance(k[0], DataArray) and k[0]._arr.kind == "b" and k[0].ndim == self.ndim and self.ndim > 1:
            raise IndexError("Unlabeled multi-dimensional array cannot be used for indexing")
        k = tuple(self._ikey(x) for x in k)
        if Ellipsis in [x if x is Ellipsis else None for x in k]:
            i = next(j for j, x in enumerate(k) if x is Ellipsis)
            k = k[:i] + (slice(None),) * (self.ndim - len(k) + 1) + k[i + 1:]
        if len(k) > self.ndim:
            raise IndexError("too many indices")
        return k + (slice(None),) * (self.ndim - len(k))

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._coord(k)
        key = self._poskey(k)
        if sum(isinstance(x, SymArray) for x in key) > 1:
            raise Unsupported("several index arrays on a DataArray")
        return self._sub(key)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self._setcoord(k, v)
            return
        key = self._poskey(k)
        if isinstance(v, DataArray):
            vd = v.dims
            tgt = [d for d, x in zip(self.dims, key) if isinstance(x, (slice, SymArray))]
            if not set(vd) <= set(tgt):
                raise ValueError("could not broadcast")
            v = v.transpose(*[d for d in tgt if d in vd])
            kk = tuple(slice(None) if d in vd else None for d in tgt)
            v = N.getitem(v._arr, kk) if kk else v._arr
        N.setitem(self._arr, key, v)

    def row(self, k):
        return self._sub((Sc(P_(k), FALSE, "i"),) + (slice(None),) * (self.ndim - 1))

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return len(self._arr)

    def _symlen(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            raise TypeError("iteration over a 0-d array")
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("native iteration over a symbolic array")
        return iter([self[i] for i in range(n)])

    def __contains__(self, x):
        return x in self._arr

    def __bool__(self):
        return bool(self._arr)

    def __float__(self):
        return float(self._arr)

    def __int__(self):
        return int(self._arr)

    def __index__(self):
        return self._arr.get().__index__()

    def __repr__(self):
        return f"<DataArray {self.dims}>"

    def __format__(self, s):
        return "<DataArray>"

    # ---- reductions
    def _red(self, which, dim=None, axis=None, skipna=None, keep_attrs=None, keepdims=False, min_count=None, **k):
        if k and not (which in ("min", "max", "sum", "mean", "any", "all") and not [x for x in k.values() if x is not None]):
            raise Unsupported(f"reduction options {sorted(k)}")
        if dim is Ellipsis:
            dim = None
        if dim is not None:
            ax = [self.get_axis_num(d) for d in ([dim] if isinstance(dim, str) else dim)]
        elif axis is not None:
            ax = [N.norm_axis(a, self.ndim) for a in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        else:
            ax = list(range(self.ndim))
        arr = self._arr
        if skipna is not False and arr.kind in "fc" and which in ("min", "max", "sum", "mean"):
            r = skipna_reduce(which, arr, tuple(ax))
        else:
            r = N.reduce_(which, arr, tuple(ax), {})
        r = r if isinstance(r, SymArray) else toarr(r)
        gone = {self.dims[a] for a in ax}
        co = {n: c for n, c in self._coords.items() if not (set(c.dims) & gone)}
        return DataArray._mk(r, [d for d in self.dims if d not in gone], co, self.name, {} if keep_attrs is False else self.attrs)

    def min(self, dim=None, **k): return self._red("min", dim, **k)
    def max(self, dim=None, **k): return self._red("max", dim, **k)
    def sum(self, dim=None, **k): return self._red("sum", dim, **k)
    def mean(self, dim=None, **k): return self._red("mean", dim, **k)
    def any(self, dim=None, **k): return self._red("any", dim, **k)
    def all(self, dim=None, **k): return self._red("all", dim, **k)

    def argmax(self, dim=None, **k):
        return self._arg("max", dim, k)

    def argmin(self, dim=None, **k):
        return self._arg("min", dim, k)

    def _arg(self, which, dim, k):
        if dim is None:
            if self.ndim != 1:
                raise Unsupported("argmax without dim")
            dim = self.dims[0]
        if not isinstance(dim, str):
            raise Unsupported("argmax over several dims")
        ax = self.get_axis_num(dim)
        r = N.argext(which, self._arr, ax)
        r = r if isinstance(r, SymArray) else toarr(r)
        co = {n: c for n, c in self._coords.items() if dim not in c.dims}
        return DataArray._mk(r, [d for d in self.dims if d != dim], co, self.name, self.attrs)

    def cumsum(self, dim=None, axis=None, skipna=None, **k):
        if dim is None:
            if self.ndim != 1:
                raise Unsupported("cumsum without dim")
            dim = self.dims[0]
        a = self._arr
        if skipna is not False:
            a = N.nan_to_num(a)
        r = N.cumsum(a, self.get_axis_num(dim))
        x = self._like(r, attrs=True)
        x._coords = {n: c for n, c in self._coords.items()}
        return x

    # ---- elementwise
    def clip(self, min=None, max=None, keep_attrs=None):
        from . import npstub

        def f(x, *b):
            b = list(b)
            lo = b.pop(0) if min is not None else None
            hi = b.pop(0) if max is not None else None
            return npstub.clip(x, lo, hi)
        r = apply(f, self, *[x for x in (min, max) if x is not None])
        r.attrs = dict(self.attrs)  # clip keeps attrs by default
        return r

    def where(self, cond, other=None, drop=False):
        if drop:
            raise Unsupported("where with drop")
        if other is None:
            r = apply(lambda x, c: toarr(N.where(c, x, V.NAN)), self, cond)
        else:
            r = apply(lambda x, c, o: toarr(N.where(c, x, o)), self, cond, other)
        r.attrs = dict(self.attrs)
        r.name = self.name
        return r

    def weighted(self, weights):
        return Weighted(self, weights)

    def isnull(self, **k):
        return apply(N.isnan, self)

    def notnull(self, **k):
        return apply(lambda x: N.logical_not(N.isnan(x)), self)

    def fillna(self, v):
        return apply(lambda x, o: toarr(N.where(N.isnan(x), o, x)), self, v)

    def broadcast_like(self, o):
        raise Unsupported("broadcast_like")

    def _b(self, op, o, rev=False):
        if isinstance(o, str) or o is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            raise TypeError("unsupported operand")
        if isinstance(o, Dataset):
            return NotImplemented
        f = (lambda x, y: N.arr_bin(op, y, x)) if rev else (lambda x, y: N.arr_bin(op, x, y))
        return apply(f, self, o)

    def __add__(s, o): return s._b("add", o)
    def __radd__(s, o): return s._b("add", o, True)
    def __sub__(s, o): return s._b("sub", o)
    def __rsub__(s, o): return s._b("sub", o, True)
    def __mul__(s, o): return s._b("mul", o)
    def __rmul__(s, o): return s._b("mul", o, True)
    def __truediv__(s, o): return s._b("div", o)
    def __rtruediv__(s, o): return s._b("div", o, True)
    def __floordiv__(s, o): return s._b("floordiv", o)
    def __mod__(s, o): return s._b("mod", o)
    def __pow__(s, o): return s._b("pow", o)
    def __rpow__(s, o): return s._b("pow", o, True)
    def __lt__(s, o): return s._b("lt", o)
    def __le__(s, o): return s._b("le", o)
    def __gt__(s, o): return s._b("gt", o)
    def __ge__(s, o): return s._b("ge", o)
    def __eq__(s, o): return s._b("eq", o)
    def __ne__(s, o): return s._b("ne", o)
    def __and__(s, o): return s._b("and", o)
    def __rand__(s, o): return s._b("and", o, True)
    def __or__(s, o): return s._b("or", o)
    def __ror__(s, o): return s._b("or", o, True)
    def __neg__(s): return s._like(-s._arr, attrs=True)
    def __pos__(s): return s._like(s._arr.copy(), attrs=True)
    def __invert__(s): return s._like(~s._arr, attrs=True)
    def __abs__(s): return s._like(abs(s._arr), attrs=True)

    def _inpl(s, op, o):
        if isinstance(o, DataArray):
            if not set(o.dims) <= set(s.dims):
                raise ValueError("in-place operation would change the dimensions")
            r = apply(lambda x, y: N.arr_bin(op, x, y), s, o)
            N.setitem(s._arr, Ellipsis, r._arr)
            return s
        N.setitem(s._arr, Ellipsis, N.arr_bin(op, s._arr.copy(), o))
        return s

    def __iadd__(s, o): return s._inpl("add", o)
    def __isub__(s, o): return s._inpl("sub", o)
    def __imul__(s, o): return s._inpl("mul", o)
    def __itruediv__(s, o): return s._inpl("div", o)


class CoordVar:
    def __init__(self, dims, arr, attrs):
        self.dims, self.arr, self.attrs = tuple(dims), arr, attrs


class StackVar(CoordVar):
    """the MultiIndex of a stacked dimension: parts = [(dim, size, coordinate or None)]"""

    def __init__(self, dims, arr, parts):
        CoordVar.__init__(self, dims, arr, {})
        self.parts = parts


CF_RE = [("time", "\\bt\\b|(time|min|hour|day|week|month|year)[0-9]*"),
         ("Z", "(z|nav_lev|gdep|lv_|[o]*lev|bottom_top|sigma|h(ei)?ght|altitude|depth|isobaric|pres|isotherm)[a-z_]*[0-9]*"),
         ("Y", "y|j|nlat|rlat|nj"), ("latitude", "y?(nav_lat|lat|gphi)[a-z0-9]*"), ("X", "x|i|nlon|rlon|ni"),
         ("longitude", "x?(nav_lon|lon|glam)[a-z0-9]*"), ("T", "\\bt\\b|(time|min|hour|day|week|month|year)[0-9]*")]
CF_ATTRS = {"latitude": {"units": "degrees_north", "standard_name": "latitude"},
            "longitude": {"units": "degrees_east", "standard_name": "longitude"},
            "T": {"axis": "T", "standard_name": "time"}, "time": {"axis": "T", "standard_name": "time"},
            "Z": {"axis": "Z"}, "Y": {"axis": "Y"}, "X": {"axis": "X"}}
CF_UNITS = {"latitude": ("degree_north", "degree_N", "degreeN", "degrees_north", "degrees_N", "degreesN"),
            "longitude": ("degree_east", "degree_E", "degreeE", "degrees_east", "degrees_E", "degreesE")}


class CF:
    def __init__(self, da):
        self.da = da

    def _kind(self, c, kind):
        return c.attrs.get("standard_name") == kind or c.attrs.get("units") in CF_UNITS[kind] or \
            c.attrs.get("long_name") == kind or c.attrs.get("_CoordinateAxisType") == kind[:3].capitalize()

    @property
    def coordinates(self):
        r = {}
        for kind in ("longitude", "latitude"):
            h = sorted(n for n, c in self.da._coords.items() if self._kind(c, kind))
            if h:
                r[kind] = h
        return r

    def keys(self):
        return set(self.coordinates) | set(self.da._coords)

    def guess_coord_axis(self, verbose=False):
        import re
        ENG().trusted.add("cf_xarray: which coordinates are the latitude and the longitude (attributes, then names)")
        r = self.da.copy(deep=False)
        r._coords = {n: CoordVar(c.dims, c.arr, dict(c.attrs)) for n, c in r._coords.items()}
        for n, c in r._coords.items():
            for name, pat in CF_RE:
                axes = {x for x in r._coords.values() if x.attrs.get("axis")}
                if name in ("X", "Y", "Z", "T") and c in axes:
                    continue
                if name in ("latitude", "longitude", "time") and (self._kind(c, "latitude") or self._kind(c, "longitude") or
                                                                  c.attrs.get("standard_name") == "time"):
                    continue
                if re.compile(pat).match(n.lower()):
                    c.attrs = {**CF_ATTRS[name], **c.attrs}
        return r

    def __getitem__(self, k):
        if k in ("latitude", "longitude"):
            h = self.coordinates.get(k, [])
            if len(h) == 1:
                return self.da._coord(h[0])
            raise KeyError(k)
        if k in ("vertical", "Z"):
            hits = [n for n, c in self.da._coords.items() if c.attrs.get("axis") == "Z" or c.attrs.get("positive")]
            if len(hits) == 1:
                return self.da._coord(hits[0])
            if not hits:
                raise KeyError(k)
        raise Unsupported("cf_xarray lookup")


class Weighted:
    """weighted reductions: missing elements and their weights are left out, weights summing to 0 give a missing value"""

    def __init__(self, da, w):
        if not isinstance(w, DataArray):
            raise ValueError("`weights` must be a DataArray")
        self.da, self.w = da, w
        f = w._arr.snapshot()
        ph = [atom_poly(mk_atom("var", fresh_name("wt"), (), "I")) for _ in w.shape]
        inb = And(*[And(ge(k, ZERO), lt(k, P_(d))) for k, d in zip(ph, w.shape)])
        nn = lift(f(*ph)).nan
        if nn is not FALSE and not ENG().known(Implies(inb, Not(nn))):
            raise Unsupported("weights that may be missing")
        ENG().trusted.add("xarray weighted mean / sum: weights of missing elements are left out; a zero sum of weights gives a missing mean")

    def _sum(self, x, dim):
        p = apply(lambda a, w: N.arr_bin("mul", a, w), x, self.w)
        ds = list(p.dims) if dim is None or dim is Ellipsis else [dim] if isinstance(dim, str) else list(dim)
        for d in ds:
            if d not in p.dims:
                raise ValueError(f"Dimensions {d} not found in data dimensions")
        return p._red("sum", [d for d in p.dims if d in ds], skipna=False)

    def _fill(self):
        a = self.da._arr
        return self.da._like(N.toarr(N.nan_to_num(a)), attrs=True) if a.kind in "fc" else self.da

    def sum_of_weights(self, dim=None, keep_attrs=None):
        m = self.da._like(N.toarr(N.emap(lambda x: select(lift(x).nan, lift(0.0), lift(1.0)), self.da._arr, kind="f")), attrs=True)
        s = self._sum(m, dim)
        return s._like(N.toarr(N.emap(lambda x: Sc(x.re, Or(x.nan, eq(x.re, ZERO)), "f"), s._arr, kind="f")), attrs=True)

    def sum(self, dim=None, skipna=None, keep_attrs=None):
        return self._sum(self._fill() if skipna is not False else self.da, dim)

    def mean(self, dim=None, skipna=None, keep_attrs=None):
        return self.sum(dim, skipna) / self.sum_of_weights(dim)


def skipna_reduce(which, a, ax):
    f = a.snapshot()
    ph = [atom_poly(mk_atom("var", fresh_name("sk"), (), "I")) for _ in a.shape]
    if lift(f(*ph)).nan is FALSE:
        return N.reduce_(which, a, ax, {})
    if which == "sum":
        return N.reduce_("sum", N.toarr(N.nan_to_num(a)), ax, {})
    if which == "mean":
        s = N.reduce_("sum", N.toarr(N.nan_to_num(a)), ax, {})
        c = N.reduce_("sum", N.toarr(N.emap(lambda x: Sc(ite(lift(x).nan, ZERO, ONE)), a, kind="f")), ax, {})
        alln = N.reduce_("all", N.toarr(N.isnan(a)), ax, {})
        return N.where(alln, V.NAN, N.toarr(s) / c) if isinstance(s, SymArray) else select(truth(alln).b, V.NAN, binop(
            "div", lift(s), lift(c)))
    rest = [d for d in range(a.ndim) if d not in ax]
    bounds = tuple(P_(a.shape[d]) for d in ax)

    def el(*rix):
        def at(ix):
            full_ = [None] * a.ndim
            for d, i in zip(ax, ix):
                full_[d] = i
            for d, i in zip(rest, rix):
                full_[d] = i
            return lift(f(*full_))
        n = len(ax)
        lv, ln = lam(n, lambda *ix: ite(at(ix).nan, ZERO, at(ix).re)), lam(n, lambda *ix: at(ix).nan)
        alln = all_(bounds, ln)
        return Sc(T.app("skip" + which, (bounds, lv, ln)), alln)

    if not rest:
        return el()
    return SymArray(tuple(a.shape[d] for d in rest), el, "f")


def same_coord(a, b):
    """are two coordinate variables known to be equal?"""
    if a is b or a.arr is b.arr:
        return True
    if isinstance(a, StackVar) or isinstance(b, StackVar):
        return False
    if a.dims != b.dims:
        return False
    for s, t in zip(a.arr.shape, b.arr.shape):
        if P_(s) is not P_(t) and not ENG().known(eq(P_(s), P_(t))):
            return False
    fa, fb = a.arr.snapshot(), b.arr.snapshot()
    ph = [atom_poly(mk_atom("var", fresh_name("co"), (), "I")) for _ in a.arr.shape]
    x, y = lift(fa(*ph)), lift(fb(*ph))
    return x.re is y.re and x.nan is y.nan


def merge_coords(das):
    co = {}
    drop = set()
    for d in das:
        for k, c in d._coords.items():
            if k in drop:
                continue
            if k in co:
                if not same_coord(co[k], c):
                    if k in c.dims or k in co[k].dims:
                        raise Unsupported("operands with different index coordinates")
                    drop.add(k)
                    del co[k]
            else:
                co[k] = c
    return co


def apply(f, *args):
    """elementwise operation on labelled arrays"""
    das = [a for a in args if isinstance(a, DataArray)]
    if any_ds(args):
        return Dataset.apply(f, *args)
    if not das:
        return f(*args)
    dims = []
    for d in das:
        for x in d.dims:
            if x not in dims:
                dims.append(x)
    sizes = {}
    for d in das:
        for x, s in d.sizes.items():
            if x in sizes:
                a = sizes[x]
                if P_(a) is not P_(s) and not ENG().fork(eq(P_(a), P_(s))):
                    raise ValueError(f"conflicting sizes for dimension {x!r}")
            else:
                sizes[x] = s
    co = merge_coords(das)
    ops = []
    for a in args:
        if isinstance(a, DataArray):
            t = a.transpose(*[d for d in dims if d in a.dims]) if a.ndim > 1 else a
            arr = t._arr
            # dimensions before the first own one may stay implicit; inner ones are inserted
            key = tuple(slice(None) if d in a.dims else None for d in dims)
            while key and key[0] is None:
                key = key[1:]
            if any(x is None for x in key):
                arr = N.getitem(arr, key)
            ops.append(arr)
        else:
            x = a if is_scalar(a) else asarray(a)
            if isinstance(x, SymArray) and x.ndim > len(dims):
                raise ValueError("operands cannot be broadcast together with mismatched lengths")
            ops.append(x)
    r = f(*ops)
    r = r if isinstance(r, SymArray) else toarr(r)
    if r.ndim != len(dims):
        raise ValueError("applied function returned data with unexpected number of dimensions")
    names = {d.name for d in das}
    return DataArray._mk(r, dims, co, names.pop() if len(names) == 1 else None, drop_conflicts([d.attrs for d in das]))


def drop_conflicts(ats):
    out, bad = {}, set()
    for a in ats:
        for k, v in a.items():
            if k in bad:
                continue
            if k in out and out[k] is not v and out[k] != v:
                del out[k]
                bad.add(k)
            else:
                out[k] = v
    return out


def any_ds(args):
    return _builtin_any(isinstance(a, Dataset) for a in args)


class DataVars:
    def __init__(self, ds):
        self.ds = ds

    def __iter__(self):
        return iter(list(self.ds._vars))

    def __len__(self):
        return len(self.ds._vars)

    def __contains__(self, k):
        return k in self.ds._vars

    def keys(self):
        return list(self.ds._vars)

    def values(self):
        return [self.ds[k] for k in self.ds._vars]

    def items(self):
        return [(k, self.ds[k]) for k in self.ds._vars]

    def __getitem__(self, k):
        return self.ds[k]


class Dataset:
    __hash__ = None

    def __init__(self, data_vars=None, coords=None, attrs=None):
        self._vars = dict(data_vars or {})
        self.attrs = dict(attrs or {})
        self._xc = dict(coords or {})

    @property
    def data_vars(self):
        return DataVars(self)

    @property
    def coords(self):
        return self._xc

    def __iter__(self):
        return iter(list(self._vars))

    def keys(self):
        return list(self._vars)

    def items(self):
        return [(k, self[k]) for k in self._vars]

    def __len__(self):
        return len(self._vars)

    def __contains__(self, k):
        return k in self._vars or k in self._xc

    def _contains(self, k):
        return k in self

    def __getitem__(self, k):
        if k in self._vars:
            return self._vars[k]
        return self._xc[k]

    @staticmethod
    def apply(f, *args):
        raise Unsupported("Dataset arithmetic")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("Dataset." + n)


def where(cond, x, y, keep_attrs=None):
    if not any_ds((cond, x, y)) and not _builtin_any(isinstance(a, DataArray) for a in (cond, x, y)):
        return N.where(cond, x, y)
    r = apply(lambda c, a, b: toarr(N.where(c, a, b)), cond, x, y)
    r.attrs = dict(x.attrs) if isinstance(x, DataArray) and keep_attrs is not False else {}
    return r


def apply_ufunc(f, *args, **k):
    bad = set(k) - {"dask", "output_dtypes", "keep_attrs"}
    if bad:
        raise Unsupported(f"apply_ufunc options {sorted(bad)}")
    return apply(lambda *a: f(*a), *args)


def is_duck_array(x):
    return isinstance(x, SymArray)


class _XR(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("xarray." + n)


def module():
    m = _XR("xarray")
    m.DataArray, m.Dataset, m.where, m.apply_ufunc = DataArray, Dataset, where, apply_ufunc
    m.core = types.SimpleNamespace(
        utils=types.SimpleNamespace(is_duck_array=is_duck_array),
        dataarray=types.SimpleNamespace(DataArray=DataArray), dataset=types.SimpleNamespace(Dataset=Dataset),
        common=types.SimpleNamespace())
    m.ones_like = lambda d, dtype=None: d._like(N.ones_like(d._arr, dtype), attrs=True)
    m.zeros_like = lambda d, dtype=None: d._like(N.zeros_like(d._arr, dtype), attrs=True)
    m.full_like = lambda d, v, dtype=None: d._like(N.full_like(d._arr, v, dtype), attrs=True)
    m.broadcast = broadcast
    m.set_options = N.errstate
    m.ufuncs = None
    m.coding = types.SimpleNamespace(cftimeindex=types.SimpleNamespace(CFTimeIndex=Index))
    m.testing = None
    return m


def broadcast(*ds, **k):
    ones = apply(lambda *xs: N.toarr(N.emap(lambda *v: Sc(ZERO), *[N.toarr(x) for x in xs], kind="f")), *ds)
    out = []
    for d in ds:
        r = apply(lambda x, o: N.toarr(N.emap(lambda v, _: v, N.toarr(x), N.toarr(o), kind=N.toarr(x).kind)), d, ones)
        r = r.transpose(*ones.dims)
        r.name, r.attrs = d.name, dict(d.attrs)
        out.append(r)
    return tuple(out)
