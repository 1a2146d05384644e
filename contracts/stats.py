"""C23 nmse, C24 pearson_r, C25 EOFs."""
from vpy.spec import case

N, P = "stats.nmse", "stats.pearson_r"


def even(E, name, n, lo, hi):
    """evenly spaced coordinate in [lo, hi], either direction"""
    a = E.real(name + "0", lo, hi)
    b = E.real(name + "1", lo, hi)
    E.assume(E.Or(b - a > 0.5, a - b > 0.5))
    return E.derive((n,), lambda k: a + (b - a) * k / (n - 1))


NAMES = [("lat", "lon"), ("latitude", "longitude"), ("y", "x")]


def nmse_grid(E, data, lat, lon, kind, order, nm, cf):
    """DataArray of data(t, j, i) with dims in the given order"""
    import xarray as xr
    import numpy as np
    la, lo = nm
    arr = np.array(data.arr, dtype=float)
    A = {"standard_name": "latitude", "units": "degrees_north"} if cf else {}
    B = {"standard_name": "longitude", "units": "degrees_east"} if cf else {}
    if kind == "1-D":
        d = xr.DataArray(arr, dims=("time", la, lo), coords={la: (la, lat.arr, A), lo: (lo, lon.arr, B)})
        sp = (la, lo)
    else:
        y2, x2 = np.meshgrid(lat.arr, lon.arr, indexing="ij")
        d = xr.DataArray(arr, dims=("time", "r", "c"), coords={la: (("r", "c"), y2, A), lo: (("r", "c"), x2, B)})
        sp = ("r", "c")
    return d.transpose(*{"tyx": ("time",) + sp, "txy": ("time", sp[1], sp[0]), "yxt": sp + ("time",)}[order]).copy()


@case(["C23", "C28"], [N], prove=False, why="weighted means are computed by xarray; checked on samples", trials=500, seconds=30)
def c23_nmse(E):
    import numpy as np
    cont = E.pick("container", ["array", "dataset", "dataset of two"])
    kind = E.pick("coordinates", ["1-D", "2-D"])
    nm = E.pick("names", NAMES)
    cf = E.pick("attributes", [True, False]) or nm == ("y", "x")
    orders = E.pick("orders", [("tyx", "tyx"), ("tyx", "txy"), ("yxt", "tyx"), ("txy", "txy"), ("yxt", "yxt")])
    nt, ny, nx = E.dim("nt", 1, 3), E.dim("ny", 2), E.dim("nx", 2)
    lat, lon = even(E, "lat", ny, -90, 90), even(E, "lon", nx, -180, 360)
    o = E.field("obs", (nt, ny, nx), -100, 100, nan=True)
    m = E.field("mod", (nt, ny, nx), -100, 100, nan=True)
    if E.flag("identical"):
        m = o
    if E.flag("infinite under the mask") and m is not o:
        for f, g in ((o, m), (m, o)):
            f.arr[np.isnan(g.arr) & ~np.isnan(f.arr)] = np.inf
    O, M = nmse_grid(E, o, lat, lon, kind, orders[0], nm, cf), nmse_grid(E, m, lat, lon, kind, orders[1], nm, cf)
    if cont == "array":
        out = E.call(N, O, M)
    else:
        dO, dM = {"v": O}, {"v": M}
        if cont == "dataset of two":
            dO["u"], dM["u"] = (M + 1).transpose(*O.dims), (O * 2).transpose(*M.dims)
        out = E.call(N, E.dataset(dO), E.dataset(dM))["v"].sel(variable="v")
    E.same("dims", tuple(d for d in out.dims), ("time",))
    val = out.values
    w = np.cos(np.deg2rad(lat.arr))
    for t in range(nt):
        keep = [(j, i) for j in range(ny) for i in range(nx) if not np.isnan(o(t, j, i)) and not np.isnan(m(t, j, i)) and w[j] > 1e-6]
        if not keep:
            continue
        W = sum(w[j] for j, i in keep)
        mean = sum(w[j] * o(t, j, i) for j, i in keep) / W
        den = sum(w[j] * (o(t, j, i) - mean) ** 2 for j, i in keep) / W
        if den < 1e-3 or W < 1e-3:
            continue  # a constant observed field: the quotient is ill defined
        num = sum(w[j] * (m(t, j, i) - o(t, j, i)) ** 2 for j, i in keep) / W
        E.eq("weighted normalised mean squared error", val[t], num / den, tol=1e-8, scale=1)
        if m is o:
            E.eq("identical fields give exactly 0", val[t], 0, tol=0, scale=0)
        E.ok("never negative", val[t] >= 0)


@case(["C23", "C28"], [N], trials=300, seconds=20)
def c23_weighted(E):
    kind = E.pick("coordinates", ["1-D", "2-D"])
    nm = E.pick("names", NAMES)
    cf = E.pick("attributes", [True, False]) or nm == ("y", "x")
    orders = E.pick("orders", [("tyx", "tyx"), ("tyx", "txy"), ("yxt", "tyx"), ("xyt", "ytx")])
    n = {"t": E.dim("nt", 1, 3), "y": E.dim("ny", 2, 5), "x": E.dim("nx", 2, 5)}
    lat, lon = even(E, "lat", n["y"], -90, 90), even(E, "lon", n["x"], -180, 360)
    o = E.field("obs", (n["t"], n["y"], n["x"]), -100, 100, nan=True)
    m = E.field("mod", (n["t"], n["y"], n["x"]), -100, 100, nan=True)
    la, lo = nm
    A = {"standard_name": "latitude", "units": "degrees_north"} if cf else {}
    B = {"standard_name": "longitude", "units": "degrees_east"} if cf else {}

    def grid(f, order):
        g = E.derive(tuple(n[c] for c in order), lambda *ix: f(*[ix[order.index(c)] for c in "tyx"]))
        if kind == "1-D":
            co = {la: (la, lat, A), lo: (lo, lon, B)}
            dn = {"t": "time", "y": la, "x": lo}
        else:
            co = {la: (("r", "c"), E.derive((n["y"], n["x"]), lambda j, i: lat(j)), A),
                  lo: (("r", "c"), E.derive((n["y"], n["x"]), lambda j, i: lon(i)), B)}
            dn = {"t": "time", "y": "r", "x": "c"}
        return E.box("xarray", g, dims=tuple(dn[c] for c in order), coords=co, name="v")

    O, M = grid(o, orders[0]), grid(m, orders[1])
    out = E.call(N, O, M)
    E.ok("a DataArray gives a DataArray", E.isxr(out))
    E.same("dims", E.dims(out), ("time",))
    sh = (n["y"], n["x"])
    for (t,) in E.points((n["t"],)):
        w = lambda j: E.cos(lat(j) * E.pi / 180)
        good = lambda j, i: E.And(E.Not(E.isnan(o(t, j, i))), E.Not(E.isnan(m(t, j, i))))
        S = lambda f: E.sum2(sh, lambda j, i: E.ite(good(j, i), lambda: w(j) * f(j, i), lambda: E.num(0)))
        W = S(lambda j, i: 1)
        E.assume(W > 0.001)
        mean = S(lambda j, i: o(t, j, i)) / W
        den = S(lambda j, i: (o(t, j, i) - mean) ** 2) / W
        E.assume(den > 0.001)  # a constant observed field: the quotient is ill defined
        num = S(lambda j, i: (m(t, j, i) - o(t, j, i)) ** 2) / W
        E.eq("weighted normalised mean squared error", E.at(out, t), num / den, tol=1e-8, scale=1)


@case(["C23", "C29"], [N], prove=False, why="coordinate detection is done by cf_xarray; checked on samples", trials=120)
def c29_nmse(E):
    import numpy as np
    what = E.pick("what", ["numpy", "mixed", "names", "uneven lat", "uneven lon", "not a grid"])
    nt, ny, nx = 1, E.dim("ny", 3), E.dim("nx", 3)
    lat, lon = even(E, "lat", ny, -90, 90), even(E, "lon", nx, -180, 360)
    o, m = E.field("obs", (nt, ny, nx), -100, 100), E.field("mod", (nt, ny, nx), -100, 100)
    if what.startswith("uneven"):
        c = lat if what.endswith("lat") else lon
        k = E.int("moved", 0, (ny if c is lat else nx) - 1)
        v = c.arr.copy()
        v[k] += 0.3 * (v[1] - v[0])
        c = E.from_array(v)
        lat, lon = (c, lon) if what.endswith("lat") else (lat, c)
    nm = ("lat", "lon")
    O, M = nmse_grid(E, o, lat, lon, "1-D", "tyx", nm, True), nmse_grid(E, m, lat, lon, "1-D", "tyx", nm, True)
    err = ValueError
    if what == "numpy":
        O, err = O.values, TypeError
    elif what == "mixed":
        O, err = E.dataset({"v": O}), TypeError
    elif what == "names":
        O, err = O.rename(lat="latitude"), KeyError
    elif what == "not a grid":
        O, M = O.rename(lat="a", lon="b"), M.rename(lat="a", lon="b")
        for d in (O, M):
            d["a"].attrs.clear()
            d["b"].attrs.clear()
    a, b = (O, M) if E.flag("order") else (M, O)
    E.raises("refused", err, N, a, b)


def corr(E, pairs):
    """reference correlation of [(a, b, w)]"""
    import numpy as np
    if any(np.isnan(a) or np.isnan(b) for a, b, w in pairs) or not pairs:
        return float("nan")
    a, b, w = (np.array(x, dtype=float) for x in zip(*pairs))
    W = w.sum()
    da, db = a - (w * a).sum() / W, b - (w * b).sum() / W
    va, vb = (w * da * da).sum(), (w * db * db).sum()
    lim = 1e-6 * W * max(1, np.abs(a).max(), np.abs(b).max())
    if va < lim or vb < lim:
        return None  # a constant input has no correlation
    return (w * da * db).sum() / np.sqrt(va * vb)


@case(["C24", "C28"], [P], prove=False, why="the sums are computed inside xskillscore; checked on samples", trials=700, seconds=30)
def c24_pearson(E):
    import numpy as np
    import xarray as xr
    cont = E.pick("container", ["numpy", "list", "array", "dataset"])
    nd = E.pick("rank", [1, 2, 3])
    sh = tuple(E.dim(f"n{k}", 2, 5) for k in range(nd))
    skipna = E.pick("skipna", [False, True])
    wt = E.pick("weights", [False, True])
    a = E.field("a", sh, -100, 100, nan=True, kind="f")
    b = E.field("b", sh, -100, 100, nan=True, kind="f")
    w = E.field("w", sh, 0.1, 10) if wt else None
    axis = E.pick("axis", [None] + list(range(-nd, nd)))
    along = tuple(range(nd)) if axis is None else (axis % nd,)
    kw = {"skipna": True} if skipna else {}
    keep = E.pick("keep_attrs", [None, True])
    dims = tuple("pqr"[:nd])
    if cont in ("numpy", "list"):
        A, B = E.box(cont, a), E.box(cont, b)
        if wt:
            kw["weights"] = E.box(cont, w)
        if axis is not None:
            kw["axis"] = axis
        out = np.asarray(E.call(P, A, B, **kw))
    else:
        A, B = (E.box("xarray", f, dims=dims, attrs=E.meta({"u": 1}), name="v") for f in (a, b))
        if cont == "dataset":
            A, B = E.dataset({"v": A}), E.dataset({"v": B})
        if wt:
            # weights over the reduced dimensions, the same for every other position
            w = E.field("wd", tuple(sh[k] for k in along), 0.1, 10)
            kw["weights"] = E.box("xarray", w, dims=tuple(dims[k] for k in along))
        if axis is not None:
            kw["dim"] = dims[axis] if E.flag("name") else [dims[axis]]
        if keep:
            kw["keep_attrs"] = True
        out = E.call(P, A, B, **kw)
        if cont == "dataset":
            E.ok("a Dataset gives a Dataset", isinstance(out, xr.Dataset))
            out = out["v"]
        E.ok("a DataArray gives a DataArray", isinstance(out, xr.DataArray))
        out = out.values
    rest = [k for k in range(nd) if k not in along]
    E.same("shape", out.shape, tuple(sh[k] for k in rest))
    for ix in np.ndindex(*out.shape):
        pairs = []
        for jx in np.ndindex(*[sh[k] for k in along]):
            full = [0] * nd
            for k, i in list(zip(rest, ix)) + list(zip(along, jx)):
                full[k] = i
            x, y = a(*full), b(*full)
            if skipna and (np.isnan(x) or np.isnan(y)):
                continue
            pairs.append((x, y, (w(*full) if cont in ("numpy", "list") else w(*jx)) if wt else 1.0))
        c = corr(E, pairs)
        if c is None:
            continue
        E.eq("weighted correlation", out[ix], c, tol=1e-7, scale=1)
        if not np.isnan(c):
            E.ok("within -1..1", -1 <= out[ix] <= 1)


def fields(E, sh, wt, nan=True):
    a, b = E.field("a", sh, -100, 100, nan=nan), E.field("b", sh, -100, 100, nan=nan)
    return a, b, E.field("w", sh, 0.1, 10) if wt else None


@case(["C24", "C28"], [P], trials=500, seconds=20)
def c24_numpy(E):
    nd = E.pick("rank", [1, 2, 3])
    sh = tuple(E.dim(f"n{k}", 1, 5) for k in range(nd))
    axis = E.pick("axis", [None] + list(range(-nd, nd)))
    wt = E.pick("weights", [False, True])
    skipna = E.pick("skipna", [False, True])
    cont = E.pick("container", ["numpy", "list", "numpy, second one a transposed view"])
    a, b, w = fields(E, sh, wt, E.pick("missing", [True, False]))
    kw = {"weights": E.box(cont.split(",")[0], w)} if wt else {}
    if axis is not None:
        kw["axis"] = axis
    if skipna:
        kw["skipna"] = True
    if "view" in cont:
        B = E.box("numpy", E.derive(sh[::-1], lambda *ix: b(*ix[::-1]))).T
    else:
        B = E.box(cont, b)
    out = E.call(P, E.box(cont.split(",")[0], a), B, **kw)
    if axis is None:
        E.same("shape", E.shape(out), ())
        E.eq("weighted correlation of all elements", E.at(out), E.corr(sh, a, b, w, skipna), tol=1e-7, scale=1)
        return
    ax = axis % nd
    rest = sh[:ax] + sh[ax + 1:]
    E.same("shape", E.shape(out), rest)
    for ix in E.points(rest):
        g = lambda f: None if f is None else (lambda k: f(*ix[:ax], k, *ix[ax:]))
        E.eq("weighted correlation along the axis", E.at(out, *ix), E.corr((sh[ax],), g(a), g(b), g(w), skipna), tol=1e-7, scale=1)


@case(["C24", "C28"], [P], trials=400, seconds=20)
def c24_labelled(E):
    nd = E.pick("rank", [1, 2, 3])
    sh = tuple(E.dim(f"n{k}", 1, 5) for k in range(nd))
    dims = tuple("pqr"[:nd])
    over = E.pick("over", {1: [None, "p", ["p"]], 2: [None, "p", "q", ["q"], ["p", "q"]],
                           3: [None, "p", "q", "r", ["p", "q"], ["p", "r"], ["q", "r"], ["p", "q", "r"]]}[nd])
    wt = E.pick("weights", [False, True])
    skipna = E.pick("skipna", [False, True])
    keep = E.pick("keep_attrs", [None, True])
    core = tuple(range(nd)) if over is None else tuple(dims.index(d) for d in ([over] if isinstance(over, str) else over))
    rest = tuple(k for k in range(nd) if k not in core)
    a, b, _ = fields(E, sh, False)
    w = E.field("w", tuple(sh[k] for k in core), 0.1, 10) if wt else None
    flip = E.pick("second input", ["same order", "transposed"]) == "transposed" and nd == 2
    co = {"p": E.levels("p", sh[0], 0, 100)}
    A = E.box("xarray", a, dims=dims, coords=co, attrs=E.meta({"u": 1}), name="v")
    if flip:
        bt = E.derive((sh[1], sh[0]), lambda j, i: b(i, j))
        B = E.box("xarray", bt, dims=("q", "p"), coords=co, attrs=E.meta({"u": 1}), name="v")
    else:
        B = E.box("xarray", b, dims=dims, coords=co, attrs=E.meta({"u": 1}), name="v")
    kw = {}
    if wt:
        kw["weights"] = E.box("xarray", w, dims=tuple(dims[k] for k in core), coords=co if 0 in core else {})
    if over is not None:
        kw["dim"] = over
    if skipna:
        kw["skipna"] = True
    if keep:
        kw["keep_attrs"] = True
    out = E.call(P, A, B, **kw)
    E.ok("a DataArray gives a DataArray", E.isxr(out))
    E.same("dims", E.dims(out), tuple(dims[k] for k in rest))
    E.same("attributes", E.attrs(out), E.attrs(A) if keep else {})
    for ix in E.points(tuple(sh[k] for k in rest)):
        def g(f):
            def h(*k):
                full = [None] * nd
                for q, i in list(zip(rest, ix)) + list(zip(core, k)):
                    full[q] = i
                return f(*full)
            return h
        E.eq("weighted correlation", E.at(out, *ix), E.corr(tuple(sh[k] for k in core), g(a), g(b), w, skipna), tol=1e-7, scale=1)


@case("C24", [P], prove=False, why="consequences of the formula; checked on samples", trials=200)
def c24_laws(E):
    import numpy as np
    n = E.dim("n", 3)
    a, b = E.field("a", (n,), -100, 100), E.field("b", (n,), -100, 100)
    if corr(E, [(x, y, 1.0) for x, y in zip(a.arr, b.arr)]) is None:
        E.discard()
    s, t = E.real("s", 0.1, 5), E.real("t", -10, 10)
    r = E.call(P, a.arr.copy(), b.arr.copy())
    E.eq("symmetric", E.call(P, b.arr.copy(), a.arr.copy()), r, tol=1e-9, scale=1)
    E.eq("unchanged by positive affine rescaling", E.call(P, s * a.arr + t, b.arr.copy()), r, tol=1e-6, scale=1)
    E.eq("a field correlates perfectly with itself", E.call(P, a.arr.copy(), a.arr.copy()), 1.0, tol=1e-9, scale=1)


EOF, PC = "stats.eofunc_eofs", "stats.eofunc_pcs"
GEN = "stats._generate_eofs_solver"


def analysis(x, w, center, ddof):
    """reference EOF analysis of x (time first): eigenvalues, EOFs (rows), PCs (columns)"""
    import numpy as np
    n = x.shape[0]
    d = x - x.mean(axis=0) if center else x
    d = d if w is None else d * w
    d = d.reshape(n, -1)
    u, s, vt = np.linalg.svd(d, full_matrices=False)
    return s * s / (n - ddof), vt, u * s, d


def match_sign(v, ref):
    return -1.0 if float((v * ref).sum()) < 0 else 1.0


@case(["C25", "C28"], [EOF, PC, GEN], prove=False, why="the singular value decomposition is computed inside eofs; checked on samples",
      trials=300, seconds=30)
def c25_eofs(E):
    import numpy as np
    import xarray as xr
    cont = E.pick("container", ["numpy", "list", "xarray"])
    nd = E.pick("rank", [2, 3, 4])
    sh = tuple(E.dim(f"n{k}", 2, 5) for k in range(nd))
    ta = 0 if cont == "xarray" else E.pick("time axis", list(range(-nd, nd)))
    x = E.field("x", sh, -100, 100)
    center = E.pick("center", [True, False])
    ddof = E.pick("ddof", [1, 0])
    scal = E.pick("scaling", [0, 1, 2])
    wt = E.pick("weights", [False, True])
    vf = E.pick("vfscaled", [False, True])
    meta = E.pick("meta", [False, True]) if cont == "xarray" else False
    xt = np.moveaxis(x.arr, ta, 0)
    sp = xt.shape[1:]
    w = E.field("w", sp, 0.3, 3) if wt else None
    lam, eofs, pcs, d = analysis(xt, None if w is None else w.arr, center, ddof)
    r = min(xt.shape[0] - (1 if center else 0), int(np.prod(sp)))
    lam_r = lam[:r]
    if r < 1 or lam_r[-1] < 1e-2 or np.any(np.abs(np.diff(lam_r)) < 1e-2 * lam_r[0]):
        E.discard()  # repeated or vanishing eigenvalues: the EOFs are not unique
    k = E.int("number", 1, r)
    kw = {}
    if center is not True:
        kw["center"] = center
    if ddof != 1:
        kw["ddof"] = ddof
    if ta != 0 or E.flag("explicit time_dim"):
        kw["time_dim"] = ta
    if wt:
        kw["weights"] = w.arr.copy()
    if meta:
        kw["meta"] = True
    X = E.box("xarray", x, dims=("time",) + tuple("abc"[:nd - 1]), coords={"time": E.from_array(np.arange(sh[0]) * 1.0), "a": E.from_array(
        np.arange(sh[1]) * 2.0)}, attrs=E.meta({"units": "K"})) if cont == "xarray" else E.box(cont, x)
    o1 = E.call(EOF, X, neofs=k, eofscaling=scal, vfscaled=vf, **kw)
    o2 = E.call(PC, X, npcs=k, pcscaling=scal, **kw)
    E.same("shape of the EOFs", o1.shape, (k,) + sp)
    E.same("leading dimension of the EOFs", o1.dims[0], "eof")
    E.same("shape of the PCs", o2.shape, (k, xt.shape[0]))
    E.same("dims of the PCs", tuple(o2.dims), ("pc", "time"))
    if meta:
        E.same("dims kept", tuple(o1.dims[1:]), tuple("abc"[:nd - 1]))
        E.same("attributes kept", o1.attrs["units"], "K")
        E.same("coordinates kept", o1.coords["a"].values, np.arange(sh[1]) * 2.0)
        E.same("time kept", o2.coords["time"].values, np.arange(sh[0]) * 1.0)
    s = np.sqrt(lam)
    for q in range(k):
        f = {0: 1.0, 1: 1 / s[q], 2: s[q]}[scal]
        v = o1.values[q].reshape(-1)
        sg = match_sign(v, eofs[q])
        for t in range(v.size):
            E.eq("EOF", sg * v[t], eofs[q][t] * f, tol=1e-6, scale=max(1.0, f))
        p = o2.values[q]
        ref = pcs[:, q] * f
        sg = match_sign(p, ref)
        for t in range(p.size):
            E.eq("PC", sg * p[t], ref[t], tol=1e-6, scale=np.abs(ref).max())
    A = o1.attrs
    n = xt.shape[0]
    tot = lam.sum()
    vals = {"eigenvalues": lam[:k], "varianceFraction": lam[:k] / tot, "totalAnomalyVariance": tot,
            "northTest": lam[:k] * np.sqrt(2.0 / n) / (tot if vf else 1)}
    for key, ref in vals.items():
        got = np.asarray(A[key])
        E.same("size of " + key, got.shape, np.shape(ref))
        E.ok(key, np.allclose(got, ref, rtol=1e-6, atol=1e-8 * abs(tot)))


@case(["C25", "C28"], [EOF, PC, GEN], trials=300, seconds=20)
def c25_routing(E):
    """which analysis is returned: of which samples, weights, centring, degrees of freedom, scalings and numbers"""
    cont = E.pick("container", ["numpy", "list", "xarray"])
    nd = E.pick("rank", [2, 3])
    sh = tuple(E.dim(f"n{k}", 2, 5) for k in range(nd))
    ta = 0 if cont == "xarray" else E.pick("time axis", list(range(-nd, nd)))
    x = E.field("x", sh, -100, 100)
    ax = ta % nd
    nt, sp = sh[ax], sh[:ax] + sh[ax + 1:]
    xt = lambda t, *ix: x(*ix[:ax], t, *ix[ax:])
    center = E.pick("center", [None, True, False])
    ddof = E.int("ddof", 0, 1) if E.pick("ddof given", [True, False]) else None
    scal = E.int("scaling", 0, 2) if E.pick("scaling given", [True, False]) else None
    vf = E.pick("vfscaled", [None, True])
    meta = E.pick("meta", [False, True]) if cont == "xarray" else False
    w = E.field("w", sp, 0.3, 3) if E.pick("weights", [False, True]) else None
    k = E.int("number", 1, 4)
    np_ = sp[0]
    for d in sp[1:]:
        np_ = np_ * d
    E.assume(E.And(k <= nt - 1, k <= np_))
    want = E.eof((nt,) + sp, xt, w, center is not False, 1 if ddof is None else ddof)
    kw = {} if center is None else {"center": center}
    if ddof is not None:
        kw["ddof"] = ddof
    if ta != 0:
        kw["time_dim"] = ta
    if w is not None:
        kw["weights"] = E.box("numpy", w)
    if meta:
        kw["meta"] = True
    if cont == "xarray":
        co = {"time": E.levels("time", nt, 0, 1000), "a": E.levels("la", sp[0], 0, 100)}
        X = E.box("xarray", x, dims=("time",) + tuple("abc"[:nd - 1]), coords=co, attrs=E.meta({"units": "K"}))
    else:
        X = E.box(cont, x)
    k1, k2, k3 = dict(kw), dict(kw), {} if scal is None else {"pcscaling": scal}
    if scal is not None:
        k1["eofscaling"] = scal
    if vf is not None:
        k1["vfscaled"] = vf
    o = E.call(EOF, X, neofs=k, **k1)
    p = E.call(PC, X, npcs=k, **k2, **k3)
    sc = 0 if scal is None else scal
    E.ok("labelled results", E.isxr(o) and E.isxr(p))
    E.same("shape of the EOFs", E.shape(o), (k,) + sp)
    E.same("shape of the PCs", E.shape(p), (k, nt))
    E.same("leading dimension of the EOFs", E.dims(o)[0], "eof")
    E.same("dims of the PCs", E.dims(p), ("pc", "time"))
    want.align(o, p)
    for q, *ix in E.points((k,) + sp):
        E.eq("EOF", E.at(o, q, *ix), want.eof(q, sc, *ix), tol=1e-8, scale=1)
        A = E.attrs(o)
        E.eq("eigenvalues", E.at(E.val(A["eigenvalues"]), q), want.eig(q), tol=1e-8, scale=1)
        E.eq("variance fraction", E.at(E.val(A["varianceFraction"]), q), want.frac(q), tol=1e-8, scale=1)
        E.eq("sampling error", E.at(E.val(A["northTest"]), q), want.north(q, vf is True), tol=1e-8, scale=1)
    for key in ("eigenvalues", "varianceFraction", "northTest"):
        E.same("size of " + key, E.shape(E.val(A[key])), (k,))
    E.eq("total variance", E.val(A["totalAnomalyVariance"]), want.total(), tol=1e-8, scale=1)
    for q, t in E.points((k, nt)):
        E.eq("PC", E.at(p, q, t), want.pc(q, sc, t), tol=1e-8, scale=1)
    if meta:
        E.same("dims kept", E.dims(o)[1:], tuple("abc"[:nd - 1]))
        E.same("attributes kept", E.attrs(o)["units"], "K")
        for (i,) in E.points(sp[:1]):
            E.eq("coordinates kept", E.at(E.coord(o, "a"), i), E.at(E.coord(X, "a"), i))
        for (t,) in E.points((nt,)):
            E.eq("time kept", E.at(E.coord(p, "time"), t), E.at(E.coord(X, "time"), t))


@case(["C25", "C29"], [EOF, PC, GEN], trials=60)
def c29_eof(E):
    nd = E.pick("rank", [2, 3])
    cont = E.pick("container", ["numpy", "list"])
    sh = tuple(E.dim(f"n{k}", 3, 5) for k in range(nd))
    X = E.box(cont, E.field("x", sh, -100, 100))
    if E.pick("what", ["count", "axis"]) == "count":
        k = E.int("number", -3, 0)
        E.raises("non-positive number of EOFs", ValueError, EOF, X, neofs=k)
        E.raises("non-positive number of PCs", ValueError, PC, X, npcs=k)
    else:
        t = E.int("axis", -9, 9)
        E.assume(E.Or(t >= nd, t < -nd))
        E.raises("no such axis", ValueError, EOF, X, time_dim=t)
        E.raises("no such axis", ValueError, PC, X, time_dim=t)


@case("C25", ["stats.eofunc", "stats.eofunc_ts", EOF, PC, GEN], trials=100)
def c25_legacy(E):
    """the old names give exactly the new functions' results, time last unless said otherwise"""
    nd = E.pick("rank", [2, 3])
    cont = E.pick("container", ["numpy", "list"])
    sh = tuple(E.dim(f"n{k}", 2, 5) for k in range(nd))
    x = E.field("x", sh, -100, 100)
    ta = E.pick("axis", [None] + list(range(nd)))
    ax = nd - 1 if ta is None else ta
    nt, sp = sh[ax], sh[:ax] + sh[ax + 1:]
    k = E.int("number", 1, 4)
    np_ = sp[0]
    for d in sp[1:]:
        np_ = np_ * d
    E.assume(E.And(k <= nt - 1, k <= np_))
    want = E.eof((nt,) + sp, lambda t, *ix: x(*ix[:ax], t, *ix[ax:]), None, True, 1)
    kw = {} if ta is None else {"time_dim": ta}
    X = E.box(cont, x)
    o = E.call("stats.eofunc", X, k, **kw)
    p = E.call("stats.eofunc_ts", X, o, **kw)
    E.same("shape of the EOFs", E.shape(o), (k,) + sp)
    E.same("shape of the PCs", E.shape(p), (k, nt))
    E.same("leading dimension of the EOFs", E.dims(o)[0], "eof")
    E.same("dims of the PCs", E.dims(p), ("pc", "time"))
    want.align(o, p)
    for q, *ix in E.points((k,) + sp):
        E.eq("EOF", E.at(o, q, *ix), want.eof(q, 0, *ix), tol=1e-8, scale=1)
        E.eq("eigenvalues", E.at(E.val(E.attrs(o)["eigenvalues"]), q), want.eig(q), tol=1e-8, scale=1)
        E.eq("variance fraction", E.at(E.val(E.attrs(o)["varianceFraction"]), q), want.frac(q), tol=1e-8, scale=1)
        E.eq("sampling error", E.at(E.val(E.attrs(o)["northTest"]), q), want.north(q, False), tol=1e-8, scale=1)
    for q, t in E.points((k, nt)):
        E.eq("PC", E.at(p, q, t), want.pc(q, 0, t), tol=1e-8, scale=1)


@case(["C25"], [EOF, PC, GEN], prove=False, why="the singular value decomposition is computed inside eofs; checked on samples", trials=150)
def c25_reconstruct(E):
    import numpy as np
    nd = E.pick("rank", [2, 3])
    sh = tuple(E.dim(f"n{k}", 2, 5) for k in range(nd))
    ta = E.pick("time axis", list(range(-nd, nd)))
    x = E.field("x", sh, -100, 100)
    xt = np.moveaxis(x.arr, ta, 0)
    r = min(xt.shape[0], int(np.prod(xt.shape[1:])))
    e = E.call(EOF, x.arr.copy(), neofs=r, time_dim=ta).values.reshape(r, -1)
    p = E.call(PC, x.arr.copy(), npcs=r, time_dim=ta).values
    rec = (p.T @ e).reshape(xt.shape) + xt.mean(axis=0)
    for ix in E.points(xt.shape):
        E.eq("PCs times EOFs plus the time mean", rec[ix], xt[ix], tol=1e-7, scale=100)


@case(["C25", "C29"], [EOF, PC, GEN, "stats.eofunc", "stats.eofunc_ts"], prove=False, why="the singular value decomposition is computed inside eofs; checked on samples", trials=150)
def c25_requests(E):
    import numpy as np
    nd = E.pick("rank", [2, 3])
    sh = tuple(E.dim(f"n{k}", 3, 5) for k in range(nd))
    x = E.field("x", sh, -100, 100)
    what = E.pick("what", ["count", "axis", "legacy", "legacy default"])
    X = x.arr.copy()
    if what == "count":
        k = E.int("number", -3, 0)
        E.raises("non-positive number of EOFs", ValueError, EOF, X, neofs=k)
        E.raises("non-positive number of PCs", ValueError, PC, X, npcs=k)
    elif what == "axis":
        t = E.pick("axis", [nd, nd + 1, -nd - 1, -nd - 3])
        E.raises("no such axis", ValueError, EOF, X, time_dim=t)
        E.raises("no such axis", ValueError, PC, X, time_dim=t)
    else:
        k = E.int("number", 1, 2)
        ta = E.int("axis", 0, nd - 1) if what == "legacy" else nd - 1
        kw = {"time_dim": ta} if what == "legacy" else {}
        X = E.pick("given as", [X, X.tolist()])
        a, b = E.call("stats.eofunc", X, k, **kw), E.call(EOF, X, neofs=k, time_dim=ta)
        E.same("eofunc equals eofunc_eofs", a.values, b.values)
        E.same("dims", a.dims, b.dims)
        E.same("attributes", {q: np.asarray(v) for q, v in a.attrs.items()}, {q: np.asarray(v) for q, v in b.attrs.items()})
        a, b = E.call("stats.eofunc_ts", X, a, **kw), E.call(PC, X, npcs=k, time_dim=ta)
        E.same("eofunc_ts equals eofunc_pcs", a.values, b.values)
        E.same("dims", a.dims, b.dims)
