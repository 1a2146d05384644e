"""C06 maximum daylight, C07 layer thickness, C08 hybrid levels."""
from vpy.spec import case, summary
from .met_basic import put, ycoord


# ------------------------------------------------------------------ C06
def declination(E, day):
    return 0.409 * E.sin(2 * E.pi / 365 * day - 1.39)


def daylight(E, day, lat):
    x = -E.tan(lat * (E.pi / 180)) * E.tan(declination(E, day))
    return (24 / E.pi) * E.acos(x), x


def _put_day(E, cont, f, dim):
    if cont == "xarray":
        return E.box("xarray", f, dims=(dim,), coords={dim: f})
    return E.box(cont, f)


@case(["C06", "C28"], ["meteorology.max_daylight"])
def c06_formula(E):
    cont = E.pick("container", ["scalar", "list", "numpy", "xarray"])
    latc = E.pick("lat_container", [cont] if cont != "numpy" else ["numpy", "scalar"])
    n = E.dim("n0") if cont != "scalar" else None
    m = E.dim("m0") if latc != "scalar" else None
    day = E.field("day", () if n is None else (n,), 0, 366)
    lat = E.field("lat", () if m is None else (m,), -89, 89, hot=[0, 55, 66, -55, -66])
    out = E.call("meteorology.max_daylight", _put_day(E, cont, day, "doy"), _put_day(E, latc, lat, "lat"))
    N, M = (1 if n is None else n), (1 if m is None else m)
    E.same("shape is (days, latitudes)", E.shape(out), (N, M))
    E.ok("container", E.isxr(out) == (cont == "xarray"))
    if E.isxr(out):
        E.same("dims", E.dims(out), ("doy", "lat"))
    for i, j in E.points((N, M)):
        d = day(i) if n is not None else day()
        l = lat(j) if m is not None else lat()
        v, x = daylight(E, d, l)
        if not E.sym and abs(abs(x) - 1) < 1e-3:
            continue  # single-precision input at the edge of the polar night
        E.eq("FAO-56 astronomy at every (day, latitude)", E.at(out, i, j), v, tol=5e-4)
        if E.isxr(out):
            E.eq("day coordinate", E.at(E.coord(out, "doy"), i), d, tol=1e-6)
            E.eq("latitude coordinate", E.at(E.coord(out, "lat"), j), l, tol=1e-6)


@case("C06", ["meteorology.max_daylight"])
def c06_laws(E):
    """equator, hemispheric symmetry, 0..24"""
    n = E.dim("n0")
    day = E.field("day", (n,), 0, 366)
    lat = E.real("lat", -66, 66, hot=[0])
    up = E.call("meteorology.max_daylight", E.box("numpy", day), E.box("numpy", E.derive((1,), lambda i: lat)))
    dn = E.call("meteorology.max_daylight", E.box("numpy", day), E.box("numpy", E.derive((1,), lambda i: -lat)))
    eq = E.call("meteorology.max_daylight", E.box("numpy", day), E.box("numpy", E.derive((1,), lambda i: 0 * lat)))
    for (i,) in E.points((n,)):
        a, b = E.at(up, i, 0), E.at(dn, i, 0)
        E.eq("twelve hours at the equator", E.at(eq, i, 0), E.num(12.0), tol=1e-5)
        if E.sym:
            # |tan(66 deg)| < 2.2461 and |tan(0.409)| < 0.4337 : their product is below 1
            x = daylight(E, day(i), lat)[1]
            E.lemma("the sun rises and sets within 66 degrees", E.abs(x) < 1,
                    [E.abs(E.tan(lat * (E.pi / 180))) < E.frac(22461, 10000),
                     E.abs(E.tan(declination(E, day(i)))) < E.frac(4337, 10000)],
                    "tan is increasing on (-pi/2, pi/2), tan(66 deg) < 2.2461, tan(0.409) < 0.4337, |sin| <= 1")
        E.le("not negative", E.num(0.0), a, tol=1e-5)
        E.le("at most 24 hours", a, E.num(24.0), tol=1e-5)
        E.eq("hemispheric symmetry", a + b, E.num(24.0), tol=1e-4)


@case(["C06", "C29", "C28"], ["meteorology.max_daylight"])
def c06_rank(E):
    which = E.pick("two_dimensional", ["day", "lat", "both"])
    cont = E.pick("container", ["numpy", "list"])
    n, m = E.dim("n0"), E.dim("m0")
    day = E.field("day", (n, m) if which != "lat" else (n,), 0, 366)
    lat = E.field("lat", (n, m) if which != "day" else (m,), -60, 60)
    E.raises("more than one dimension refused", ValueError, "meteorology.max_daylight", E.box(cont, day), E.box(cont, lat))


# ------------------------------------------------------------------ C07
def layer(E, p, n, ps, ptop, k):
    """thickness of layer k of increasing levels p(0..n-1)"""
    mid = lambda i: (p(i - 1) + p(i)) / 2
    below = E.And(k > 0, E.ite(k > 0, lambda: mid(E.ite(k > 0, k, 1)), 0) >= ps) if not E.sym else E.And(k > 0, mid(k) >= ps)
    if not E.sym:
        if below:
            return E.nan
        up = ptop if k == 0 else mid(k)
        low = ps if k == n - 1 or mid(k + 1) >= ps else mid(k + 1)
        return low - up
    up = E.ite(E.eq_(k, 0), ptop, mid(k))
    low = E.ite(E.Or(E.eq_(k, n - 1), mid(k + 1) >= ps), ps, mid(k + 1))
    return E.ite(below, E.nan, low - up)


def oriented(E, lev, n, dec, k):
    """k-th level from the top, and the map from level index to position from the top"""
    return (lambda i: lev(n - 1 - i), n - 1 - k) if dec else (lev, k)


@summary("meteorology._delta_pressure1D", "c07_helper")
def s_dp1d(E, lev, ps, ptop):
    if not E.is_levels(lev):
        return NotImplemented
    lev = E.plain(lev)
    ps, ptop = E.num(E.at(ps)), E.num(E.at(ptop))
    if E.branch(ptop < 0):
        raise ValueError("negative pressure")
    if E.branch(ptop > ps):
        raise ValueError("surface above top")
    n = E.shape(lev)[0]
    p = lambda i: E.at(lev, i)
    E.ok("precondition: at least two levels", n >= 2)
    dec = E.branch(p(1) < p(0))
    E.require_monotone("precondition: strictly monotone levels", p, n, dec)
    q = (lambda i: p(n - 1 - i)) if dec else p
    E.ok("precondition: top at or above the first level", ptop <= q(0))
    return E.array((n,), lambda k: layer(E, q, n, ps, ptop, n - 1 - k if dec else k))


@case("C07", ["meteorology._delta_pressure1D"])
def c07_helper(E):
    n = E.dim("n", 2)
    dec = E.pick("order", ["increasing", "decreasing"]) == "decreasing"
    lev = E.levels("lev", n, 0, 1000, increasing=not dec)
    first = lev(n - 1) if dec else lev(0)
    ptop = E.real("ptop", 0, 1000, hot=[0])
    ps = E.real("ps", 0, 2000)
    if not E.sym:
        ptop = ptop * first / 1000
        ps = ptop + 1e-3 + ps * 1.2 * max(lev(0), lev(n - 1)) / 2000
    E.assume(E.And(ptop <= first, ptop < ps))
    out = E.call("meteorology._delta_pressure1D", E.box("numpy", lev), ps, ptop)
    E.same("one thickness per level", E.shape(out), (n,))
    q = (lambda i: lev(n - 1 - i)) if dec else lev
    for (k,) in E.points((n,)):
        E.eq("layer thickness", E.at(out, k), layer(E, q, n, ps, ptop, n - 1 - k if dec else k))


@case(["C07", "C28"], ["meteorology.delta_pressure", "meteorology._delta_pressure1D"], trials=500)
def c07_delta_pressure(E):
    pc = E.pick("surface", ["scalar", "npscalar", "numpy1", "numpy2", "numpy3", "xarray0", "xarray1", "xarray2"])
    lc = E.pick("levels", ["list", "numpy", "xarray"])
    top = E.pick("top", ["default", "given"])
    dec = E.pick("order", ["increasing", "decreasing"]) == "decreasing"
    n = E.dim("n", 2)
    lev = E.levels("lev", n, 0, 1000, increasing=not dec)
    q = (lambda i: lev(n - 1 - i)) if dec else lev
    sh = () if pc[-1] not in "123" else tuple(E.dim(f"s{i}") for i in range(int(pc[-1])))
    ps = E.field("ps", sh, 0, 1100, hot=[] if E.sym else [q(n - 1), (q(0) + q(1)) / 2, q(0) + 1e-3, q(1)])
    if top == "given":
        ptop = E.real("ptop", 0, 1000, hot=[0])
        if not E.sym and ptop > q(0):
            ptop = ptop * q(0) / 1000
        E.assume(ptop <= q(0))
    else:
        ptop = q(0)
    if not E.sym:
        ps.arr[...] = np_max(ps.arr, ptop + 1e-3)
    E.forall_assume(ps, lambda *ix: ps(*ix) > ptop) if sh else E.assume(ps() > ptop)
    dims = ("time", "x", "y")[:len(sh)]
    at = E.meta({"units": "Pa"})
    base = pc.rstrip("0123")
    tcoord = E.field("tcoord", sh[:1], 0, 100) if sh else None
    a_ps = E.box("xarray", ps, dims=dims, attrs=at, coords={"time": tcoord} if sh else None) if base == "xarray" else E.box(
        base, ps)
    a_lev = E.box("xarray", lev, dims=("plev",), coords={"plev": lev}, attrs={"axis": "Z"}) if lc == "xarray" else E.box(lc, lev)
    args = [a_lev, a_ps] + ([ptop] if top == "given" else [])
    out = E.call("meteorology.delta_pressure", *args)
    E.same("shape: level dimension last", E.shape(out), sh + (n,))
    for ix in E.points(sh + (n,)):
        k = ix[-1]
        E.eq("layer thickness from its own surface pressure", E.at(out, *ix),
             layer(E, q, n, ps(*ix[:-1]), ptop, n - 1 - k if dec else k))
    if base == "xarray":
        E.ok("DataArray for a DataArray", E.isxr(out))
        E.same("dims", E.dims(out), dims + ("lev",))
        for (k,) in E.points((n,)):
            E.eq("level coordinate", E.at(E.coord(out, "lev"), k), lev(k))
    else:
        E.ok("plain array otherwise", E.Or(not E.isxr(out), base == "scalar"))


def np_max(a, b):
    import numpy as np
    return np.maximum(a, b)


@case("C07", ["meteorology.delta_pressure"])
def c07_total(E):
    """the thicknesses are positive and add up to surface minus top"""
    n = E.dim("n", 2)
    dec = E.pick("order", ["increasing", "decreasing"]) == "decreasing"
    lev = E.levels("lev", n, 0, 1000, increasing=not dec)
    q = (lambda i: lev(n - 1 - i)) if dec else lev
    ptop = E.real("ptop", 0, 1000)
    ps = E.real("ps", 0, 1500)
    if not E.sym:
        ptop = ptop * q(0) / 1000
        ps = ptop + 1e-3 + ps
    E.assume(E.And(ptop <= q(0), ptop < ps))
    out = E.call("meteorology.delta_pressure", E.box("numpy", lev), ps, ptop)
    v = (lambda k: E.at(out, n - 1 - k)) if dec else (lambda k: E.at(out, k))
    for (k,) in E.points((n,)):
        x = v(k)
        E.ok("positive where not missing", E.Or(E.isnan(x), x > 0))
    tot = lambda k: E.ite(E.isnan(v(k)), 0.0, lambda: v(k))
    mid = lambda i: (q(i - 1) + q(i)) / 2

    def partial(m):
        """sum of the first m layers: from the top to the interface below layer m-1, or to the surface"""
        return E.ite(m < 1, 0.0, lambda: E.ite(E.Or(m >= n, mid(m) >= ps), ps - ptop, mid(m) - ptop))

    s = E.sum_by_induction("thicknesses add up from the top", n, tot, partial)
    E.eq("column total is surface minus top", s, ps - ptop)


@case(["C07", "C29", "C28"], ["meteorology.delta_pressure", "meteorology._delta_pressure1D"])
def c29_delta_pressure(E):
    """a top above the first level or below zero, a surface above the top: refused"""
    what = E.pick("request", ["top above first level", "negative top", "surface above top", "one surface above top"])
    lc = E.pick("levels", ["list", "numpy", "xarray"])
    dec = E.pick("order", ["increasing", "decreasing"]) == "decreasing"
    n = E.dim("n", 2)
    lev = E.levels("lev", n, 0, 1000, increasing=not dec)
    q = (lambda i: lev(n - 1 - i)) if dec else lev
    m = E.dim("m")
    a_lev = E.box("xarray", lev, dims=("plev",)) if lc == "xarray" else E.box(lc, lev)
    if what == "top above first level":
        ptop = E.real("ptop", 0, 3000)
        if not E.sym:
            ptop = q(0) + 1e-3 + ptop
        E.assume(ptop > q(0))
        ps = E.real("ps", 4000, 5000)
    elif what == "negative top":
        ptop = E.real("ptop", -100, 0, strict=True)
        ps = E.real("ps", 1000, 2000)
    else:
        ptop = E.real("ptop", 0, 1000)
        if not E.sym:
            ptop = ptop * q(0) / 1000
        E.assume(ptop <= q(0))
        bad = E.real("bad", 0, 1000)
        if not E.sym:
            bad = bad * ptop / 1000
            E.assume(bad < ptop)
        E.assume(bad < ptop)
        if what == "surface above top":
            ps = bad
        else:
            at = E.index("at", m)
            psf = E.field("ps", (m,), 1001, 2000, plant=((at,), bad))
            ps = E.box("numpy", psf)
    E.raises("refused", ValueError, "meteorology.delta_pressure", a_lev, ps, ptop)


# ------------------------------------------------------------------ C08
@case(["C08", "C28"], ["interpolation.pressure_at_hybrid_levels"])
def c08_pressure(E):
    cont = E.pick("container", ["numpy", "xarray"])
    rank = E.pick("rank", [2] if cont == "numpy" else [0, 1, 2, 3])
    p0k = E.pick("p0", ["default", "number"])
    names = E.pick("names", ["same", "different"]) if cont == "xarray" else "same"
    n = E.dim("n")
    hya = E.field("hya", (n,), 0, 1)
    hyb = E.field("hyb", (n,), 0, 1)
    sh = tuple(E.dim(f"s{i}") for i in range(rank))
    ps = E.field("ps", sh, 30000, 110000, nan=True)
    a = []
    p0 = E.num(100000.0)
    if p0k == "number":
        p0 = E.real("p0", 1, 200000)
        a = [p0]
    if cont == "numpy":
        out = E.call("interpolation.pressure_at_hybrid_levels", E.box("numpy", ps), E.box("numpy", hya), E.box("numpy", hyb), *a)
        E.same("level axis first", E.shape(out), (n,) + sh)
        for ix in E.points((n,) + sh):
            E.eq("hya p0 + hyb ps", E.at(out, *ix), hya(ix[0]) * p0 + hyb(ix[0]) * ps(*ix[1:]), scale=1e5)
        return
    dims = ("time", "lat", "lon")[:rank]
    b = "lev" if names == "same" else "level2"
    lat = E.field("latc", sh[1:2], -90, 90) if rank > 1 else None
    out = E.call("interpolation.pressure_at_hybrid_levels",
                 E.box("xarray", ps, dims=dims, coords={"lat": lat} if lat is not None else None),
                 E.box("xarray", hya, dims=("lev",)), E.box("xarray", hyb, dims=(b,)), *a)
    E.same("dims", set(E.dims(out)), set(("lev",) + dims))
    E.same("rank", len(E.dims(out)), rank + 1)
    od = E.dims(out)
    for ix in E.points((n,) + sh):
        w = dict(zip(("lev",) + dims, ix))
        E.eq("hya p0 + hyb ps", E.at(out, *[w[d] for d in od]), hya(ix[0]) * p0 + hyb(ix[0]) * ps(*ix[1:]), scale=1e5)


@case(["C08", "C28"], ["interpolation.delta_pressure_hybrid"])
def c08_delta(E):
    pc = E.pick("ps_container", ["numpy", "xarray"])
    hc = E.pick("coefficients", ["numpy", "xarray"])
    rank = E.pick("rank", [2] if pc == "numpy" else ([1, 2, 3] if hc == "xarray" else [1, 2, 3]))
    p0k = E.pick("p0", ["default", "number"])
    names = E.pick("names", ["same", "different"]) if hc == "xarray" and pc == "xarray" else "same"
    withc = E.pick("coords", [False, True]) if hc == "xarray" else False
    n = E.dim("n", 2)
    hya = E.field("hya", (n,), 0, 1)
    hyb = E.field("hyb", (n,), 0, 1)
    lev = E.field("lev", (n,), 0, 1000)
    sh = tuple(E.dim(f"s{i}") for i in range(rank))
    ps = E.field("ps", sh, 30000, 110000, nan=True)
    a = []
    p0 = E.num(100000.0)
    if p0k == "number":
        p0 = E.real("p0", 1, 200000)
        p0 = E.pyfloat(p0)
        a = [p0]
    dims = ("time", "lat", "lon")[:rank]
    b = "lev" if names == "same" else "level2"
    bx = lambda f, d: E.box("xarray", f, dims=(d,), coords={d: lev} if withc else None) if hc == "xarray" else E.box("numpy", f)
    out = E.call("interpolation.delta_pressure_hybrid",
                 E.box("xarray", ps, dims=dims, attrs=E.meta({"units": "Pa"})) if pc == "xarray" else E.box("numpy", ps),
                 bx(hya, "lev"), bx(hyb, b), *a)
    spec = lambda k, *ix: E.abs(p0 * (hya(k) - hya(k + 1)) + ps(*ix) * (hyb(k) - hyb(k + 1)))
    if pc == "numpy":
        E.same("interface pairs first", E.shape(out), (n - 1,) + sh)
        for ix in E.points((n - 1,) + sh):
            E.eq("thickness of the layer", E.at(out, *ix), spec(*ix), scale=1e5)
        return
    od = E.dims(out)
    E.ok("DataArray for a DataArray", E.isxr(out))
    E.same("rank", len(od), rank + 1)
    lv = [d for d in od if d not in dims]
    E.same("one level dimension", len(lv), 1)
    for ix in E.points((n - 1,) + sh):
        w = dict(zip((lv[0],) + dims, ix))
        E.eq("thickness of the layer", E.at(out, *[w[d] for d in od]), spec(*ix), scale=1e5)


@case(["C29", "C08", "C28"], ["interpolation.pressure_at_hybrid_levels", "interpolation.delta_pressure_hybrid"])
def c29_hybrid(E):
    q = E.pick("function", ["interpolation.pressure_at_hybrid_levels", "interpolation.delta_pressure_hybrid"])
    what = E.pick("request", ["differing shape", "mixed coefficients", "not arrays", "two-dimensional coefficients",
                              "mixed containers"])
    cont = E.pick("container", ["numpy", "xarray"])
    n, m = E.dim("n", 2), E.dim("m", 2)
    sh = (E.dim("s0"), E.dim("s1"))
    ps = E.field("ps", sh, 30000, 110000)
    pb = lambda c: E.box("xarray", ps, dims=("lat", "lon")) if c == "xarray" else E.box("numpy", ps)
    hb = lambda c, f, d=("lev", "lev2"): E.box("xarray", f, dims=d[:len(f.shape)]) if c == "xarray" else E.box(c, f)
    other = "numpy" if cont == "xarray" else "xarray"
    if what == "differing shape":
        E.assume(n != m)
        E.raises("differing coefficient shapes refused", ValueError, q, pb(cont), hb(cont, E.field("hya", (n,), 0, 1)),
                 hb(cont, E.field("hyb", (m,), 0, 1)))
    elif what == "mixed coefficients":
        E.raises("mixed coefficient containers refused", TypeError, q, pb(cont), hb(cont, E.field("hya", (n,), 0, 1)),
                 hb(other, E.field("hyb", (n,), 0, 1)))
    elif what == "not arrays":
        E.raises("lists refused", TypeError, q, pb(cont), hb("list", E.field("hya", (n,), 0, 1)),
                 hb("list", E.field("hyb", (n,), 0, 1)))
    elif what == "two-dimensional coefficients":
        if cont == "xarray" and q.endswith("levels"):
            return
        E.raises("two-dimensional coefficients refused", ValueError, q, pb(cont), hb(cont, E.field("hya", (n, m), 0, 1)),
                 hb(cont, E.field("hyb", (n, m), 0, 1)))
    else:
        if not q.endswith("levels"):
            return
        E.raises("mixed containers refused", TypeError, q, pb(cont), hb(other, E.field("hya", (n,), 0, 1)),
                 hb(other, E.field("hyb", (n,), 0, 1)))
