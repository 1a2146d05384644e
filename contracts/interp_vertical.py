"""C09 hybrid to pressure, C10 below-ground extrapolation, C11 sigma to hybrid."""
from vpy.spec import case, summary

R_D = 287.04
G = 9.80616
GAMMA = 0.0065


@summary("interpolation.pressure_at_hybrid_levels", "c08_pressure")
def s_pressure(E, psfc, hya, hyb, p0):
    return NotImplemented


def column_dims(rank, pos):
    d = list(("time", "lat", "lon")[:rank - 1])
    d.insert(pos, "lev")
    return tuple(d)


def setup(E, rank, pos, nan=True, increasing=True):
    """one interpolation problem: data (level dimension at pos), surface pressure, coefficients"""
    n, m = E.dim("n", 2), E.dim("m")
    sizes = {"lev": n}
    dims = column_dims(rank, pos)
    for d in dims:
        if d != "lev":
            sizes[d] = E.dim("n_" + d)
    sh = tuple(sizes[d] for d in dims)
    hdims = tuple(d for d in dims if d != "lev")
    data = E.field("data", sh, -500, 500, nan=nan)
    ps = E.field("ps", tuple(sizes[d] for d in hdims), 30000, 110000)
    hyam = E.levels("hyam", n, 0.001, 0.3, increasing=increasing)
    hybm = E.levels("hybm", n, 0, 0.7, increasing=increasing)
    return n, m, sizes, dims, hdims, sh, data, ps, hyam, hybm


@case(["C09", "C28"], ["interpolation.interp_hybrid_to_pressure", "interpolation.pressure_at_hybrid_levels"], trials=250)
def c09_formula(E):
    rank = E.pick("rank", [2, 3, 4])
    pos = E.pick("level position", list(range(rank)))
    method = E.pick("method", ["linear", "log"])
    p0k = E.pick("p0", ["default", "number"])
    order = E.pick("requested", ["ascending", "descending"])
    n, m, sizes, dims, hdims, sh, data, ps, hyam, hybm = setup(E, rank, pos)
    p0 = E.real("p0", 50000, 200000) if p0k == "number" else E.num(100000.0)
    lev = E.levels("lev", n, 0, 1000)
    new = E.levels("new_levels", m, 1000, 120000, increasing=order == "ascending")
    P = lambda ix, k: hyam(k) * p0 + hybm(k) * ps(*ix)
    if not E.sym and n > 1:
        # request some levels that are exactly a model level of the first column
        if E.flag("hit"):
            k0 = E.index("hit_level", n)
            new.arr[0] = P((0,) * (rank - 1), k0)
            E.assume(E.forall(m - 1, lambda i: new(i) < new(i + 1) if order == "ascending" else new(i) > new(i + 1)))
    coords = {"lev": lev}
    at = {d: E.field("c_" + d, (sizes[d],), 0, 360) for d in hdims}
    coords.update({d: at[d] for d in hdims})
    hc = {d: at[d] for d in hdims}
    meta = E.meta({"units": "K", "long_name": "temp"})
    a_data = E.box("xarray", data, dims=dims, coords=coords, name="T", attrs=meta)
    a_ps = E.box("xarray", ps, dims=hdims, coords=hc)
    hx = lambda f: E.box("xarray", f, dims=("lev",), coords={"lev": lev})
    kw = {"p0": p0} if p0k == "number" else {}
    out = E.call("interpolation.interp_hybrid_to_pressure", a_data, a_ps, hx(hyam), hx(hybm),
                 new_levels=E.box("numpy", new), lev_dim="lev", method=method, **kw)
    od = tuple("plev" if d == "lev" else d for d in dims)
    osh = tuple(m if d == "lev" else sizes[d] for d in dims)
    E.same("level dimension replaced in place", E.dims(out), od)
    E.same("shape", E.shape(out), osh)
    E.same("name", E.name(out), "T")
    E.same("attrs", E.attrs(out), meta)
    E.same("coordinates", E.coord_names(out), set(od))
    for (k,) in E.points((m,)):
        E.eq("plev holds the requested levels", E.at(E.coord(out, "plev"), k), new(k))
    for d in hdims:
        for (k,) in E.points((sizes[d],)):
            E.eq("other coordinates kept", E.at(E.coord(out, d), k), at[d](k))
    for ix in E.points(osh):
        h = tuple(i for i, d in zip(ix, dims) if d != "lev")
        t = new(ix[pos])
        full = lambda k: h[:pos] + (k,) + h[pos:]
        E.eq("interpolation in its own column", E.at(out, *ix),
             E.interp(method == "log", t, n, lambda k: P(h, k), lambda k: data(*full(k))), tol=1e-7, scale=500)


@case("C09", ["interpolation.interp_hybrid_to_pressure"], prove=False, trials=120, seconds=25,
      why="chunked arrays are processed through dask graphs, unsorted targets through a sort: checked at run time only")
def c09_lazy(E):
    """chunked data and unsorted or default targets give the numbers of the plain request"""
    rank = E.pick("rank", [2, 3])
    pos = E.pick("level position", list(range(rank)))
    method = E.pick("method", ["linear", "log"])
    order = E.pick("requested", ["any", "ascending", "default"])
    chunks = E.pick("chunks", ["none", "columns", "levels", "all"])
    n, m, sizes, dims, hdims, sh, data, ps, hyam, hybm = setup(E, rank, pos, increasing=E.pick("downwards", [True, False]))
    P = lambda ix, k: hyam(k) * 1e5 + hybm(k) * ps(*ix)
    lev = E.levels("lev", n, 0, 1000)
    kw = {}
    if order == "default":
        from numpy import array, float32
        new = E.from_array(array([1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1]) * 100.0)
        m = 21
    else:
        new = E.levels("new_levels", m, 1000, 120000)
        if order == "any":
            E.rng.shuffle(new.arr)
        kw["new_levels"] = E.box("numpy", new)
    a_data = E.box("xarray", data, dims=dims, coords={"lev": lev}, name="T")
    if chunks != "none":
        c = {d: -1 for d in dims}
        if chunks in ("columns", "all"):
            c.update({d: 1 for d in hdims})
        if chunks in ("levels", "all"):
            c["lev"] = max(1, n // 2)
        a_data = a_data.chunk(c)
    hx = lambda f: E.box("xarray", f, dims=("lev",), coords={"lev": lev})
    out = E.call("interpolation.interp_hybrid_to_pressure", a_data, E.box("xarray", ps, dims=hdims), hx(hyam), hx(hybm),
                 lev_dim="lev", method=method, **kw)
    osh = tuple(m if d == "lev" else sizes[d] for d in dims)
    E.same("shape", E.shape(out), osh)
    E.same("dims", E.dims(out), tuple("plev" if d == "lev" else d for d in dims))
    for (k,) in E.points((m,)):
        E.eq("plev holds the requested levels", E.at(E.coord(out, "plev"), k), new(k), tol=1e-6)
    for ix in E.points(osh):
        h = tuple(i for i, d in zip(ix, dims) if d != "lev")
        full = lambda k: h[:pos] + (k,) + h[pos:]
        val = lambda t: E.interp(method == "log", t, n, lambda k: P(h, k), lambda k: data(*full(k)))
        want, tol = val(new(ix[pos])), 1e-5
        if order == "default":  # the default levels are single precision: allow for targets rounded to it
            near = [val(new(ix[pos]) * (1 + q * 3e-6)) for q in (-1, 1)]
            if any(v != v for v in near):
                continue
            tol += sum(abs(v - want) for v in near if want == want) / 100
        E.eq("interpolation in its own column", E.at(out, *ix), want, tol=tol, scale=500)


@case(["C09", "C10", "C29", "C28"], ["interpolation.interp_hybrid_to_pressure"], trials=150)
def c29_hybrid_request(E):
    """unknown methods, unknown variables, missing extrapolation arguments, plain arrays: refused"""
    what = E.pick("request", ["method", "variable missing", "variable unknown", "no t_bot", "no phi_sfc", "plain data",
                              "plain surface pressure", "plain coefficients"])
    rank = E.pick("rank", [2, 3])
    n, m, sizes, dims, hdims, sh, data, ps, hyam, hybm = setup(E, rank, 0)
    new = E.levels("new_levels", m, 1000, 120000)
    lev = E.levels("lev", n, 0, 1000)
    bx = lambda f, d, plain=False: E.box("numpy", f) if plain else E.box("xarray", f, dims=d, coords={"lev": lev} if "lev" in d else None)
    sfc = lambda nm: bx(E.field(nm, ps.shape, 200, 330), hdims)
    kw = {"lev_dim": "lev", "new_levels": E.box("numpy", new)}
    err = ValueError
    if what == "method":
        kw["method"] = E.pick("value", ["cubic", "nearest", "Linear", "", "loglog"])
    elif what == "variable missing":
        kw.update(extrapolate=True)
    elif what == "variable unknown":
        kw.update(extrapolate=E.pick("extrapolate", [True, False]), variable=E.pick("value", ["height", "Temperature", "geo", ""]),
                  t_bot=sfc("t_bot"), phi_sfc=sfc("phi"))
    elif what in ("no t_bot", "no phi_sfc"):
        kw.update(extrapolate=E.pick("extrapolate", [True, False]), variable=E.pick("value", ["temperature", "geopotential"]))
        if what == "no phi_sfc":
            kw["t_bot"] = sfc("t_bot")
        else:
            kw["phi_sfc"] = sfc("phi")
    else:
        err = TypeError
    E.raises("refused: " + what, err, "interpolation.interp_hybrid_to_pressure", bx(data, dims, what == "plain data"),
             bx(ps, hdims, what == "plain surface pressure"), bx(hyam, ("lev",), what == "plain coefficients"),
             bx(hybm, ("lev",), what == "plain coefficients"), **kw)


# ------------------------------------------------------------------ C10
def poly3(E, y):
    return 1 + y + E.frac(1, 2) * y * y + E.frac(1, 6) * y * y * y


def below_ground(E, variable, t, p, psfc_lev, ps, phi):
    """ECMWF extrapolation to pressure p below the lowest model level (pressure psfc_lev)"""
    a = GAMMA * R_D / G
    ts = t * (1 + a * (ps / psfc_lev - 1))
    h = phi / G
    t0 = ts + GAMMA * h
    ln = E.log(p / ps)
    if variable == "temperature":
        plat = E.min(E.num(298.0), t0)
        tp = E.ite(h > 2500, plat, E.frac(2, 1000) * ((2500 - h) * t0 + (h - 2000) * plat))
        y = E.ite(h < 2000, lambda: a * ln,
                  lambda: E.ite(tp < ts, lambda: E.num(0.0), lambda: R_D * (tp - ts) / phi * ln))
        return ts * poly3(E, y)
    warm = E.And(ts > 290.5, t0 > 290.5)
    al = E.ite(warm, lambda: E.num(0.0), lambda: E.ite(E.And(ts <= 290.5, t0 > 290.5), lambda: R_D / phi * (290.5 - ts), lambda: E.num(a)))
    t1 = E.ite(warm, 0.5 * (290.5 + ts), ts)
    t2 = E.ite(t1 < 255, 0.5 * (t1 + 255), t1)
    y = al * ln
    return h - R_D * t2 / G * ln * (1 + E.frac(1, 2) * y + E.frac(1, 6) * y * y)


def near_threshold(E, t, psl, ps, phi):
    """the last bit of the arithmetic decides the regime"""
    ts = t * (1 + GAMMA * R_D / G * (ps / psl - 1))
    h = phi / G
    t0 = ts + GAMMA * h
    t1 = 0.5 * (290.5 + ts) if ts > 290.5 and t0 > 290.5 else ts
    return min(abs(h - 2000), abs(h - 2500), abs(ts - 290.5), abs(t0 - 290.5), abs(t0 - 298), abs(t1 - 255)) < 1e-8


@summary("interpolation._temp_extrapolate", "c10_temp_helper")
def s_temp(E, t_bot, lev, p_sfc, ps, phi_sfc):
    return _opaque(E, "temperature", t_bot, lev, p_sfc, ps, phi_sfc)


@summary("interpolation._geo_height_extrapolate", "c10_geo_helper")
def s_geo(E, t_bot, lev, p_sfc, ps, phi_sfc):
    return _opaque(E, "geopotential", t_bot, lev, p_sfc, ps, phi_sfc)


def _opaque(E, which, *a):
    if not E.labelled(*a):
        return NotImplemented

    def el(t, p, psl, ps, phi):
        return below_ground_value(E, which, t, p, psl, ps, phi, True)
    return E.elementwise(el, *a)


def below_ground_value(E, which, t, p, psl, ps, phi, inside=False):
    """the ECMWF value under the name its defining contract gives it: callers need only that it is the
    function of these five numbers that c10_temp_helper / c10_geo_helper define"""
    if not inside and not E.used("interpolation._temp_extrapolate" if which == "temperature" else
                                 "interpolation._geo_height_extrapolate"):
        return below_ground(E, which, t, p, psl, ps, phi)
    v = E.app("ECMWF_" + which, t.re, p.re, psl.re, ps.re, phi.re)
    return E.with_missing(v, E.Or(E.isnan(t), E.isnan(p), E.isnan(psl), E.isnan(ps), E.isnan(phi)))


def _helper(E, which, q):
    cont = E.pick("shape", ["columns", "column"])
    n, m = E.dim("n"), E.dim("m")
    sh = (n,) if cont == "columns" else ()
    d = ("x",)[:len(sh)]
    t = E.field("t_bot", sh, 150, 350, hot=[255, 290.5, 298, 285, 280])
    lev = E.field("lev", (m,), 20000, 130000)
    psl = E.field("p_sfc", sh, 20000, 110000)
    ps = E.field("ps", sh, 20000, 110000)
    phi = E.field("phi", sh, 1, 60000, hot=[2000 * G, 2500 * G, 2250 * G])
    if not E.sym:
        psl.arr[...] = ps.arr * (0.9 + 0.1 * (psl.arr - 20000) / 90000)
    out = E.call(q, E.box("xarray", t, dims=d), E.box("xarray", lev, dims=("plev",)), E.box("xarray", psl, dims=d),
                 E.box("xarray", ps, dims=d), E.box("xarray", phi, dims=d))
    od = E.dims(out)
    E.same("dims", set(od), set(d + ("plev",)))
    for ix in E.points(sh + (m,)):
        h = ix[:-1]
        w = dict(zip(d + ("plev",), ix))
        a = (t(*h), lev(ix[-1]), psl(*h), ps(*h), phi(*h))
        if not E.sym and near_threshold(E, a[0], *a[2:]):
            continue
        split_regimes(E, which, *a)
        E.eq("ECMWF formula", E.at(out, *[w[x] for x in od]), below_ground(E, which, *a), tol=1e-8, scale=500)


def split_regimes(E, which, t, p, psl, ps, phi):
    """one proof path per regime of the formula"""
    if not E.sym:
        return
    ts = t * (1 + GAMMA * R_D / G * (ps / psl - 1))
    h = phi / G
    t0 = ts + GAMMA * h
    if which == "temperature":
        if E.branch(h < 2000):
            return
        plat = t0 if E.branch(t0 <= 298) else 298.0
        tp = plat if E.branch(h > 2500) else E.frac(2, 1000) * ((2500 - h) * t0 + (h - 2000) * plat)
        E.branch(tp < ts)
        return
    t0w, tsw = E.branch(t0 > 290.5), E.branch(ts > 290.5)
    t1 = 0.5 * (290.5 + ts) if t0w and tsw else ts
    E.branch(t1 < 255)


@case("C10", ["interpolation._temp_extrapolate"])
def c10_temp_helper(E):
    _helper(E, "temperature", "interpolation._temp_extrapolate")


@case("C10", ["interpolation._geo_height_extrapolate"])
def c10_geo_helper(E):
    _helper(E, "geopotential", "interpolation._geo_height_extrapolate")


@case(["C10", "C28"], ["interpolation.interp_hybrid_to_pressure", "interpolation._vertical_remap_extrap",
                       "interpolation._temp_extrapolate", "interpolation._geo_height_extrapolate"], trials=500, seconds=20)
def c10_extrapolate(E):
    rank = E.pick("rank", [2, 3])
    pos = E.pick("level position", list(range(rank)))
    method = E.pick("method", ["linear", "log"])
    variable = E.pick("variable", ["temperature", "geopotential", "other"])
    levc = E.pick("level coordinate", ["ground last", "ground first", "none"])
    last = levc != "ground first"
    n, m, sizes, dims, hdims, sh, data, ps, hyam, hybm = setup(E, rank, pos, nan=False, increasing=last)
    new = E.levels("new_levels", m, 20000, 130000)
    lev = E.levels("lev", n, 0, 1000, increasing=last)
    ground = n - 1 if last else 0
    hsh = ps.shape
    t_bot = E.field("t_bot", hsh, 200, 330, hot=[255, 290.5, 298, 285, 280])
    phi = E.field("phi", hsh, 1, 60000, hot=[2000 * G, 2500 * G, 2250 * G])
    P = lambda ix, k: hyam(k) * 1e5 + hybm(k) * ps(*ix)
    if not E.sym and E.flag("all below"):
        new.arr += 40000
    cs = {"lev": lev} if levc != "none" else {}
    bx = lambda f, d: E.box("xarray", f, dims=d, coords=cs if "lev" in d else None)
    a_data = E.box("xarray", data, dims=dims, coords={"lev": lev}, name="T")
    out = E.call("interpolation.interp_hybrid_to_pressure", a_data, bx(ps, hdims), bx(hyam, ("lev",)), bx(hybm, ("lev",)),
                 new_levels=E.box("numpy", new), lev_dim="lev", method=method, extrapolate=True, variable=variable,
                 t_bot=bx(t_bot, hdims) if variable != "other" else None, phi_sfc=bx(phi, hdims) if variable != "other" else None)
    osh = tuple(m if d == "lev" else sizes[d] for d in dims)
    E.same("dims", E.dims(out), tuple("plev" if d == "lev" else d for d in dims))
    E.same("shape", E.shape(out), osh)
    for (k,) in E.points((m,)):
        E.eq("plev holds the requested levels", E.at(E.coord(out, "plev"), k), new(k))
    for ix in E.points(osh):
        h = tuple(i for i, d in zip(ix, dims) if d != "lev")
        p = new(ix[pos])
        full = lambda k: h[:pos] + (k,) + h[pos:]
        low = P(h, ground)
        if not E.sym and (near_threshold(E, t_bot(*h), low, ps(*h), phi(*h)) or 0 < abs(p - low) < 1e-6):
            continue
        inside = lambda: E.interp(method == "log", p, n, lambda k: P(h, k), lambda k: data(*full(k)))
        below = (lambda: data(*full(ground))) if variable == "other" else (
            lambda: below_ground_value(E, variable, t_bot(*h), p, low, ps(*h), phi(*h)))
        E.eq("plain interpolation above the lowest level, ECMWF formula below", E.at(out, *ix), E.ite(p <= low, inside, below),
             tol=1e-8, scale=500)


# ------------------------------------------------------------------ C11
@case(["C11", "C28"], ["interpolation.interp_sigma_to_hybrid", "interpolation._sigma_from_hybrid",
                       "interpolation._vertical_remap"], trials=250, seconds=25)
def c11_formula(E):
    rank = E.pick("rank", [1, 2, 3])
    pos = E.pick("level position", list(range(rank)))
    method = E.pick("method", ["linear", "log"])
    order = E.pick("targets", ["increasing", "decreasing"])
    coords = E.pick("coordinates", [True, False])
    dtype = E.pick("values", ["float", "int"])
    p0k = E.pick("p0", ["default", "number"])
    p0 = E.real("p0", 50000, 200000) if p0k == "number" else E.num(100000.0)
    n, m = E.dim("n", 2), E.dim("m")
    sizes = {"lev": n}
    dims = list(("lat", "lon")[:rank - 1])
    dims.insert(pos, "lev")
    dims = tuple(dims)
    hdims = tuple(d for d in dims if d != "lev")
    for d in hdims:
        sizes[d] = E.dim("n_" + d)
    sh = tuple(sizes[d] for d in dims)
    data = E.field("data", sh, -500, 500, nan=dtype == "float", kind="f" if dtype == "float" else "i")
    ps = E.field("ps", tuple(sizes[d] for d in hdims), 40000, 110000)
    sig = E.levels("sigma", n, 0.001, 1.1, increasing=E.pick("sigma order", ["increasing", "decreasing"]) == "increasing")
    hyam = E.levels("hyam", m, 0.001, 0.3, increasing=order == "increasing")
    hybm = E.levels("hybm", m, 0, 0.7, increasing=order == "increasing")
    cs = {d: E.levels("c_" + d, sizes[d], 0, 360) for d in hdims} if coords else {}
    levc = E.levels("lev", n, 0, 1000)
    if coords:
        cs["lev"] = levc
    hcs = {d: c for d, c in cs.items() if d != "lev"}
    kw = {"p0": p0} if p0k == "number" else {}
    meta = E.meta({"units": "K"})
    out = E.call("interpolation.interp_sigma_to_hybrid", E.box("xarray", data, dims=dims, coords=cs, name="T", attrs=meta),
                 E.box("xarray", sig, dims=("lev",)), E.box("xarray", ps, dims=hdims, coords=hcs),
                 E.box("xarray", hyam, dims=("hl",)), E.box("xarray", hybm, dims=("hl",)), lev_dim="lev", method=method, **kw)
    osh = tuple(m if d == "lev" else sizes[d] for d in dims)
    E.same("level dimension renamed hlev", E.dims(out), tuple("hlev" if d == "lev" else d for d in dims))
    E.same("sized like hyam", E.shape(out), osh)
    E.same("name", E.name(out), "T")
    E.same("attrs", E.attrs(out), meta)
    for d in hcs:
        for (k,) in E.points((sizes[d],)):
            E.eq("other coordinates kept", E.at(E.coord(out, d), k), cs[d](k))
    for ix in E.points(osh):
        h = tuple(i for i, d in zip(ix, dims) if d != "lev")
        full = lambda k: h[:pos] + (k,) + h[pos:]
        t = hyam(ix[pos]) * p0 / ps(*h) + hybm(ix[pos])
        E.eq("interpolation in its own column", E.at(out, *ix),
             E.interp(method == "log", t, n, lambda k: sig(k), lambda k: data(*full(k))), tol=1e-7, scale=500)
