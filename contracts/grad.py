"""C15, C16: WGS84 arc lengths and the gradient."""
from vpy.spec import case, summary

A, F = 6378137.0, 298.257223563  # WGS84 semi-major axis, inverse flattening


# ------------------------------------------------------------------ C15
def ellipsoid(E, lat):
    """the documented radius sqrt(a^2 cos^2 + b^2 sin^2)"""
    x = lat * E.pi / 180
    b = A * (1 - 1 / E.num(F))
    c, s = E.cos(x), E.sin(x)
    return E.sqrt(A ** 2 * c * c + b ** 2 * s * s)


@case(["C15", "C16"], ["gradient._rad_lat_wgs84"], trials=400)
def c15_radius(E):
    lat = E.real("lat", -90, 90, hot=[0, 90, -90, 45])
    r = E.call("gradient._rad_lat_wgs84", lat)
    E.eq("even in latitude", E.call("gradient._rad_lat_wgs84", 0 - lat), r)
    E.le("the radius of the ellipsoid to a micrometre (above)", E.at(r) - ellipsoid(E, lat), E.num(1e-6))
    E.le("the radius of the ellipsoid to a micrometre (below)", ellipsoid(E, lat) - E.at(r), E.num(1e-6))


@case(["C15", "C16"], ["gradient._arc_lat_wgs84", "gradient._rad_lat_wgs84"], trials=400)
def c15_meridian(E):
    lat = E.real("lat", -90, 90, hot=[0, 90, -90, 45])
    arc = lambda x: E.at(E.call("gradient._arc_lat_wgs84", x))
    a = arc(lat)
    E.eq("odd in latitude", arc(0 - lat), 0 - a)
    E.eq("zero at the equator", arc(E.num(0.0)), E.num(0.0), scale=1e-3)
    d = E.derivative(arc, lat, "lat", 1e-3)
    r = E.at(E.call("gradient._rad_lat_wgs84", lat)) * E.pi / 180
    tol = E.num(1e-6) if E.sym else E.num(2e-5)
    E.le("derivative is the radius per degree (above)", d - r, tol)
    E.le("derivative is the radius per degree (below)", r - d, tol)
    E.le("strictly increasing", E.num(110000.0), d)


@case(["C15", "C16"], ["gradient._arc_lon_wgs84"], trials=400)
def c15_parallel(E):
    lat = E.real("lat", -90, 90, hot=[0, 90, -90, 45])
    lon = E.real("lon", -360, 360, hot=[0, 180])
    r = E.at(E.call("gradient._rad_lat_wgs84", lat))
    E.eq("radius times cosine times longitude", E.call("gradient._arc_lon_wgs84", lon, lat), r * E.cos(lat * E.pi / 180) * lon * E.pi / 180)


# ------------------------------------------------------------------ C16
def diff(E, f, i, n):
    """finite difference of f(0..n-1) at i: central inside, one-sided at the ends"""
    return E.ite(i == 0, lambda: f(1) - f(0), lambda: E.ite(i == n - 1, lambda: f(n - 1) - f(n - 2), lambda: (f(i + 1) - f(i - 1)) / 2))


@case(["C16", "C28"], ["gradient.gradient", "gradient._arc_lat_wgs84", "gradient._arc_lon_wgs84", "gradient._rad_lat_wgs84"],
      trials=400, seconds=15)
def c16_gradient(E):
    how = E.pick("input", ["numpy, coordinates given", "DataArray, own coordinates", "DataArray, coordinates given",
                           "DataArray, labelled coordinates given"])
    cdim = E.pick("coordinates", [1, 2])
    kind = E.pick("values", ["f", "i"])
    ny, nx = E.dim("ny", 2), E.dim("nx", 2)
    data = E.field("data", (ny, nx), -100, 100, nan=kind == "f", kind=kind)
    if cdim == 1:
        order = E.pick("latitudes", ["increasing", "decreasing"])
        la = E.levels("lat", ny, -89, 89, increasing=order == "increasing")
        lo = E.levels("lon", nx, -180, 360)
        lat2, lon2 = (lambda j, i: la(j)), (lambda j, i: lo(i))
    else:
        la = E.field("lat", (ny, nx), -89, 89)
        lo = E.field("lon", (ny, nx), -180, 360)
        lat2, lon2 = (lambda j, i: la(j, i)), (lambda j, i: lo(j, i))
    q = "gradient.gradient"
    ladims, lodims = (("lat",), ("lon",)) if cdim == 1 else (("lat", "lon"),) * 2
    if cdim == 2:
        ladims = lodims = ("yy", "xx")
    dims = ("lat", "lon") if cdim == 1 else ("yy", "xx")
    if how.startswith("numpy"):
        out = E.call(q, E.box("numpy", data), lon=E.box("numpy", lo), lat=E.box("numpy", la))
    elif how.endswith("own coordinates"):
        out = E.call(q, E.box("xarray", data, dims=dims, coords={"lat": (ladims, la), "lon": (lodims, lo)}))
    elif how.endswith("labelled coordinates given"):
        out = E.call(q, E.box("xarray", data, dims=("p", "q")), E.box("xarray", lo, dims=("q",) if cdim == 1 else ("p", "q")),
                     E.box("xarray", la, dims=("p",) if cdim == 1 else ("p", "q")))
    else:
        out = E.call(q, E.box("xarray", data, dims=("p", "q")), E.box("numpy", lo), E.box("numpy", la))
    E.same("two gradients", len(out), 2)
    arc_lat = lambda x: E.at(E.call("gradient._arc_lat_wgs84", x))
    arc_lon = lambda lon, lat: E.at(E.call("gradient._arc_lon_wgs84", lon, lat))
    for o in (out[0], out[1]):
        E.same("shape", E.shape(o), (ny, nx))
        E.ok("container follows the input", E.isxr(o) == (not how.startswith("numpy")))
        if E.isxr(o):
            E.same("coordinates of the result", E.coord_names(o), {"lat", "lon"})
            for ix in E.points((ny, nx)):
                E.eq("latitude attached", E.at(E.coord(o, "lat"), *ix), lat2(*ix))
                E.eq("longitude attached", E.at(E.coord(o, "lon"), *ix), lon2(*ix))
    for j, i in E.points((ny, nx)):
        E.eq("change along the first axis per metre", E.at(out[0], j, i),
             diff(E, lambda a: data(a, i), j, ny) / diff(E, lambda a: arc_lat(lat2(a, i)), j, ny), tol=1e-7, scale=1e-9)
        E.eq("change along the second axis per metre", E.at(out[1], j, i),
             diff(E, lambda a: data(j, a), i, nx) / diff(E, lambda a: arc_lon(lon2(j, a), lat2(j, a)), i, nx), tol=1e-7, scale=1e-9)


@case("C29", ["gradient.gradient"])
def c29_gradient(E):
    what = E.pick("request", ["numpy without coordinates", "numpy without longitude", "1-D with 2-D", "list without coordinates",
                              "2-D with 1-D"])
    ny, nx = E.dim("ny", 2), E.dim("nx", 2)
    data = E.field("data", (ny, nx), -100, 100)
    l1, l2 = E.levels("l1", ny, -89, 89), E.levels("l2", nx, 0, 360)
    g = E.field("grid", (ny, nx), -89, 89)
    q, lab = "gradient.gradient", "request refused"
    b = E.box("numpy", data)
    if what == "numpy without coordinates":
        E.raises(lab, Exception, q, b)
    elif what == "numpy without longitude":
        E.raises(lab, Exception, q, b, lat=E.box("numpy", l1))
    elif what == "list without coordinates":
        E.raises(lab, Exception, q, E.box("list", data))
    elif what == "1-D with 2-D":
        E.raises(lab, ValueError, q, b, E.box("numpy", l2), E.box("numpy", g))
    else:
        E.raises(lab, ValueError, q, b, E.box("numpy", g), E.box("numpy", l1))


@case("C16", ["gradient.gradient"])
def c16_laws(E):
    ny, nx = E.dim("ny", 2), E.dim("nx", 2)
    la, lo = E.levels("lat", ny, -89, 89), E.levels("lon", nx, -180, 360)
    x, y = E.field("x", (ny, nx), -100, 100), E.field("y", (ny, nx), -100, 100)
    z = E.derive((ny, nx), lambda j, i: 2 * x(j, i) - 3 * y(j, i))
    k = E.derive((ny, nx), lambda j, i: x(0, 0))
    run = lambda f: E.call("gradient.gradient", E.box("numpy", f), E.box("numpy", lo), E.box("numpy", la))
    ox, oy, oz, ok = run(x), run(y), run(z), run(k)
    for a in (0, 1):
        for ix in E.points((ny, nx)):
            E.eq("linear in the data", E.at(oz[a], *ix), 2 * E.at(ox[a], *ix) - 3 * E.at(oy[a], *ix), tol=1e-7, scale=1e-3)
            E.eq("zero for a constant field", E.at(ok[a], *ix), 0.0)
