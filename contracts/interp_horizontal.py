"""C12: horizontal interpolation."""
from vpy.spec import case

Q = "interpolation.interp_multidim"
FUNCS = [Q, "interpolation._pre_interp_multidim", "interpolation._post_interp_multidim"]


@case(["C12", "C28"], FUNCS, trials=900, seconds=20)
def c12_formula(E):
    cont = E.pick("container", ["numpy", "xarray"])
    method = E.pick("method", ["default", "linear", "nearest"])
    cyclic = E.pick("cyclic", [False, True])
    mv = E.pick("missing_val", [None, -99, 1e20])
    fv = E.pick("fill_value", ["default", "nan", "number"])
    order = E.pick("latitudes", ["increasing", "decreasing"])
    kind = "f" if E.sym else E.pick("values", ["f", "i"])
    outs = E.pick("outputs", ["anywhere", "on the grid"])
    tk = "numpy" if E.sym else E.pick("targets", ["list", "numpy"])
    ny, nx = E.dim("ny", 2), E.dim("nx", 2)
    my, mx = E.dim("my", 1), E.dim("mx", 1)
    la = E.levels("lat", ny, -90, 90, increasing=order == "increasing")
    west = E.real("west", -360, 180, hot=[-180, 0])
    lo = E.levels("lon", nx, west, west + 359)
    data = E.field("data", (ny, nx), -100, 100, nan=kind == "f" and mv is None, kind=kind, hot=[] if mv is None else [mv])
    if outs == "anywhere":
        ty, tx = E.field("tlat", (my,), -90, 90), E.field("tlon", (mx,), -400, 400)
    else:
        my, mx = ny, nx
        ty, tx = la, lo
    kw = {}
    if method != "default":
        kw["method"] = method
    fill = E.nan
    if fv == "number":
        fill = kw["fill_value"] = E.real("fill", -5, 5)
    elif fv == "nan":
        kw["fill_value"] = E.nan
    if mv is not None:
        kw["missing_val"] = mv
    if cyclic:
        kw["cyclic"] = True
    B = lambda f: E.box(tk, f)
    if cont == "numpy":
        out = E.call(Q, E.box("numpy", data), B(ty), B(tx), E.box("numpy", la), E.box("numpy", lo), **kw)
        dims = ("lat", "lon")
    else:
        dims = ("y", "x")
        out = E.call(Q, E.box("xarray", data, dims=dims, coords={"y": la, "x": lo}, name="t"), B(ty), B(tx), **kw)
    E.same("shape", E.shape(out), (my, mx))
    E.same("dims", E.dims(out), dims)
    for (j,) in E.points((my,)):
        E.eq("latitudes of the result", E.at(E.coord(out, dims[0]), j), ty(j))
    for (i,) in E.points((mx,)):
        E.eq("longitudes of the result", E.at(E.coord(out, dims[1]), i), tx(i))

    def val(j, i):
        v = data(j, i)
        return v if mv is None else E.ite(v == mv, E.nan, v)
    if cyclic:
        w = lambda k: E.ite(k == 0, nx - 1, lambda: E.ite(k == nx + 1, 0, lambda: k - 1))
        lon = lambda k: E.ite(k == 0, lambda: lo(nx - 1) - 360, lambda: E.ite(k == nx + 1, lambda: lo(0) + 360, lambda: lo(k - 1)))
        src, n2 = (lambda j, k: val(j, w(k))), nx + 2
    else:
        src, n2, lon = val, nx, lo
    meth = "linear" if method == "default" else method
    for j, i in E.points((my, mx)):
        v = E.grid_interp(meth, (ny, n2), la, lon, src, fill, ty(j), tx(i))
        if mv is not None:
            v = E.ite(E.isnan(v), E.num(float(mv)), v)
        E.eq("interpolated from the input grid", E.at(out, j, i), v, tol=1e-10, scale=100)


@case("C12", FUNCS, trials=300, prove=False, why="grid points reproduced exactly is a property of the assumed interpolation "
      "function of xarray; checked on samples")
def c12_exact(E):
    method = E.pick("method", ["linear", "nearest"])
    cyclic = E.pick("cyclic", [False, True])
    ny, nx = E.dim("ny", 2), E.dim("nx", 2)
    la, lo = E.levels("lat", ny, -90, 90), E.levels("lon", nx, 0, 359)
    data = E.field("data", (ny, nx), -100, 100)
    out = E.call(Q, E.box("xarray", data, dims=("lat", "lon"), coords={"lat": la, "lon": lo}), E.box("numpy", la),
                 E.box("numpy", lo), method=method, cyclic=cyclic)
    for ix in E.points((ny, nx)):
        E.eq("grid points reproduced", E.at(out, *ix), data(*ix), tol=1e-9, scale=100)


@case(["C12", "C29"], [Q])
def c29_multidim(E):
    ny, nx = E.dim("ny", 2), E.dim("nx", 2)
    data = E.field("data", (ny, nx), -100, 100)
    la, lo = E.levels("lat", ny, -90, 90), E.levels("lon", nx, 0, 359)
    given = E.pick("given", ["none", "lat", "lon"])
    kw = {"none": {}, "lat": {"lat_in": E.box("numpy", la)}, "lon": {"lon_in": E.box("numpy", lo)}}[given]
    E.raises("numpy input needs both coordinates", ValueError, Q, E.box("numpy", data), E.box("numpy", la), E.box("numpy", lo), **kw)
