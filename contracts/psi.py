"""C27: meridional streamfunction (on uxarray grids)."""
from vpy.spec import case
from .met_pressure import layer

Z, ZM = "meteorology.zonal_meridional_psi", "meteorology.zonal_mpsi"
WHY = "zonal means computed by the real uxarray on sampled meshes, with every spelling of the names; the integral is proved by c27_column and c27_hybrid_column"
A, G = 6378137, 9.80665
_grids = {}


def grid(k):
    import numpy as np
    import uxarray as ux
    if k not in _grids:
        dlon, dlat = [(60.0, 30.0), (90.0, 45.0), (45.0, 60.0)][k]
        _grids[k] = ux.Grid.from_structured(lon=np.arange(0, 360, dlon), lat=np.arange(-90 + dlat, 90, dlat))
    return _grids[k]


class Setup:
    def __init__(self, E, hybrid=False, names=True):
        import numpy as np
        import uxarray as ux
        self.E = E
        g = self.g = grid(E.pick("grid", [0, 1, 2]))
        nf = g.n_face
        nt, nl = E.dim("nt", 1, 3), E.dim("nl", 2)
        self.nt, self.nl = nt, nl
        self.lat = E.pick("lat", [(-60, 60, 30), (0, 40, 20), [10.0, -20.0, 35.5], 40.0, [5.0]])
        self.order = E.pick("order", ["increasing", "decreasing"])
        lev = self.lev = E.levels("lev", nl, 100, 110000, increasing=self.order == "increasing")
        top = float(min(lev.arr))
        self.v = E.field("v", (nt, nl, nf), -50, 50)
        self.ps = E.field("ps", (nt, nf), top + 1, 110000)
        vn = E.pick("wind name", ["V", "vs", "attr", "given"]) if names else "V"
        pn = E.pick("pressure name", ["PS", "p_surface", "attr", "given"]) if names else "PS"
        ln = E.pick("level name", ["plev", "pressure_lev", "given"]) if names else "plev"
        self.kw = {}
        V, P, L = {"attr": "wnd", "given": "q1"}.get(vn, vn), {"attr": "srf", "given": "q2"}.get(pn, pn), {"given": "q3"}.get(ln, ln)
        if vn == "given":
            self.kw["meridional_wind_varname"] = V
        if pn == "given":
            self.kw["surface_air_pressure_varname"] = P
        if ln == "given" and not hybrid:
            self.kw["plev_coordname"] = L
        va = {"standard_name": "northward_wind"} if vn == "attr" else {}
        pa = {"long_name": "Surface pressure"} if pn == "attr" else {}
        lname = "lev" if hybrid else L
        co = {"time": np.arange(nt) * 1.0}
        co[lname] = lev.arr.copy() if not hybrid else ("lev", np.arange(nl) * 1.0, {"axis": "Z", "positive": "down", "standard_name":
                                                                     "atmosphere_hybrid_sigma_pressure_coordinate"})
        d = {V: ux.UxDataArray(self.v.arr.copy(), dims=("time", lname, "n_face"), coords=co, uxgrid=g, attrs=va),
             P: ux.UxDataArray(self.ps.arr.copy(), dims=("time", "n_face"), coords={"time": co["time"]}, uxgrid=g, attrs=pa)}
        if hybrid:
            s = np.linspace(0.02, 1, nl)
            self.hya, self.hyb = 0.3 * s * (1 - s), s * s
            for k, a in (("hyam", self.hya), ("hybm", self.hyb)):
                d[k] = ux.UxDataArray(a.copy(), dims=("lev",), uxgrid=g)
        if E.flag("reversed order of variables"):
            d = dict(reversed(list(d.items())))
        self.ds = ux.UxDataset(d, uxgrid=g)
        self.V, self.P, self.L = V, P, L

    def check(self, out, vz, lev):
        """out against the zonal means vz (time, level, latitude) of the wind"""
        import math
        import numpy as np
        E = self.E
        pz = self.ds[self.P].zonal_mean(lat=self.lat)
        lats = pz.latitudes.values
        pz = pz.transpose("time", "latitudes").values
        out = out.transpose("time", "latitudes", "plev")
        E.same("levels of the result", out.coords["plev"].values, lev)
        E.same("latitudes of the result", out.coords["latitudes"].values, lats)
        n = len(lev)
        o = sorted(range(n), key=lambda k: lev[k])
        p = [float(lev[k]) for k in o]
        off = []
        for t in range(pz.shape[0]):
            for j in range(pz.shape[1]):
                s, big, P = 0.0, 1e-3, float(pz[t, j])
                if any(abs(P - (p[q] + p[q + 1]) / 2) < 1e-6 * P for q in range(n - 1)):
                    continue  # the last bit decides which layer the surface is in
                for q in range(n):
                    up = p[0] if q == 0 else (p[q - 1] + p[q]) / 2
                    dn = (p[q] + p[q + 1]) / 2 if q + 1 < n else P
                    if up < P or q == 0:
                        last = q + 1 == n or dn >= P
                        w = float(vz[t, o[q], j]) * ((P if last else dn) - up)
                        s += 0.0 if math.isnan(w) else w
                        big += 0.0 if math.isnan(w) else 50 * ((P if last else dn) - up)
                    got = float(out.values[t, j, o[q]])
                    base = 2 * math.pi * A / G * s
                    good, bad = base * math.cos(math.radians(lats[j])), base * math.cos(lats[j])
                    if E._close(got, good, 1e-9, 2 * math.pi * A / G * big):
                        continue
                    E.eq("mass-weighted integral from the top, up to the latitude factor", got, bad, tol=1e-9, scale=2 * math.pi * A / G * big)
                    off.append((float(lats[j]), got, good))
        E.ok_msg("latitude factor is cos(latitude)", not off, lambda: "uses cos of the latitude in degrees taken as radians: " + str(off[:2]))


@case(["C27", "C28"], [Z, ZM, "gc_util._find_var", "gc_util._find_optional_var", "meteorology.delta_pressure", "meteorology._delta_pressure1D"],
      prove=False, why=WHY, trials=250, seconds=90)
def c27_pressure(E):
    S = Setup(E)
    fn = E.pick("function", [Z, ZM])
    out = E.call(fn, S.ds, lat=S.lat, **S.kw)
    vz = S.ds[S.V].zonal_mean(lat=S.lat)
    S.check(out, vz.values, S.lev.arr)


@case(["C27", "C28"], [Z, "interpolation.interp_hybrid_to_pressure"], prove=False, why=WHY, trials=60, seconds=60)
def c27_hybrid(E):
    import uxarray as ux
    S = Setup(E, hybrid=True)
    fn = E.get("interpolation.interp_hybrid_to_pressure")
    out = E.call(Z, S.ds, lat=S.lat, **S.kw)
    ip = fn(S.ds[S.V], S.ds[S.P], S.ds["hyam"], S.ds["hybm"])
    vz = ux.UxDataArray(ip, uxgrid=S.g).zonal_mean(lat=S.lat)
    S.check(out, vz.values, ip["plev"].values)


@case("C27", [Z], prove=False, why=WHY, trials=60, seconds=60)
def c27_reversed(E):
    S = Setup(E, names=False)
    a = E.call(Z, S.ds, lat=S.lat).transpose("time", "latitudes", "plev")
    b = E.call(Z, S.ds.isel(plev=slice(None, None, -1)), lat=S.lat).transpose("time", "latitudes", "plev").sel(plev=a.plev)
    sc = abs(a.values).max() + 1
    for ix in E.points(a.shape):
        E.eq("ascending and descending levels give the same field", b.values[ix], a.values[ix], tol=1e-9, scale=sc)


@case(["C27", "C29"], [Z], prove=False, why=WHY, trials=80, seconds=60)
def c29_psi(E):
    import numpy as np
    S = Setup(E, names=False)
    what = E.pick("what", ["zero", "negative", "missing", "no pressure levels"])
    ds = S.ds.copy(deep=True)
    f, t = E.int("face", 0, S.g.n_face - 1), E.int("t", 0, S.nt - 1)
    err = ValueError
    if what == "missing":
        ds["PS"].values[t, :] = np.nan
    elif what == "no pressure levels":
        ds, err = S.ds.rename(plev="sigma"), (AttributeError, KeyError, ValueError)
    else:
        ds["PS"].values[t, f] = 0.0 if what == "zero" else -1000.0
    E.raises("refused", err, Z, ds, lat=S.lat)


@case(["C27", "C28"], [Z, ZM, "gc_util._find_var", "gc_util._find_optional_var", "meteorology.delta_pressure", "meteorology._delta_pressure1D"],
      trials=150, seconds=60)
def c27_column(E):
    """for every mesh, every number of levels and every wind: the streamfunction is the
    mass-weighted integral of the zonal-mean wind from the top down to each level"""
    names = E.pick("names", ["default", "attributes", "given"])
    fn = E.pick("function", [Z, ZM])
    dec = E.pick("order", ["increasing", "decreasing"]) == "decreasing"
    g = E.mesh("mesh", [(-60, 60, 30), (0, 40, 20), [10.0, -20.0, 35.5], 40.0])
    nt, n = E.dim("nt", 1), E.dim("n", 2)
    lev = E.levels("lev", n, 100, 110000, increasing=not dec)
    q = (lambda i: lev(n - 1 - i)) if dec else lev
    v = E.field("v", (nt, n, g.nf), -50, 50)
    ps = E.field("ps", (nt, g.nf), 0, 110000, strict=True)
    if not E.sym:
        import numpy as np
        ps.arr[...] = np.maximum(ps.arr, q(0) + 1)
    E.zonal_complete(g, ps, lambda z: z > q(0))
    V, P, L, kw = {"default": ("V", "PS", "plev", {}), "attributes": ("wnd", "srf", "pressure_lev", {}),
                   "given": ("q1", "q2", "q3", dict(meridional_wind_varname="q1", surface_air_pressure_varname="q2", plev_coordname="q3"))}[names]
    va, pa = ({"standard_name": "northward_wind"}, {"long_name": "Surface pressure"}) if names == "attributes" else ({}, {})
    time = E.field("time", (nt,), 0, 1000)
    ds = E.mesh_dataset(g, {V: E.mesh_array(g, v, ("time", L, "n_face"), {"time": time, L: lev}, va),
                            P: E.mesh_array(g, ps, ("time", "n_face"), {"time": time}, pa)})
    out = E.call(fn, ds, lat=g.lat, **kw)
    E.same("dimensions", sorted(E.dims(out)), ["latitudes", "plev", "time"])
    order = E.dims(out)
    E.same("shape", tuple(E.shape(out)[order.index(d)] for d in ("time", "plev", "latitudes")), (nt, n, E.shape(g.lats)[0]))
    vz = E.zonal(g, (nt, n), v)
    pz = E.zonal(g, (nt,), ps)
    for t, k, j in E.points((nt, n, E.shape(g.lats)[0])):
        at = {"time": t, "plev": k, "latitudes": j}
        if not E.sym and any(abs(pz(t, j) - (q(i) + q(i + 1)) / 2) < 1e-6 * pz(t, j) for i in range(n - 1)):
            continue  # the last bit decides which layer the surface is in

        def term(m):
            w = vz(t, n - 1 - m if dec else m, j) * layer(E, q, n, pz(t, j), q(0), m)
            return E.ite(E.isnan(w), 0.0, lambda: w)
        total = E.sum((n - 1 - k if dec else k) + 1, term)
        base = 2 * E.pi * A / E.frac(980665, 100000) * total
        lat = g.lats(j)
        got = E.at(out, *[at[d] for d in order])
        E.eq_any("mass-weighted integral from the top, up to the latitude factor", got,
                 base * E.cos(lat * E.pi / 180), base * E.cos(lat), tol=1e-9, scale=1e12)
        E.eq("level coordinate", E.at(E.coord(out, "plev"), k), lev(k))
        E.eq("latitude coordinate", E.at(E.coord(out, "latitudes"), j), lat)


@case(["C27", "C29"], [Z, ZM], trials=80, seconds=40)
def c29_column(E):
    """a surface pressure that is not positive, a missing zonal mean of it, no way to tell the pressure
    of the levels: refused, wherever it happens"""
    what = E.pick("what", ["not positive", "missing zonal mean", "no pressure levels", "only one hybrid coefficient"])
    fn = E.pick("function", [Z, ZM])
    g = E.mesh("mesh", [(-60, 60, 30), (0, 40, 20), [10.0, -20.0, 35.5], 40.0])
    nt, n = E.dim("nt", 1), E.dim("n", 2)
    lev = E.levels("lev", n, 100, 110000)
    v = E.field("v", (nt, n, g.nf), -50, 50)
    t, f = E.index("t", nt), E.index("face", g.nf)
    plant = ((t, f), E.real("bad", -1000, 0, hot=[0])) if what == "not positive" else None
    ps = E.field("ps", (nt, g.nf), 111000, 120000, plant=plant)
    L = "plev" if what in ("not positive", "missing zonal mean") else "sigma"
    d = {"V": E.mesh_array(g, v, ("time", L, "n_face"), {L: lev}),
         "PS": None}
    if what == "missing zonal mean":
        E.zonal_missing(g, ps, t, E.index("j", E.shape(g.lats)[0]))
    else:
        E.zonal_complete(g, ps)
    d["PS"] = E.mesh_array(g, ps, ("time", "n_face"), {})
    if what == "only one hybrid coefficient":
        d["hyam"] = E.mesh_array(g, E.field("hyam", (n,), 0, 1), (L,), {L: lev})
    err = (AttributeError, KeyError, ValueError) if L == "sigma" else ValueError
    E.raises("refused", err, fn, E.mesh_dataset(g, d), lat=g.lat)


MANDATORY = [1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1]  # hPa


@case(["C27", "C28"], [Z, ZM, "interpolation.interp_hybrid_to_pressure", "meteorology.delta_pressure"], trials=60, seconds=60)
def c27_hybrid_column(E):
    """on hybrid levels: the integral of the wind interpolated to the mandatory pressure levels in its
    own column, with the thicknesses of those levels"""
    fn = E.pick("function", [Z, ZM])
    named = E.flag("named coefficients") if not E.sym else E.pick("named", [False, True])
    g = E.mesh("mesh", [(-60, 60, 30), (0, 40, 20), [10.0, -20.0, 35.5], 40.0])
    nt, n = E.dim("nt", 1), E.dim("n", 2)
    v = E.field("v", (nt, n, g.nf), -50, 50)
    ps = E.field("ps", (nt, g.nf), 30000, 110000)
    hya = E.levels("hya", n, 0.001, 0.3)
    hyb = E.levels("hyb", n, 0, 0.7)
    lev = E.levels("lev", n, 0, 1000)
    E.zonal_complete(g, ps, lambda z: z > 100)
    A_, B_, kw = ("ca", "cb", dict(hyam_coordname="ca", hybm_coordname="cb")) if named else ("hyam", "hybm", {})
    co = {"lev": ("lev", lev, {"axis": "Z", "positive": "down", "standard_name": "atmosphere_hybrid_sigma_pressure_coordinate"})}
    hx = lambda f: E.mesh_array(g, f, ("lev",), co)
    ds = E.mesh_dataset(g, {"V": E.mesh_array(g, v, ("time", "lev", "n_face"), co), "PS": E.mesh_array(g, ps, ("time", "n_face"), {}),
                            A_: hx(hya), B_: hx(hyb)})
    out = E.call(fn, ds, lat=g.lat, **kw)
    order = E.dims(out)
    E.same("dimensions", sorted(order), ["latitudes", "plev", "time"])
    m = len(MANDATORY)
    P = lambda t, f, k: hya(k) * 100000 + hyb(k) * ps(t, f)
    p = lambda k: 100 * E.table(MANDATORY, k)
    q = lambda i: p(m - 1 - i)
    # wind on the pressure levels, in the column of its own face
    wind = lambda t, k, f: E.interp(False, p(k), n, lambda i: P(t, f, i), lambda i: v(t, i, f))
    vz = E.zonal(g, (nt, m), wind)
    pz = E.zonal(g, (nt,), ps)
    for t, k, j in E.points((nt, m, E.shape(g.lats)[0])):
        at = {"time": t, "plev": k, "latitudes": j}
        if not E.sym and any(abs(pz(t, j) - (q(i) + q(i + 1)) / 2) < 1e-6 * pz(t, j) for i in range(m - 1)):
            continue

        def term(i):
            w = vz(t, m - 1 - i, j) * layer(E, q, m, pz(t, j), q(0), i)
            return E.ite(E.isnan(w), 0.0, lambda: w)
        total = E.sum(m - k, term)
        base = 2 * E.pi * A / E.frac(980665, 100000) * total
        lat = g.lats(j)
        E.eq_any("mass-weighted integral from the top, up to the latitude factor", E.at(out, *[at[d] for d in order]),
                 base * E.cos(lat * E.pi / 180), base * E.cos(lat), tol=1e-6, scale=1e12)
        E.eq("level coordinate", E.at(E.coord(out, "plev"), k), p(k), tol=1e-6)
        E.eq("latitude coordinate", E.at(E.coord(out, "latitudes"), j), lat)
