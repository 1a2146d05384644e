"""C01-C05: dew point, heat index, relative humidity, FAO-56 vapour pressure."""
import ast
import os
from vpy.spec import case, summary

CONTAINERS = ["scalar", "list1", "numpy0", "numpy1", "numpy2", "xarray1", "xarray2"]


def shape_of(E, cont):
    r = 0 if cont == "scalar" else int(cont[-1])
    return tuple(E.dim(n, 1) for n in ("n0", "n1", "n2")[:r])


def put(E, cont, f, coords=None, attrs=None, name=None):
    base = cont.rstrip("0123")
    if base == "xarray":
        dims = ("y", "x", "z")[:len(f.shape)]
        cs = {}
        if len(f.shape):
            cs["y"] = coords
        return E.box("xarray", f, dims=dims, coords=cs, attrs=attrs, name=name)
    return E.box(base, f)


def ycoord(E, sh):
    return E.field("ycoord", sh[:1], -90, 90) if sh else None


def same_container(E, cont, out, dims=None):
    """type of the result follows the type of the input"""
    base = cont.rstrip("0123")
    if base == "xarray":
        E.ok("result is a DataArray", E.isxr(out))
    elif base == "numpy":
        E.ok("result is not labelled", not E.isxr(out))


# ------------------------------------------------------------------ C01
def dew(E, t, rh):
    gcx = 461.5 / (1000 * 4.186)
    L = (597.3 - 0.57 * (t - 273)) / gcx
    return t * L / (L - t * E.log(rh * 0.01))


@summary("meteorology._dewtemp", "c01_helper")
def s_dew(E, tk, rh):
    return E.elementwise(lambda t, r: dew(E, t, r), tk, rh)


@case("C01", ["meteorology._dewtemp"])
def c01_helper(E):
    sh = ()
    t = E.real("tk", 150, 400, nan=True)
    r = E.real("rh", 0.01, 100, nan=True)
    E.eq("Dutton's formula", E.call("meteorology._dewtemp", t, r), dew(E, t, r))


@case(["C01", "C28"], ["meteorology.dewtemp", "meteorology._dewtemp"], trials=400)
def c01_dewtemp(E):
    cont = E.pick("container", CONTAINERS)
    sh = shape_of(E, cont)
    t = E.field("tk", sh, 150, 400, nan=True)
    r = E.field("rh", sh, 0.01, 100, nan=True, hot=[1, 50, 100])
    yc = ycoord(E, sh)
    out = E.call("meteorology.dewtemp", put(E, cont, t, yc, {"a": 1}, "tt"), put(E, cont, r, yc))
    same_container(E, cont, out)
    E.same("shape", E.shape(out), sh)
    for ix in E.points(sh):
        E.eq("Dutton's formula at every element", E.at(out, *ix), dew(E, t(*ix), r(*ix)))
    if E.isxr(out):
        E.same("dims", E.dims(out), ("y", "x", "z")[:len(sh)])


@case("C01", ["meteorology.dewtemp"])
def c01_order(E):
    """dew point equals T at saturation, is below T otherwise and increases with humidity"""
    t = E.real("tk", 150, 400)
    a = E.real("rh_a", 0.01, 100)
    b = E.real("rh_b", 0.01, 100)
    E.assume(a < b)
    da = E.at(E.call("meteorology.dewtemp", t, a))
    db = E.at(E.call("meteorology.dewtemp", t, b))
    ds = E.at(E.call("meteorology.dewtemp", t, E.num(100.0)))
    E.eq("dew point at saturation is the temperature", ds, t)
    E.le("increasing in humidity", da, db)
    E.le("never above the temperature", db, t)


# ------------------------------------------------------------------ C02
NWS = [-42.379, 2.04901523, 10.14333127, -0.22475541, -0.00683783, -0.05481717, 0.00122874, 0.00085282, -0.00000199]
ALT = [0.363445176, 0.988622465, 4.777114035, -0.114037667, -0.000850208, -0.020716198, 0.000687678, 0.000274954, 0.0]


def nws(c, t, r):
    return (c[0] + c[1] * t + c[2] * r + c[3] * t * r + c[4] * t * t + c[5] * r * r + c[6] * t * t * r + c[7] * t * r * r +
            c[8] * t * t * r * r)


@summary("meteorology._nws_eqn", "c02_helper")
def s_nws(E, coeffs, temp, rel_hum):
    cs = list(coeffs)
    return E.elementwise(lambda t, r: nws(cs, t, r), temp, rel_hum)


@case("C02", ["meteorology._nws_eqn"])
def c02_helper(E):
    cs = [E.real(f"c{i}", -100, 100) for i in range(9)]
    t = E.real("t", -100, 200)
    r = E.real("rh", 0, 100)
    E.eq("nine-term regression", E.call("meteorology._nws_eqn", cs, t, r), nws(cs, t, r), scale=1e6)


def heat(E, t, r, alt):
    crit, co = (70, ALT) if alt else (79, NWS)
    h = ((61 + (t - 68) * 1.2 + r * 0.094) + t) / 2
    h = E.ite(t < 40, t, h)
    h = E.ite(h >= crit, nws(co, t, r), h)
    h = E.ite(E.And(r <= 13, t >= 80, t <= 112), lambda: h - ((13 - r) / 4) * E.sqrt(E.abs(17 - E.abs(t - 95)) / 17), h)
    h2 = h
    return E.ite(E.And(r > 85, t >= 80, t <= 87), h2 + ((r - 85.0) / 10.0) * ((87.0 - t) / 5.0), h2)


@case(["C02", "C28"], ["meteorology.heat_index", "meteorology._nws_eqn"], trials=700)
def c02_heat_index(E):
    cont = E.pick("container", CONTAINERS)
    alt = E.pick("alternate", [False, True])
    sh = shape_of(E, cont)
    t = E.field("t", sh, -60, 140, nan=True, hot=[40, 80, 87, 95, 112, 39.9, 78, 79, 79.5])
    r = E.field("rh", sh, 0, 100, nan=True, hot=[0, 13, 85, 100, 1])
    yc = ycoord(E, sh)
    out = E.call("meteorology.heat_index", put(E, cont, t, yc), put(E, cont, r, yc), alt)
    same_container(E, cont, out)
    E.same("shape", E.shape(out), sh)
    for ix in E.points(sh):
        E.eq("NWS heat index at every element", E.at(out, *ix), heat(E, t(*ix), r(*ix), alt), tol=1e-8)
    if E.isxr(out):
        E.same("dims", E.dims(out), ("y", "x", "z")[:len(sh)])


@case(["C02", "C29", "C28"], ["meteorology.heat_index"])
def c02_range(E):
    """one relative humidity outside 0..100 anywhere is refused, whatever the rest holds"""
    cont = E.pick("container", ["scalar", "list1", "numpy1", "numpy2", "xarray1", "xarray2"])
    side = E.pick("side", ["below", "above"])
    sh = shape_of(E, cont)
    bad = E.real("bad", -50, 0, strict=True) if side == "below" else E.real("bad", 100, 200, strict=True)
    ix = tuple(E.index(f"at{i}", n) for i, n in enumerate(sh))
    t = E.field("t", sh, -60, 140, nan=True)
    if sh:
        r = E.field("rh", sh, 0, 100, nan=E.pick("nan", [False, True]), plant=(ix, bad))
        if not E.sym:
            r.arr[tuple(ix)] = bad
        else:
            E.assume(E.Not(E.isnan(r(*ix))))
    else:
        r = E.derive((), lambda: bad)
    E.raises("humidity outside 0..100 refused", ValueError, "meteorology.heat_index", put(E, cont, t, None if not sh else
             ycoord(E, sh)), put(E, cont, r, None if not sh else ycoord(E, sh)))


@case(["C02", "C29"], ["meteorology.heat_index"])
def c02_types(E):
    kinds = ["scalar", "list1", "numpy1", "xarray1"]
    a = E.pick("first", kinds)
    b = E.pick("second", [k for k in kinds if k != a])
    n = E.dim("n0")
    f = lambda nm, c: E.field(nm, () if c == "scalar" else (n,), 20, 90)
    E.raises("differing container types refused", TypeError, "meteorology.heat_index", put(E, a, f("t", a), ycoord(E, (n,))),
             put(E, b, f("rh", b), ycoord(E, (n,))))


def _differ(E, cont):
    """two shapes that differ"""
    n, m = E.dim("n0"), E.dim("m0")
    how = E.pick("how", ["length", "rank"])
    if how == "length":
        E.assume(n != m)
        return (n,), (m,)
    return (n,), (n, m)


def shapes_case(E, q, kinds, nargs):
    cont = E.pick("container", kinds)
    which = E.pick("odd", list(range(nargs)))
    s1, s2 = _differ(E, cont)
    args = []
    for i in range(nargs):
        sh = s2 if i == which else s1
        f = E.field(f"a{i}", sh, 1, 90)
        args.append(E.box("xarray", f, dims=tuple(("y", "x") if i == which else ("y", "x"))[:len(sh)]) if cont == "xarray"
                    else E.box(cont, f))
    E.raises("differing shapes refused", ValueError, q, *args)


@case(["C29", "C02", "C28"], ["meteorology.heat_index"])
def c29_heat_index_shapes(E):
    shapes_case(E, "meteorology.heat_index", ["numpy", "list", "xarray"], 2)


@case(["C29", "C28"], ["meteorology.dewtemp"])
def c29_dewtemp_shapes(E):
    shapes_case(E, "meteorology.dewtemp", ["numpy", "list", "xarray"], 2)


@case(["C29", "C28"], ["meteorology.relhum"])
def c29_relhum_shapes(E):
    shapes_case(E, "meteorology.relhum", ["numpy", "xarray"], 3)


@case(["C29", "C04", "C28"], ["meteorology.relhum_ice"])
def c29_relhum_ice_shapes(E):
    shapes_case(E, "meteorology.relhum_ice", ["numpy", "list", "xarray"], 3)


@case(["C29", "C04", "C28"], ["meteorology.relhum_water"])
def c29_relhum_water_shapes(E):
    shapes_case(E, "meteorology.relhum_water", ["numpy", "list", "xarray"], 3)


@case(["C29", "C04"], ["meteorology.relhum_ice", "meteorology.relhum_water"])
def c04_types(E):
    kinds = ["scalar", "list1", "numpy1", "xarray1"]
    q = E.pick("function", ["meteorology.relhum_ice", "meteorology.relhum_water"])
    a = E.pick("most", kinds)
    b = E.pick("odd", [k for k in kinds if k != a])
    w = E.pick("where", [0, 1, 2])
    n = E.dim("n0")
    f = lambda nm, c: put(E, c, E.field(nm, () if c == "scalar" else (n,), 20, 90), ycoord(E, (n,)))
    E.raises("differing container types refused", TypeError, q, *[f(f"a{i}", b if i == w else a) for i in range(3)])


@case(["C29", "C01"], ["meteorology.dewtemp"])
def c01_types(E):
    kinds = ["list1", "numpy1"]
    b = E.pick("odd", kinds)
    w = E.pick("where", [0, 1])
    n = E.dim("n0")
    f = lambda nm, c: put(E, c, E.field(nm, (n,), 20, 90), ycoord(E, (n,)))
    E.raises("mixing DataArray and other containers refused", TypeError, "meteorology.dewtemp",
             *[f(f"a{i}", b if i == w else "xarray1") for i in range(2)])


# ------------------------------------------------------------------ C03
TABLE = [
    0.01403, 0.01719, 0.02101, 0.02561, 0.03117, 0.03784, 0.04584, 0.05542, 0.06685, 0.08049, 0.09672, 0.116, 0.1388, 0.1658,
    0.1977, 0.2353, 0.2796, 0.3316, 0.3925, 0.4638, 0.5472, 0.6444, 0.7577, 0.8894, 1.042, 1.22, 1.425, 1.662, 1.936, 2.252,
    2.615, 3.032, 3.511, 4.06, 4.688, 5.406, 6.225, 7.159, 8.223, 9.432, 10.8, 12.36, 14.13, 16.12, 18.38, 20.92, 23.8, 27.03,
    30.67, 34.76, 39.35, 44.49, 50.26, 56.71, 63.93, 71.98, 80.97, 90.98, 102.1, 114.5, 128.3, 143.6, 160.6, 179.4, 200.2,
    223.3, 248.8, 276.9, 307.9, 342.1, 379.8, 421.3, 466.9, 517.0, 572.0, 632.3, 698.5, 770.9, 850.2, 937.0, 1032.0, 1146.6,
    1272.0, 1408.1, 1556.7, 1716.9, 1890.3, 2077.6, 2279.6, 2496.7, 2729.8, 2980.0, 3247.8, 3534.1, 3839.8, 4164.8, 4510.5,
    4876.9, 5265.1, 5675.2, 6107.8, 6566.2, 7054.7, 7575.3, 8129.4, 8719.2, 9346.5, 10013.0, 10722.0, 11474.0, 12272.0, 13119.0,
    14017.0, 14969.0, 15977.0, 17044.0, 18173.0, 19367.0, 20630.0, 21964.0, 23373.0, 24861.0, 26430.0, 28086.0, 29831.0,
    31671.0, 33608.0, 35649.0, 37796.0, 40055.0, 42430.0, 44927.0, 47551.0, 50307.0, 53200.0, 56236.0, 59422.0, 62762.0,
    66264.0, 69934.0, 73777.0, 77802.0, 82015.0, 86423.0, 91034.0, 95855.0, 100890.0, 106160.0, 111660.0, 117400.0, 123400.0,
    129650.0, 136170.0, 142980.0, 150070.0, 157460.0, 165160.0, 173180.0, 181530.0, 190220.0, 199260.0, 208670.0, 218450.0,
    228610.0, 239180.0, 250160.0, 261560.0, 273400.0, 285700.0, 298450.0, 311690.0, 325420.0, 339650.0, 354410.0, 369710.0,
    385560.0, 401980.0, 418980.0, 436590.0, 454810.0, 473670.0, 493170.0, 513350.0, 534220.0, 555800.0, 578090.0, 601130.0,
    624940.0, 649530.0, 674920.0, 701130.0, 728190.0, 756110.0, 784920.0, 814630.0, 845280.0, 876880.0, 909450.0, 943020.0,
    977610.0, 1013250.0, 1049940.0, 1087740.0, 1087740.0]


def es_table(E, t):
    """0.1 * linear interpolation of the table at the clamped temperature"""
    lo, hi = 173.16, 375.16
    tc = E.ite(t < lo, lo, E.ite(t > hi, hi, t))
    if not E.sym:
        k = int(tc - lo)
        s = (tc - lo) - k
        return 0.1 * ((1 - s) * TABLE[k] + s * TABLE[min(k + 1, len(TABLE) - 1)])
    k = E.floor(tc - lo)
    s = (tc - lo) - k
    return 0.1 * ((1 - s) * E.table(TABLE, k) + s * E.table(TABLE, k + 1))


def rh_table(E, t, w, p):
    if not E.sym and (t != t or w != w or p != p):
        return E.nan
    e = es_table(E, t)
    v = w * (p - 0.378 * e) / (0.622 * e) * 100
    return E.ite(v < 0.0001, 0.0001, v)


@case(["C03", "C28"], ["meteorology.relhum"], trials=500)
def c03_relhum(E):
    cont = E.pick("container", ["scalar", "numpy0", "numpy1", "numpy2", "xarray1", "xarray2"])
    sh = shape_of(E, cont)
    t = E.field("t", sh, 100, 450, nan=True, hot=[173.16, 375.16, 174.16, 273.16, 374.16, 300])
    w = E.field("w", sh, -0.01, 0.1, nan=True, hot=[0])
    p = E.field("p", sh, 1000, 110000, nan=True)
    yc = ycoord(E, sh)
    if cont == "scalar":
        a = [E.num(x()) for x in (t, w, p)]
        out = E.call("meteorology.relhum", *a)
    else:
        out = E.call("meteorology.relhum", put(E, cont, t, yc), put(E, cont, w, yc), put(E, cont, p, yc))
    same_container(E, cont, out)
    E.same("shape", E.shape(out), sh)
    for ix in E.points(sh):
        E.eq("table interpolation at every element", E.at(out, *ix), rh_table(E, t(*ix), w(*ix), p(*ix)), tol=1e-8)
    if E.isxr(out):
        E.same("dims", E.dims(out), ("y", "x", "z")[:len(sh)])


# ------------------------------------------------------------------ C04
def magnus(E, t, w, p, ice):
    a, b = (22.571, 273.71) if ice else (17.269, 35.86)
    e = 6.1128 * E.exp(a * (t - 273.15) / ((t - 273.15) + b)) if ice else 6.1128 * E.exp(a * (t - 273.15) / (t - b))
    q = 0.622 * e / (p * 0.01 - 0.378 * e)
    return 100 * (w / q)


@summary("meteorology._relhum_ice", "c04_helper_ice")
def s_ice(E, t, w, p):
    return E.elementwise(lambda a, b, c: magnus(E, a, b, c, True), t, w, p)


@summary("meteorology._relhum_water", "c04_helper_water")
def s_water(E, t, w, p):
    return E.elementwise(lambda a, b, c: magnus(E, a, b, c, False), t, w, p)


def _helper(E, q, ice):
    t = E.real("t", 180, 340, nan=True)
    w = E.real("w", 0, 0.1, nan=True)
    p = E.real("p", 20000, 110000, nan=True)
    E.eq("Magnus form", E.call(q, t, w, p), magnus(E, t, w, p, ice))


@case("C04", ["meteorology._relhum_ice"])
def c04_helper_ice(E):
    _helper(E, "meteorology._relhum_ice", True)


@case("C04", ["meteorology._relhum_water"])
def c04_helper_water(E):
    _helper(E, "meteorology._relhum_water", False)


def _rh_public(E, q, ice):
    cont = E.pick("container", CONTAINERS)
    sh = shape_of(E, cont)
    t = E.field("t", sh, 180, 340, nan=True, hot=[273.15])
    w = E.field("w", sh, 0, 0.1, nan=True)
    p = E.field("p", sh, 40000, 110000, nan=True)
    yc = ycoord(E, sh)
    at = E.meta({"units": "K", "note": "x"})
    out = E.call(q, put(E, cont, t, yc, at, "temp"), put(E, cont, w, yc), put(E, cont, p, yc))
    same_container(E, cont, out)
    E.same("shape", E.shape(out), sh)
    for ix in E.points(sh):
        E.eq("Magnus form at every element", E.at(out, *ix), magnus(E, t(*ix), w(*ix), p(*ix), ice))
    if E.isxr(out):
        E.same("dims", E.dims(out), ("y", "x", "z")[:len(sh)])
        E.same("attributes of the temperature", E.attrs(out), at)
        E.same("coordinates", E.coord_names(out), {"y"})
        for ix in E.points(sh[:1]):
            E.eq("coordinate values", E.at(E.coord(out, "y"), *ix), yc(*ix))


@case(["C04", "C28"], ["meteorology.relhum_ice", "meteorology._relhum_ice"])
def c04_ice(E):
    _rh_public(E, "meteorology.relhum_ice", True)


@case(["C04", "C28"], ["meteorology.relhum_water", "meteorology._relhum_water"])
def c04_water(E):
    _rh_public(E, "meteorology.relhum_water", False)


# ------------------------------------------------------------------ C05
def svp(E, f, fill):
    c = (f - 32) * 5 / 9
    return E.ite(c > 0, lambda: 0.6108 * E.exp(17.27 * c / (c + 237.3)), fill)


def slope(E, f, fill):
    c = (f - 32) * 5 / 9
    return E.ite(c > 0, lambda: 4096 * (0.6108 * E.exp(17.27 * c / (c + 237.3))) / ((c + 237.3) * (c + 237.3)), fill)


@summary("meteorology.saturation_vapor_pressure", "c05_svp")
def s_svp(E, temperature, tfill):
    if E.isxr(temperature):
        return NotImplemented
    return NotImplemented


def _fao(E, q, spec, names):
    cont = E.pick("container", CONTAINERS)
    fillk = E.pick("tfill", ["default", "number"])
    sh = shape_of(E, cont)
    t = E.field("t", sh, -100, 200, nan=True, hot=[32, 31.9, 32.1, 0, 50, 212])
    yc = ycoord(E, sh)
    at = {"units": "F"}
    a = [put(E, cont, t, yc, at, "temp")]
    fill = E.nan
    if fillk == "number":
        fill = E.real("fill", -1000, 1000)
        a.append(fill)
    out = E.call(q, *a)
    same_container(E, cont, out)
    E.same("shape", E.shape(out), sh)
    for ix in E.points(sh):
        E.eq("FAO-56 formula at every element", E.at(out, *ix), spec(E, t(*ix), fill))
    if E.isxr(out):
        E.same("dims", E.dims(out), ("y", "x", "z")[:len(sh)])


@case(["C05", "C28"], ["meteorology.saturation_vapor_pressure"])
def c05_svp(E):
    _fao(E, "meteorology.saturation_vapor_pressure", svp, None)


@case(["C05", "C28"], ["meteorology.actual_saturation_vapor_pressure"])
def c05_asvp(E):
    _fao(E, "meteorology.actual_saturation_vapor_pressure", svp, None)


@case(["C05", "C28"], ["meteorology.saturation_vapor_pressure_slope"])
def c05_slope(E):
    _fao(E, "meteorology.saturation_vapor_pressure_slope", slope, None)


@case(["C05", "C28"], ["meteorology.psychrometric_constant"])
def c05_psy(E):
    cont = E.pick("container", CONTAINERS)
    sh = shape_of(E, cont)
    p = E.field("p", sh, 0, 200, nan=True)
    yc = ycoord(E, sh)
    out = E.call("meteorology.psychrometric_constant", put(E, cont, p, yc))
    same_container(E, cont, out)
    E.same("shape", E.shape(out), sh)
    for ix in E.points(sh):
        E.eq("0.00066474 p at every element", E.at(out, *ix), 0.00066474 * p(*ix))


@case("C05", ["meteorology.saturation_vapor_pressure", "meteorology.saturation_vapor_pressure_slope"])
def c05_monotone(E):
    """the slope is within 0.1 % of the derivative of the returned pressure; the pressure increases"""
    t = E.real("t", 32, 200, strict=True)
    u = E.real("u", 32, 200, strict=True)
    c = (t - 32) * 5 / 9
    s = E.at(E.call("meteorology.saturation_vapor_pressure_slope", t))
    e = E.at(E.call("meteorology.saturation_vapor_pressure", t))
    e2 = E.at(E.call("meteorology.saturation_vapor_pressure", u))
    # d/dc of 0.6108 exp(17.27 c/(c+237.3)) is e * 17.27*237.3/(c+237.3)^2
    true = e * (17.27 * 237.3) / ((c + 237.3) * (c + 237.3))
    E.le("slope not above 1.001 times the derivative", s, true * 1.001)
    E.le("slope not below 0.999 times the derivative", true * 0.999, s)
    E.assume(t < u)
    E.le("pressure increases with temperature", e, e2)
