"""C13, C14: Fourier filters."""
from vpy.spec import case

MODES = ["low_pass", "high_pass", "band_pass", "band_block"]
FN = {m: "fourier_filters.fourier_" + m for m in MODES}
ALL = ["fourier_filters.fourier_filter"] + [FN[m] for m in MODES]


def bins(E, n, general=False):
    """sampling frequency and cut-offs; (frequency, f_low, f_high, c_lo, c_hi)"""
    how = E.pick("cut-offs", [general] if E.sym and general else ["on a bin", "between bins"])
    if how == "on a bin":
        # the k-th bin exactly: resolution one, hence no rounding in k * frequency / n
        j1, j2 = E.int("j_low", 0), E.int("j_high", 0)
        fq = n if E.sym else float(n)
        fl, fh = (j1, j2) if E.sym else (float(j1), float(j2))
        return fq, fl, fh, j1, j2
    fq = E.real("frequency", 0.001, 1000)
    fl = E.real("f_low", 0, 1000)
    fh = E.real("f_high", 0, 1000)
    if not E.sym:
        fl, fh = fl * fq / 700, fh * fq / 700
        E.distinct_from_integers(fl * n / fq, fh * n / fq)
    return fq, fl, fh, E.floor(fl * n / fq), 0 - E.floor(0 - fh * n / fq)


def keep(E, mode, n, lo, hi):
    def k_(k):
        f = E.min(k, n - k)
        return {"low_pass": f < lo, "high_pass": f >= hi, "band_pass": E.And(lo <= f, f < hi),
                "band_block": E.Not(E.And(lo <= f, f < hi))}[mode]
    return k_


def request(E, mode, how, box, fq, fl, fh, kw):
    low = {} if mode == "high_pass" else {"cutoff_frequency_low": fl}
    high = {} if mode == "low_pass" else {"cutoff_frequency_high": fh}
    if how == "flag":
        return E.call("fourier_filters.fourier_filter", box, fq, **low, **high, **kw, **{mode: True})
    return E.call(FN[mode], box, fq, *low.values(), *high.values(), **kw)


@case(["C13", "C28"], ALL, trials=500)
def c13_band(E):
    """1-D series: exactly the documented bins survive"""
    mode = E.pick("filter", MODES)
    how = E.pick("called as", ["flag", "function"])
    n = E.dim("n", 1)
    fq, fl, fh, lo, hi = bins(E, n)
    x = E.field("signal", (n,), -100, 100)
    out = request(E, mode, how, E.box("numpy", x), fq, fl, fh, {})
    E.same("shape", E.shape(out), (n,))
    E.ok("the result is real", E.kind(out) == "f")
    for (t,) in E.points((n,)):
        E.eq("spectrum kept exactly in the documented band", E.at(out, t),
             E.filtered(n, lambda k: x(k), keep(E, mode, n, lo, hi), t), tol=1e-8, scale=100)


def c14_axis(E, mode):
    """N-dimensional signals in every container: each series along time_axis on its own"""
    how = E.pick("called as", ["flag", "function"])
    cont = E.pick("container", ["list", "numpy", "xarray"])
    rank = E.pick("rank", [1, 2, 3])
    axis = E.pick("time_axis", ["default", 0, 1, 2, -1, -2, -3])
    dtype = E.pick("values", ["f"] if E.sym and rank > 1 else ["f", "i"])
    ax = 0 if axis == "default" else axis % rank if -rank <= axis < rank else None
    if ax is None:
        E.discard()
    sizes = [E.dim(f"n{i}", 1) for i in range(rank)]
    n = sizes[ax]
    fq, fl, fh, lo, hi = bins(E, n, "any" if rank < 3 else "on a bin")
    x = E.field("signal", tuple(sizes), -100, 100, kind=dtype, nan=dtype == "f" and not E.sym and E.flag("missing values"))
    kw = {} if axis == "default" else {"time_axis": axis}
    dims = ("a", "b", "c")[:rank]
    if cont == "xarray":
        c0 = E.levels("coord_a", sizes[0], 0, 100)
        aux = E.field("aux", (sizes[-1],), 0, 1)
        meta = E.meta({"units": "m"})
        b = E.box("xarray", x, dims=dims, coords={"a": c0, "aux": ((dims[-1],), aux, {"q": 1})}, attrs=meta, name="h")
    else:
        b = E.box(cont, x)
    out = request(E, mode, how, b, fq, fl, fh, kw)
    E.same("shape", E.shape(out), tuple(sizes))
    if cont == "xarray":
        E.ok("DataArray in, DataArray out", E.isxr(out))
        E.same("dims", E.dims(out), dims)
        E.same("name", E.name(out), "h")
        E.same("attrs", E.attrs(out), meta)
        E.same("coordinate names", E.coord_names(out), {"a", "aux"})
        for (i,) in E.points((sizes[0],)):
            E.eq("coordinate values", E.at(E.coord(out, "a"), i), c0(i))
    else:
        E.ok("array in, array out", not E.isxr(out))
    E.ok("the result is real", E.kind(out) == "f")
    for ix in E.points(tuple(sizes)):
        E.eq("each series filtered on its own", E.at(out, *ix),
             E.filtered(n, lambda k: x(*ix[:ax], k, *ix[ax + 1:]), keep(E, mode, n, lo, hi), ix[ax]), tol=1e-8, scale=100)


for _m in MODES:
    def _c(E, m=_m):
        c14_axis(E, m)
    _c.__name__ = "c14_axis_" + _m
    case(["C14", "C13", "C28"], ["fourier_filters.fourier_filter", FN[_m]], trials=300, seconds=15)(_c)


@case("C13", ALL, prove=False, why="consequences of c13_band's contract through the inversion theorem of the DFT, which is outside "
      "the logic; checked on samples", trials=300)
def c13_laws(E):
    mode = E.pick("filter", MODES)
    n = E.dim("n", 1)
    fq, fl, fh, lo, hi = bins(E, n)
    x, y = E.field("x", (n,), -100, 100), E.field("y", (n,), -100, 100)
    z = E.derive((n,), lambda i: 2 * x(i) - 3 * y(i))
    run = lambda f, m=mode: request(E, m, "flag", E.box("numpy", f), fq, fl, fh, {})
    ox, oy, oz = run(x), run(y), run(z)
    twice = run(E.from_array(ox))
    ps, bl = run(x, "band_pass"), run(x, "band_block")
    for (t,) in E.points((n,)):
        E.eq("linear", E.at(oz, t), 2 * E.at(ox, t) - 3 * E.at(oy, t), tol=1e-8, scale=1000)
        E.eq("idempotent", E.at(twice, t), E.at(ox, t), tol=1e-8, scale=100)
        E.eq("pass and block add up to the signal", E.at(ps, t) + E.at(bl, t), x(t), tol=1e-8, scale=100)
