"""C19-C22: calendar averages, climatologies, anomalies, month to season."""
from vpy.spec import case

Q = {k: "climatologies." + k for k in ("calendar_average", "climatology_average", "climate_anomaly", "month_to_season")}
HELP = ["climatologies._get_time_coordinate_info", "climatologies._calculate_center_of_time_bounds",
        "climatologies._infer_calendar_name", "climatologies._contains_datetime_like_objects"]
WHY = "grouping by calendar period is done by xarray/pandas on calendars; checked on samples"
SEASONS = {"DJF": (12, 1, 2), "JFM": (1, 2, 3), "FMA": (2, 3, 4), "MAM": (3, 4, 5), "AMJ": (4, 5, 6), "MJJ": (5, 6, 7),
           "JJA": (6, 7, 8), "JAS": (7, 8, 9), "ASO": (8, 9, 10), "SON": (9, 10, 11), "OND": (10, 11, 12), "NDJ": (11, 12, 1)}


class Setup:
    """data over time and one other dimension, in a container, and how the time axis is named"""

    def __init__(self, E, steps, whole_years=False):
        cont = self.cont = E.pick("container", ["array", "dataset"])
        pos = self.pos = E.pick("time position", ["only", "first", "last"])
        nm = E.pick("time named", ["default", "by argument", "by attribute"])
        step = E.pick("step", steps)
        T = self.T = E.time_axis("time", step, whole_years=whole_years)
        m = E.dim("m", 1, 3)
        self.E, self.m = E, m
        sh = {"only": (T.n,), "first": (T.n, m), "last": (m, T.n)}[pos]
        self.x = E.field("x", sh, -100, 100, kind=E.pick("values", ["f", "i"]))
        self.tn = tn = "time" if nm == "default" else "t"
        self.dims = {"only": (tn,), "first": (tn, "k"), "last": ("k", tn)}[pos]
        # arguments of keep_attrs change metadata only
        self.kw = {"time_dim": tn} if nm == "by argument" else {}
        self.tattr = {"standard_name": "time", "axis": "T"} if nm == "by attribute" else {}
        self.obj = self.make()

    def make(self, x=None):
        E = self.E
        import xarray as xr
        d = E.box("xarray", x or self.x, dims=self.dims, coords={self.tn: xr.DataArray(self.T.values, dims=[self.tn], attrs=self.tattr)},
                  name="v", attrs=E.meta({"units": "K"}))
        return d if self.cont == "array" else E.dataset({"v": d})

    def at(self, i, k):
        return self.x(*{"only": (i,), "first": (i, k), "last": (k, i)}[self.pos])

    def cells(self):
        return range(1 if self.pos == "only" else self.m)

    def result(self, out, dim=None):
        """the resulting variable with dim first: (function of position and cell, size along dim, coordinate values)"""
        E = self.E
        dim = dim or self.tn
        import xarray as xr
        if self.cont == "dataset":
            E.ok("a Dataset gives a Dataset", isinstance(out, xr.Dataset))
            out = out["v"]
        else:
            E.ok("a DataArray gives a DataArray", isinstance(out, xr.DataArray))
        want = {dim} | ({"k"} if self.pos != "only" else set())
        E.same("dimensions of the result", set(out.dims), want)
        out = out.transpose(dim, ...)
        v = out.values
        return (lambda b, k: v[b] if v.ndim == 1 else v[b, k]), v.shape[0], out.coords[dim].values


def steps_for(freq):
    return {"hour": [1], "day": [1, 6, 12, 24], "month": [6, 24, 48, "month"], "season": [12, 24, 120, "month"],
            "year": [24, 120, "month"]}[freq]


def two_level(E, T, freq, f):
    """mean over period b of freq: of the samples (hour, day, month), or of the monthly means weighted by days"""
    if freq in ("hour", "day", "month"):
        G = T.periods(freq)
        return G, lambda b: E.group_mean(G, b, f)
    M, G = T.periods("month"), T.periods(freq)

    def val(b):
        ms = sorted({M.of(i) for i in G.members[b]})
        w = [T.days_in_month(M.members[m][0]) for m in ms]
        return sum(c * E.group_mean(M, m, f) for c, m in zip(w, ms)) / sum(w)
    return G, val


@case(["C19", "C28"], [Q["calendar_average"]] + HELP, prove=False, why=WHY, trials=250, seconds=35)
def c19_calendar_average(E):
    freq = E.pick("freq", ["hour", "day", "month", "season", "year"])
    S = Setup(E, steps_for(freq))
    T = S.T
    out = E.call(Q["calendar_average"], S.obj, freq, **S.kw)
    at, nb, tv = S.result(out)
    G, _ = two_level(E, T, freq, None)
    E.same("one value per calendar period", nb, G.n)
    for b in E.sample(G.n):
        E.same("times are the centres of the periods", tv[b], T.centre(freq, b))
        for k in S.cells():
            _, val = two_level(E, T, freq, lambda i: S.at(i, k))
            E.eq("average of the period", at(b, k), val(b), tol=1e-9, scale=100)


@case(["C20", "C28"], [Q["climatology_average"]] + HELP, prove=False, why=WHY, trials=120, seconds=45)
def c20_climatology(E):
    freq = E.pick("freq", ["day", "month", "hour", "month"])
    S = Setup(E, {"hour": [1], "day": [6, 24], "month": [24, "month"]}[freq], whole_years=True)
    T = S.T
    out = E.call(Q["climatology_average"], S.obj, freq, **S.kw)
    at, nb, tv = S.result(out)
    G = T.like(freq)
    from vpy.ctime import parts
    E.same("one value per label", nb, G.n)
    for b in E.sample(G.n, 60):
        p = parts(tv[b])[1:]
        E.same("the time of a value has the label it belongs to", tuple(p[:len(G.keys[b])]), tuple(G.keys[b]))
        for k in S.cells():
            E.eq("mean over all samples with the label", at(b, k), E.group_mean(G, b, lambda i: S.at(i, k)), tol=1e-9, scale=100)


def season_mean(E, T, months, f):
    M = T.periods("month")
    ms = [m for m in M if T.month(M.members[m][0]) in months]
    w = [T.days_in_month(M.members[m][0]) for m in ms]
    return sum(c * E.group_mean(M, m, f) for c, m in zip(w, ms)) / sum(w)


@case(["C20", "C28"], [Q["climatology_average"]] + HELP, prove=False, why=WHY, trials=150, seconds=35)
def c20_seasons(E):
    which = E.pick("seasons", ["default", "one", "list", "string"])
    S = Setup(E, [24, 120 if False else 12, "month", "month"], whole_years=True)
    T = S.T
    kw = dict(S.kw)
    want = ["DJF", "JJA", "MAM", "SON"]
    if which != "default":
        names = sorted(SEASONS)
        n = 1 if which != "list" else E.dim("seasons", 1, 12)
        k0, st = E.int("first", 0, 11), E.pick("stride", [1, 5, 7, 11])
        want = [names[(k0 + st * q) % 12] for q in range(n)]
        kw["custom_seasons"] = want[0] if which == "string" else list(want)
    out = E.call(Q["climatology_average"], S.obj, "season", **kw)
    at, nb, sv = S.result(out, "season")
    E.same("requested seasons in the requested order", [str(x) for x in sv], want)
    for b, s in enumerate(want):
        for k in S.cells():
            E.eq("days-weighted mean of the monthly means", at(b, k), season_mean(E, T, SEASONS[s], lambda i: S.at(i, k)), tol=1e-9, scale=100)


@case(["C21", "C28"], [Q["climate_anomaly"], Q["climatology_average"], Q["calendar_average"]] + HELP, prove=False, why=WHY,
      trials=200, seconds=45)
def c21_anomaly(E):
    freq = E.pick("freq", ["day", "month", "season", "year"])
    S = Setup(E, {"day": [24, 12], "month": [24, "month"], "season": [24, "month"], "year": [24, "month"]}[freq],
              whole_years=True)
    T = S.T
    out = E.call(Q["climate_anomaly"], S.obj, freq, **S.kw)
    at, nb, tv = S.result(out)
    E.same("the time axis is unchanged", list(tv), list(T.values))
    memo = {}

    def clim(i, k):
        f = lambda j: S.at(j, k)
        if freq in ("day", "month"):
            G = T.like(freq)
            g = G.of(i)
            v = lambda: E.group_mean(G, g, f)
        elif freq == "season":
            g = T.season(i)
            v = lambda: season_mean(E, T, SEASONS[g], f)
        else:
            G, val = two_level(E, T, "year", f)
            g = G.of(i)
            v = lambda: val(g)
        if (g, k) not in memo:
            memo[g, k] = v()
        return memo[g, k]
    for i in E.sample(T.n, 40):
        for k in S.cells():
            E.eq("data minus the matching climatology", at(i, k), S.at(i, k) - clim(i, k), tol=1e-9, scale=100)


@case(["C22", "C28"], [Q["month_to_season"], HELP[0], HELP[3]], prove=False, why=WHY, trials=250, seconds=30)
def c22_month_to_season(E):
    season = E.pick("season", sorted(SEASONS))
    S = Setup(E, ["month"], whole_years=True)
    T = S.T
    kw = {"time_coord_name": S.kw["time_dim"]} if S.kw else {}
    out = E.call(Q["month_to_season"], S.obj, season, **kw)
    at, nb, tv = S.result(out)
    ny = T.n // 12
    E.same("one value per year", nb, ny)
    for y in E.sample(ny):
        mid = SEASONS[season][1]
        E.same("stamped with the middle month", tv[y], T.stamp(T.dt[0].year + y, mid))
        c = 12 * y + mid - 1
        ms = [m for m in (c - 1, c, c + 1) if 0 <= m < T.n]
        for k in S.cells():
            E.eq("mean of the three months", at(y, k), sum(S.at(m, k) for m in ms) / len(ms), tol=1e-9, scale=100)


@case(["C22", "C29"], [Q["month_to_season"]], prove=False, why=WHY, trials=40)
def c22_length(E):
    import xarray as xr
    n = E.int("n", 1, 40)
    E.assume(n % 12 != 0)
    T = E.time_axis("time", "month", whole_years=True)
    from vpy.ctime import TimeAxis
    T = TimeAxis("numpy", (2000, 1, 1, 0), "month", n)
    x = E.field("x", (n,), -5, 5)
    d = E.box("xarray", x, dims=("time",), coords={"time": xr.DataArray(T.values, dims=["time"])})
    E.raises("length not a multiple of 12", ValueError, Q["month_to_season"], d, E.pick("season", sorted(SEASONS)))


@case(["C29", "C19", "C20", "C21"], [Q["calendar_average"], Q["climatology_average"], Q["climate_anomaly"], HELP[0]],
      prove=False, why=WHY, trials=150)
def c29_climate(E):
    import numpy as np
    import xarray as xr
    from vpy.ctime import TimeAxis
    fn = E.pick("function", ["calendar_average", "climatology_average", "climate_anomaly"])
    what = E.pick("what", ["freq", "season", "not datetime", "not uniform"])
    n = E.int("n", 12, 40)
    T = TimeAxis("numpy", (2000, 1, 1, 0), 24, 2 * n)
    good = {"calendar_average": ["hour", "day", "month", "season", "year"], "climatology_average": ["hour", "day", "month", "season"],
            "climate_anomaly": ["day", "month", "season", "year"]}[fn]
    tv, freq, kw = T.values[:n], E.pick("freq", ["day", "month", "season", "year", "hour"]), {}
    if freq not in good:
        freq = good[0]
    if what == "freq":
        bad = [f for f in ("decade", "week", "", "Day", "hours", "years", "annual", "hour", "year") if f not in good]
        freq = E.pick("bad freq", bad)
    elif what == "season":
        if fn != "climatology_average":
            E.discard()
        freq = "season"
        kw["custom_seasons"] = E.pick("bad season", [["DJF", "ABC"], ["djf"], ["JJA", "JJ"], "XYZ", ["MAM", "MAM", "MA"]])
    elif what == "not datetime":
        tv = E.pick("times", [np.arange(n), np.arange(n) * 1.0, np.array([str(i) for i in range(n)])])
    else:
        keep = [i for i in range(2 * n) if i % 3 != 1][:n]
        tv = T.values[keep]
        if E.flag("one gap"):
            g = E.int("gap", 1, n - 2)
            tv = np.concatenate([T.values[:g], T.values[g + 1:n + 1]])
    x = E.field("x", (n,), -5, 5)
    d = E.box("xarray", x, dims=("time",), coords={"time": xr.DataArray(tv, dims=["time"])})
    kw["time_dim"] = "time"
    if E.flag("as Dataset"):
        d = E.dataset({"v": d})
    E.raises("refused", ValueError, Q[fn], d, freq, **kw)
