"""Concrete time axes for the checking context: samples of a calendar, their periods and labels,
computed independently of xarray's resampling."""
import numpy as np

SEASONS = {"DJF": (12, 1, 2), "JFM": (1, 2, 3), "FMA": (2, 3, 4), "MAM": (3, 4, 5), "AMJ": (4, 5, 6), "MJJ": (5, 6, 7),
           "JJA": (6, 7, 8), "JAS": (7, 8, 9), "ASO": (8, 9, 10), "SON": (9, 10, 11), "OND": (10, 11, 12), "NDJ": (11, 12, 1)}
QUARTER = {12: "DJF", 1: "DJF", 2: "DJF", 3: "MAM", 4: "MAM", 5: "MAM", 6: "JJA", 7: "JJA", 8: "JJA", 9: "SON", 10: "SON",
           11: "SON"}


class Groups:
    """samples -> groups, in order"""

    def __init__(self, keys, order="first"):
        ks = list(dict.fromkeys(keys))
        if order == "sorted":
            ks.sort()
        self.keys = ks
        ix = {k: i for i, k in enumerate(ks)}
        self.of_ = [ix[k] for k in keys]
        self.n = len(ks)
        self.members = [[] for _ in ks]
        for i, g in enumerate(self.of_):
            self.members[g].append(i)

    def of(self, i):
        return self.of_[int(i)]

    def __iter__(self):
        return iter(range(self.n))


class TimeAxis:
    def __init__(self, calendar, start, step, n, stamp=0):
        """calendar: 'numpy' (datetime64) or a cftime calendar; step: hours, or 'month'; stamp: day offset in month"""
        import cftime
        import datetime
        self.calendar = "proleptic_gregorian" if calendar == "numpy" else calendar
        self.np = calendar == "numpy"
        y, m, d, h = start
        if step == "month":
            dt = []
            for k in range(n):
                yy, mm = y + (m - 1 + k) // 12, (m - 1 + k) % 12 + 1
                # adding nothing turns the base class into the calendar's own class
                dt.append(cftime.datetime(yy, mm, 1 + stamp, calendar=self.calendar) + datetime.timedelta(0))
        else:
            t0 = cftime.datetime(y, m, d, h, calendar=self.calendar)
            dt = [t0 + datetime.timedelta(hours=step * k) for k in range(n)]
        self.dt = dt
        self.n = n
        self.values = np.array([np.datetime64(t.isoformat(), "ns") for t in dt]) if self.np else np.array(dt, dtype=object)
        self._g = {}

    def key(self, f, t):
        if f == "year":
            return (t.year,)
        if f == "season":
            y, m = (t.year, t.month) if t.month < 12 else (t.year + 1, 0)
            return (y, m // 3)
        return {"month": (t.year, t.month), "day": (t.year, t.month, t.day), "hour": (t.year, t.month, t.day, t.hour)}[f]

    def periods(self, f):
        if f not in self._g:
            self._g[f] = Groups([self.key(f, t) for t in self.dt])
        return self._g[f]

    def like(self, f):
        """groups of like periods over all years, ordered by their place in the year"""
        k = ("like", f)
        if k not in self._g:
            self._g[k] = Groups([self.key(f, t)[1:] for t in self.dt], "sorted")
        return self._g[k]

    def _first(self, g, b):
        return self.dt[g.members[b][0]]

    def days_in_month(self, i):
        t = self.dt[int(i)]
        return self._mlen(t.year, t.month)

    def _mlen(self, y, m):
        import cftime
        y2, m2 = (y, m + 1) if m < 12 else (y + 1, 1)
        return (cftime.datetime(y2, m2, 1, calendar=self.calendar) - cftime.datetime(y, m, 1, calendar=self.calendar)).days

    def month(self, i):
        return self.dt[int(i)].month

    def season(self, i):
        return QUARTER[self.dt[int(i)].month]

    def centre(self, f, b):
        import cftime
        import datetime
        t = self._first(self.periods(f), b)
        c = lambda y, m, d=1, h=0: cftime.datetime(y, m, d, h, calendar=self.calendar)
        if f == "year":
            a, z = c(t.year, 1), c(t.year + 1, 1)
        elif f == "season":
            y, q = self.key(f, t)
            m0 = 3 * q
            a = c(y - 1, 12) if m0 == 0 else c(y, m0)
            z = c(y, m0 + 3) if m0 + 3 <= 12 else None
        elif f == "month":
            a, z = c(t.year, t.month), c(t.year + (t.month == 12), t.month % 12 + 1)
        elif f == "day":
            a = c(t.year, t.month, t.day)
            z = a + datetime.timedelta(days=1)
        else:
            a = c(t.year, t.month, t.day, t.hour)
            z = a + datetime.timedelta(hours=1)
        r = a + (z - a) / 2
        return np.datetime64(r.isoformat(), "ns") if self.np else r

    def stamp(self, y, m):
        """first of the month, as a value of the axis"""
        import cftime
        r = cftime.datetime(y, m, 1, calendar=self.calendar)
        return np.datetime64(r.isoformat(), "ns") if self.np else r


def parts(v):
    """(year, month, day, hour) of a time value"""
    if isinstance(v, np.datetime64):
        s = str(v.astype("datetime64[h]"))
        return int(s[:4]), int(s[5:7]), int(s[8:10]), int(s[11:13])
    return v.year, v.month, v.day, v.hour
