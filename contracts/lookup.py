"""C26 variable lookup, C30 wrappers."""
from vpy.spec import case

F, O = "gc_util._find_var", "gc_util._find_optional_var"
WHY = "string comparison against data sets of any size; checked on samples"


def caps(s, sep="_"):
    return sep.join(w.capitalize() for w in s.split(sep))


def std_forms(s):
    return {s, s.lower(), s.upper(), s.capitalize(), caps(s)}


def long_forms(s):
    return {s, s.lower(), s.upper(), s.capitalize(), caps(s, " "), caps(s), s.replace(" ", "_"), s.replace("_", " ")}


def name_forms(s):
    return [s, s.lower(), s.upper(), s.capitalize(), caps(s)]


def reference(names, attrs, coords, std, long, poss):
    if std:
        for n in names:
            if n in std_forms(std) or attrs[n].get("standard_name", "") in std_forms(std):
                return n
    if long:
        for n in names:
            if n in long_forms(long) or attrs[n].get("long_name", "") in long_forms(long):
                return n
    for p in poss or ():
        for f in name_forms(p):
            if f in names or f in coords:
                return f
    return None


STD, LONG = ["northward_wind", "surface_air_pressure"], ["Meridional wind", "Surface pressure", "hybrid A coefficient at layer midpoints"]
POSS = ["V", "vs", "meridional_wind", "PS", "ps", "p_surface", "plev", "hyam"]


@case(["C26", "C28"], [F, O], prove=False, why=WHY, trials=1500, seconds=20)
def c26_lookup(E):
    import xarray as xr
    r = E.rng_for("names")
    std = E.pick("standard_name", [None] + STD)
    long = E.pick("long_name", [None] + LONG)
    np_ = E.int("names", 0, 4)
    poss = [POSS[i] for i in r.permutation(len(POSS))[:np_]]
    pool = [x for s in STD for x in std_forms(s)] + [x for s in LONG for x in long_forms(s)] + [
        x for p in POSS for x in name_forms(p)] + ["other", "x", "northward wind", "wind", "NORTHWARD", "Vs2"]
    pool = sorted(set(pool))
    pick = lambda: pool[int(r.integers(len(pool)))]
    if r.random() < 0.6:
        near = sorted((std_forms(std) if std else set()) | (long_forms(long) if long else set()) | {f for p in poss for f in name_forms(p)}) or pool
        pick = lambda: (near if r.random() < 0.4 else pool)[int(r.integers(10 ** 6)) % len(near if False else pool)] if False else (
            near[int(r.integers(len(near)))] if r.random() < 0.35 else pool[int(r.integers(len(pool)))])
    names, attrs = [], {}
    for _ in range(E.int("variables", 0, 5)):
        n = pick()
        if n in names:
            continue
        names.append(n)
        attrs[n] = {}
        for a in ("standard_name", "long_name"):
            if r.random() < 0.4:
                attrs[n][a] = pick()
    coords = {pick(): [0.0] for _ in range(E.int("coordinates", 0, 2))}
    coords = {k: v for k, v in coords.items() if k not in names}
    E.note("dataset", {"names": names, "attrs": attrs, "coords": sorted(coords), "possible": poss})
    ds = xr.Dataset({n: ((), 1.0, attrs[n]) for n in names}, coords={k: (k, v) for k, v in coords.items()})
    want = reference(names, attrs, coords, std, long, poss)
    kw = dict(standard_name=std, long_name=long, possible_names=poss or None)
    kind, v = E.try_call(F, ds, description="thing", **kw)
    if want is None:
        E.ok("KeyError when nothing matches", kind == "raise" and isinstance(v, KeyError))
    else:
        E.same("the variable found", (kind, v), ("value", want))
    E.same("the optional form", E.call(O, ds, description="thing", **kw), want)


def pool():
    return sorted({x for t in STD for x in std_forms(t)} | {x for t in LONG for x in long_forms(t)} |
                  {x for q in POSS for x in name_forms(q)} | {"other", "x", "northward wind", "wind", "NORTHWARD", "Vs2"})


@case(["C26", "C28"], [F, O], trials=500, seconds=10)
def c26_search(E):
    """any strings, any number of variables, any list of names"""
    form = E.pick("function", [F, O])
    has_std, has_long = E.pick("standard name", [False, True]), E.pick("long name", [False, True])
    has_poss = E.pick("possible names", ["absent", "list"])
    P = pool()
    n = E.dim("variables", 0)
    m = E.dim("names", 0)
    name = E.strings("name", (n,), P, distinct=True)
    attrs = {"standard_name": E.strings("std_attr", (n,), P, maybe=0.4), "long_name": E.strings("long_attr", (n,), P, maybe=0.4)}
    ds = E.named(n, name, attrs, P)
    std = E.nonempty(E.strings("standard", (), [x for t in STD for x in std_forms(t)])()) if has_std else None
    long = E.nonempty(E.strings("long", (), [x for t in LONG for x in long_forms(t)])()) if has_long else None
    pn = E.strings("possible", (m,), POSS)
    kw = dict(standard_name=std, long_name=long, possible_names=E.string_list(m, pn) if has_poss == "list" else None)
    kind, v = E.try_call(form, ds, description="thing", **kw)

    def among(k, attr, forms):
        return E.Or(*[E.Or(E.streq(name(k), f), E.streq(attrs[attr](k), f)) for f in forms])

    want = None
    found = False
    if has_std:
        fs = [std, std.lower(), std.upper(), std.capitalize(), E.caps(std, "_")]
        hit = lambda k: among(k, "standard_name", fs)
        if E.branch(E.exists(n, hit)):
            want, found = name(E.first(n, hit)), True
    if not found and has_long:
        fs = [long, long.lower(), long.upper(), long.capitalize(), E.caps(long, " "), E.caps(long, "_"),
              long.replace(" ", "_"), long.replace("_", " ")]
        hit2 = lambda k: among(k, "long_name", fs)
        if E.branch(E.exists(n, hit2)):
            want, found = name(E.first(n, hit2)), True
    if not found and has_poss == "list":
        def tried(h):
            k, j = E.divmod(h, 5)
            x = pn(k)
            return E.str_at(j, [x, x.lower(), x.upper(), x.capitalize(), E.caps(x, "_")])
        hit3 = lambda h: E.holds_name(ds, tried(h))
        if E.branch(E.exists(5 * m, hit3)):
            want, found = tried(E.first(5 * m, hit3)), True
    if found:
        E.same("the first match of the first stage that has one", (kind, v), ("value", want))
    elif form == F:
        E.ok("KeyError when nothing matches", kind == "raise" and isinstance(v, KeyError))
    else:
        E.same("None when nothing matches", (kind, v), ("value", None))


GONE = ["grid_to_triple", "linint1", "linint2", "linint2pts", "moc_globe_atl", "rcm2points", "rcm2rgrid", "rgrid2rcm", "triple_to_grid"]


@case("C30", ["deprecated." + g for g in GONE], prove=False, why="the deprecated functions on samples of argument lists; proved for all arguments by c30_moved_any", trials=200)
def c30_moved(E):
    import numpy as np
    import geocat.comp
    g = E.pick("function", GONE)
    q = "deprecated." + g
    E.ok("exported", getattr(geocat.comp, g) is E.get(q))
    vals = [1, "x", None, np.zeros(3), [1, 2], {"a": 1}, (), float("nan")]
    n = E.int("positional", 0, 5)
    a = [vals[E.int(f"a{k}", 0, len(vals) - 1)] for k in range(n)]
    k = {f"k{j}": vals[E.int(f"b{j}", 0, len(vals) - 1)] for j in range(E.int("keywords", 0, 3))}
    E.same("returns None", E.call(q, *a, **k) is None, True)
    E.ok("warns naming the new home", any(f"geocat.f2py.{g}" in m for m in E.warned()))


@case(["C30"], ["meteorology.dpres_plev", "meteorology.delta_pressure", "gc_util._generate_wrapper_docstring"], trials=200,
      prove=False, why="call-for-call comparison with real arguments; the proof is c30_wrappers")
def c30_dpres(E):
    cont = E.pick("container", ["numpy", "xarray"])
    how = E.pick("call", ["positional", "keywords", "mixed", "default top"])
    n, m = E.dim("n", 2), E.dim("m")
    lev = E.levels("lev", n, 1, 1000, increasing=E.pick("order", [True, False]))
    lo, hi = float(min(lev.arr)), float(max(lev.arr))
    ps = E.field("ps", (m,), lo + 1e-3, hi + 100)
    top = E.real("top", 0, lo) if how != "default top" else None
    P = E.box("xarray", lev, dims=("lev",), attrs={"u": "Pa"}) if cont == "xarray" else E.box("numpy", lev)
    S = E.box("xarray", ps, dims=("x",), attrs={"v": "Pa"}) if cont == "xarray" else E.box("numpy", ps)
    a, k = {"positional": ((P, S, top), {}), "keywords": ((), dict(pressure_lev=P, surface_pressure=S, pressure_top=top)),
            "mixed": ((P, S), dict(pressure_top=top)), "default top": ((P, S), {})}[how]
    x, y = E.call("meteorology.dpres_plev", *a, **k), E.call("meteorology.delta_pressure", *a, **k)
    E.ok("same type", type(x) is type(y))
    if cont == "xarray":
        E.ok("identical", x.identical(y))
    else:
        E.same("same numbers", x, y)
    for w, f in (("dpres_plev", "delta_pressure"), ("zonal_mpsi", "zonal_meridional_psi")):
        W, B = E.get("meteorology." + w), E.get("meteorology." + f)
        E.ok("documentation of the wrapped function", B.__doc__ in W.__doc__ and f in W.__doc__)
        import inspect
        E.same("same parameters", {k: v.default for k, v in inspect.signature(W).parameters.items()},
               {k: v.default for k, v in inspect.signature(B).parameters.items()})


@case("C30", ["deprecated." + g for g in GONE], trials=20)
def c30_moved_any(E):
    """the body reads none of its parameters, so one run stands for every argument list"""
    g = E.pick("function", GONE)
    q = "deprecated." + g
    E.ok("does not read its arguments", not E.reads_arguments(q))
    a = [E.anything(f"a{k}") for k in range(E.pick("positional", [0, 1, 4]))]
    k = {f"k{j}": E.anything(f"b{j}") for j in range(E.pick("keywords", [0, 2]))}
    E.same("returns None", E.call(q, *a, **k) is None, True)
    E.ok("warns naming the new home", any(f"geocat.f2py.{g}" in m for m in E.warned()))


WRAPS = [("meteorology.dpres_plev", "meteorology.delta_pressure"), ("meteorology.zonal_mpsi", "meteorology.zonal_meridional_psi")]


@case("C30", [x for w in WRAPS for x in w] + ["gc_util._generate_wrapper_docstring"], trials=200)
def c30_wrappers(E):
    """the wrapped function replaced by its contract 'some value of the bound arguments': the wrapper
    hands every argument on, untouched, to the parameter of the same position and name"""
    import inspect
    w, f = E.pick("wrapper", WRAPS)
    W, B = E.get(w), E.get(f)
    sig = inspect.signature(B).parameters
    E.same("same parameters", {k: v.default for k, v in inspect.signature(W).parameters.items()}, {k: v.default for k, v in sig.items()})
    E.ok("documentation of the wrapped function", B.__doc__ in W.__doc__ and f.split(".")[1] in W.__doc__)
    names = list(sig)
    need = sum(v.default is inspect.Parameter.empty for v in sig.values())
    pos = E.pick("positional", list(range(6)))
    how = E.pick("optional", ["all", "none", "every other", "given as None"])
    if pos > len(names):
        E.discard()
    a = [E.anything(x) for x in names[:pos]]
    k = {}
    for j, x in enumerate(names[pos:]):
        i = pos + j
        if i < need or how == "all" or (how == "every other" and i % 2):
            k[x] = E.anything(x)
        elif how == "given as None":
            k[x] = None
    want = E.bound(f, a, k)
    calls, out, token = E.capture(f, w, a, k)
    E.same("one call of the wrapped function", len(calls), 1)
    E.identical("hands on every argument", calls[0], want)
    E.identical("returns what it returned", {"value": out}, {"value": token})
