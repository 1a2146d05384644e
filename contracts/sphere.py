"""C17, C18: spherical harmonics and Voronoi cell areas."""
from vpy.spec import case

D, R = "spherical.decomposition", "spherical.recomposition"


def grid(E, cont, names=("phi", "theta")):
    ny, nx = E.dim("ny", 1), E.dim("nx", 1)
    sh = (ny, nx)
    th, ph = E.field("theta", sh, 0, 6.28), E.field("phi", sh, 0, 3.14)
    return sh, th, ph


def box(E, cont, f, dims):
    return E.box("xarray", f, dims=dims) if cont == "xarray" else E.box("numpy", f)


def nharm(E, how):
    """max_harm as asked for, and the keyword"""
    if how == "default":
        return 23, {}
    N = E.dim("max_harm", 0, hot=[15, 23, 24, 30])
    return N, {"max_harm": N}


@case(["C17", "C28"], [D], trials=150, seconds=20)
def c17_decomposition(E):
    cont = E.pick("container", ["numpy", "xarray"])
    how = E.pick("max_harm", ["given", "default"] if not E.sym else ["given"])
    sh, th, ph = grid(E, cont)
    data = E.field("data", sh, -100, 100)
    sc = E.field("scale", sh, 0.01, 10)
    N, kw = nharm(E, how)
    dims = ("la", "lo")
    b = lambda f: box(E, cont, f, dims)
    out = E.call(D, b(data), b(sc), b(th), b(ph), **kw)
    E.ok("container follows the data", E.isxr(out) == (cont == "xarray"))
    K = (N + 1) * (N + 2) // 2 if not E.sym else E.half((N + 1) * (N + 2))
    E.same("number of coefficients", E.shape(out), (K,))
    if cont == "xarray":
        E.same("dims", E.dims(out), ("harmonic",))
    for n, m, h in E.harmonics(N):
        num = E.sum2(sh, lambda j, i: data(j, i) * sc(j, i) * E.sph(n, m, ph(j, i), th(j, i)))
        den = E.sum2(sh, lambda j, i: sc(j, i)) / (4 * E.pi)
        E.eq("coefficient (n, m)", E.at(out, h), E.ite(m == 0, 1, 2) * num / den, tol=1e-8, scale=10)


@case(["C17", "C28"], [R], trials=150, seconds=20)
def c17_recomposition(E):
    cont = E.pick("container", ["numpy", "xarray"])
    how = E.pick("max_harm", ["given", "default"] if not E.sym else ["given"])
    sh, th, ph = grid(E, cont)
    N, kw = nharm(E, how)
    K = (N + 1) * (N + 2) // 2 if not E.sym else E.half((N + 1) * (N + 2))
    cr, ci = E.field("re", (K,), -10, 10), E.field("im", (K,), -10, 10)
    co = E.derive((K,), lambda h: E.complex(cr(h), ci(h)), "c")
    dims = ("la", "lo")
    b = lambda f: box(E, cont, f, dims)
    out = E.call(R, box(E, cont, co, ("harmonic",)), b(th), b(ph), **kw)
    E.ok("container follows the data", E.isxr(out) == (cont == "xarray"))
    E.same("shape", E.shape(out), sh)
    if cont == "xarray":
        E.same("dims", E.dims(out), dims)
    for j, i in E.points(sh):
        def term(n, m, h):
            Y = E.sph(n, m, ph(j, i), th(j, i))
            return cr(h) * E.re(Y) + ci(h) * E.im(Y)
        E.eq("sum over all harmonics", E.at(out, j, i), E.harmonic_sum(N, term), tol=1e-8, scale=100)


@case("C17", [D], trials=100)
def c17_laws(E):
    sh, th, ph = grid(E, "numpy")
    x, y = E.field("x", sh, -100, 100), E.field("y", sh, -100, 100)
    sc = E.field("scale", sh, 0.01, 10)
    a, b = E.real("a", -3, 3), E.real("b", -3, 3)
    c = E.real("factor", 0.1, 10)
    N, kw = nharm(E, "given")
    z = E.derive(sh, lambda j, i: a * x(j, i) + b * y(j, i))
    sc2 = E.derive(sh, lambda j, i: c * sc(j, i))
    run = lambda f, s: E.call(D, E.box("numpy", f), E.box("numpy", s), E.box("numpy", th), E.box("numpy", ph), **kw)
    ox, oy, oz, oc = run(x, sc), run(y, sc), run(z, sc), run(x, sc2)
    for n, m, h in E.harmonics(N):
        E.eq("linear in the data", E.at(oz, h), a * E.at(ox, h) + b * E.at(oy, h), tol=1e-8, scale=1000)
        E.eq("a common factor of the scale cancels", E.at(oc, h), E.at(ox, h), tol=1e-8, scale=10)


@case(["C18", "C28"], ["spherical.scale_voronoi"], trials=300)
def c18_cells(E):
    """each grid point is handed the area of its own cell"""
    cont = E.pick("container", ["numpy", "xarray"])
    ny, nx = E.dim("ny", 2), E.dim("nx", 2)
    sh = (ny, nx)
    if E.pick("points", ["anywhere", "rectangular grid"]) == "anywhere":
        th, ph = E.field("theta", sh, 0, 6.28), E.field("phi", sh, 0.01, 3.13)
    else:
        t1, p1 = E.levels("theta", nx, 0, 6.28), E.levels("phi", ny, 0.05, 3.09)
        th, ph = E.derive(sh, lambda j, i: t1(i)), E.derive(sh, lambda j, i: p1(j))
    if not E.sym:
        spread(E, th.arr.ravel(), ph.arr.ravel())
    dims = ("p", "q")
    out = E.call("spherical.scale_voronoi", box(E, cont, th, dims), box(E, cont, ph, dims))
    E.ok("container follows the input", E.isxr(out) == (cont == "xarray"))
    E.same("shape", E.shape(out), sh)
    if cont == "xarray":
        E.same("dims", E.dims(out), dims)
    for j, i in E.points(sh):
        E.eq("area of the point's own cell", E.at(out, j, i), E.voronoi(sh, th, ph, j, i), tol=1e-6)
    if not E.sym:
        E.eq("areas add up to the sphere", sum(E.at(out, j, i) for j in range(ny) for i in range(nx)), 4 * E.pi, tol=1e-6)


def spread(E, t, p):
    """the run-time check wants distinct points that do not share a plane"""
    import numpy as np
    x = np.stack([np.sin(p) * np.cos(t), np.sin(p) * np.sin(t), np.cos(p)], axis=1)
    d = np.linalg.norm(x[:, None] - x[None], axis=2) + np.eye(len(t))
    E.assume(len(t) >= 4 and d.min() > 0.02 and np.linalg.svd(x - x.mean(axis=0))[1][-1] > 0.2)
