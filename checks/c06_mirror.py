"""C06: mirror images evolve into mirror images."""
from fractions import Fraction as Fr

from checks.c15_trouble import _rnd0 as rnd
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "mirror symmetry"
TECHNIQUE = "relational abstract interpretation: the run on the reflected state must yield the reflected value graph (global value numbering)"
EXPLANATION = (
    "For each active axis the state is reflected (cell order reversed, that momentum negated, left/right boundary types swapped). du/dt, the time step, "
    "the troubled-cell flags and the snapshot of the reflected run must be the reflection of those of the original run at the generic cell, next to "
    "every boundary, and in corners; the smooth-extremum detector, the slope limiters and the interface broadcast are also compared on their own."
)
ASSUMPTIONS = [
    "real arithmetic (no rounding)",
    "ties of comparisons (sonic points exactly at zero speed) are measure-zero and not distinguished",
    "grid extents large compared with the stencils",
    "equality of value graphs is decided by 96-lane random fingerprints",
]


def once(c, ax, dims, p, rs, bcs, nv, cfl, opts, equalv):
    """run on the state reflected along axis letter ax ('' = original); returns getters in original labels"""
    it = c.interp()
    H.assume_any(it, True)
    n = H.sizes(dims)
    kw = dict(opts)
    for d in dims:
        lo = N.leaf("lo" + d)
        kw[d] = (lo, N.add(lo, N.leaf("len" + d, 1)))
    if bcs:
        B = c.get("boundary_conditions", "BoundaryCondition")
        kw["bc"] = c.call(B, **{d: (b[::-1] if d == ax else b) for d, b in bcs.items()})
    lf = H.uleaf()
    a = "xyz".index(ax) if ax else None

    def reflect(idx):
        if a is None:
            return tuple(idx)
        i = list(idx)
        i[1 + a] = n[a] - 1 - i[1 + a]
        return tuple(i)

    def sgn(v, x):
        return N.neg(x) if a is not None and v == 1 + a else x

    def ufn(idx):
        x = lf(reflect(idx))
        if equalv and idx[0] == 1 + "xyz".index(equalv):
            # uniform normal velocity: m = rho * V
            r = lf((0,) + reflect(idx)[1:])
            x = N.mul(r, N.leaf("V"))
        return sgn(idx[0], x)

    s = H.solver(c, dims, dict(zip(dims, p)), riemann_solver=rs, ic="leaf", passives=tuple(f"s{j}" for j in range(nv - 5)), fixed=not cfl, **kw)
    U = A.from_fn((nv,) + n, ufn, "f")
    dt, du = H.rhs(c, s, U)
    am = c.attr(s, "am")
    T = c.call(am, "mean trouble") if opts.get("a_posteriori_slope_limiting") else None
    c.call(am, "u").setitem((slice(None),) * 4, U)
    c.method(s, "snapshot")
    w = c.attr(s, "snapshots")[-1]["w"]
    return dict(
        dt=dt,
        du=lambda i: sgn(i[0], du.elem(reflect(i))),
        w=lambda i: sgn(i[0], w.elem(reflect(i))),
        T=None if T is None else (lambda i: T.elem(reflect((0,) + tuple(i))[1:])),
    )


class Real:
    """one consistent ordered model per lane (comparison outcomes cannot contradict each other)"""

    def __init__(self, salt):
        self.salt = salt

    def __call__(self, n):
        if n.op == "leaf":
            r = rnd(self.salt, n.args[0])
            return 1 + r.random(N.L) / 2 if n.pos == 1 else r.random(N.L) - 0.5
        return None


def mirror(c, *a, **kw):
    """Comparison outcomes are drawn per lane; chains of comparisons can come out contradictory on a few lanes. Equalities failing on so few lanes are
    decided again over ordered models, where they cannot."""
    if not kw.get("a_posteriori_slope_limiting"):
        return compare(c, *a, **kw)
    ratio = kw.get("slope_limiter", "minmod") == "minmod"  # its slope ratio is inverted by the reflection: equal over the reals, not as a term
    if not ratio:
        c.tol = 12
        compare(c, *a, **kw)
        c.tol = 0
    if c.soft or ratio:
        for salt in range(2):
            N.reset()
            N.set_model(Real(salt))
            compare(c, *a, **kw)


def compare(c, ax, dims, p, rs, bcs=None, nv=5, cfl=False, equalv="", k=1, **opts):
    a = once(c, "", dims, p, rs, bcs, nv, cfl, opts, equalv)
    b = once(c, ax, dims, p, rs, bcs, nv, cfl, opts, equalv)
    c.same(b["dt"], a["dt"], "mirror-dt", f"time step of the {ax}-reflected state", key="mirror-dt")
    for cell in H.cells(dims, k):
        if a["T"] is not None:
            c.same(b["T"](cell), a["T"](cell), "mirror-trouble", f"trouble flag at {cell} of the {ax}-reflected state", key="mirror-trouble")
        for v in range(nv):
            i = (v,) + cell
            c.same(b["du"](i), a["du"](i), "mirror-rhs", f"du/dt[{v}] at {cell} of the {ax}-reflected state ({rs}, p={p}, {bcs or 'periodic'}, {opts})", key="mirror-rhs")
            c.same(b["w"](i), a["w"](i), "mirror-snapshot", f"snapshot[{v}] at {cell} of the {ax}-reflected state", key="mirror-snapshot")


def riemann(c, rs, ax, nv):
    """a reflected Riemann problem has the reflected flux"""
    c.interp()
    f = c.get("riemann_solvers", rs)
    HS = c.get("hydro", "HydroState")
    hs = c.call(HS, passive_scalars=tuple(f"s{k}" for k in range(nv - 5)))
    a = "xyz".index(ax)
    g = N.add(N.ONE, N.leaf("gm1", 1))
    fl = N.leaf("floor", 1)
    wl = [N.leaf(("l", v), 1 if v in (0, 4) else None) for v in range(nv)]
    wr = [N.leaf(("r", v), 1 if v in (0, 4) else None) for v in range(nv)]
    if rs == "advection_upwind":
        wr[1 + a] = wl[1 + a]
    if rs == "hllc":
        sp = S.hllc_speeds(wl, wr, g, a, fl)
        N.assume_ordered(sp)

    def mk(w, flip):
        return A.from_fn((nv, 1, 1, 1), lambda i: N.neg(w[i[0]]) if flip and i[0] == 1 + a else w[i[0]], "f")

    F = c.call(f, hs=hs, riemann_problem=(mk(wl, False), mk(wr, False)), gamma=g, dim=ax, csq_floor=fl)
    G = c.call(f, hs=hs, riemann_problem=(mk(wr, True), mk(wl, True)), gamma=g, dim=ax, csq_floor=fl)
    for v in range(nv):
        x = G.elem((v, 0, 0, 0))
        c.same(x if v == 1 + a else N.neg(x), F.elem((v, 0, 0, 0)), "mirror-riemann", f"{rs} {ax}-flux[{v}] of the reflected Riemann problem", key="mirror-riemann")


def detector(c, dims, ax):
    """smooth-extremum detector is reflection invariant"""
    c.interp()
    n = H.sizes(dims)
    a = "xyz".index(ax)
    nd = len(dims)
    f = c.get("smooth_extrema_detection", f"compute_{nd}d_smooth_extrema_detector")
    kw = {1: dict(dim=dims), 2: dict(dims=dims), 3: {}}[nd]
    U = A.from_fn((2,) + n, lambda i: N.leaf(("q",) + tuple(i)), "f")

    def rf(i):
        i = list(i)
        i[1 + a] = n[a] - 1 - i[1 + a]
        return tuple(i)

    V = A.from_fn((2,) + n, lambda i: N.leaf(("q",) + rf(i)), "f")
    o1 = c.call(f, U, eps=N.leaf("eps", 1), **kw)
    o2 = c.call(f, V, eps=N.leaf("eps", 1), **kw)
    W = A.from_fn((2,) + n, lambda i: N.neg(N.leaf(("q",) + tuple(i))), "f")
    o3 = c.call(f, W, eps=N.leaf("eps", 1), **kw)
    m = o1.shape
    g = tuple(sym("i" + d) if d in dims else 0 for d in "xyz")
    for v in range(2):
        for pt in [(v,) + g, (v,) + tuple(0 for _ in g), (v,) + tuple(x - 1 for x in m[1:])]:
            r = list(pt)
            r[1 + a] = m[1 + a] - 1 - r[1 + a]
            c.same(o2.elem(tuple(r)), o1.elem(pt), "mirror-detector", f"detector at {pt} for the {ax}-reflected field", key="mirror-detector")
            c.same(o3.elem(pt), o1.elem(pt), "odd-detector", f"detector at {pt} for the negated field", key="odd-detector")


def limiter(c, name):
    """slope limiters: odd and symmetric, for both orderings of the differences"""
    c.interp()
    f = c.get("slope_limiting", "MUSCL_interpolations")
    # three cells with differences dl, dr (complete partition by signs and magnitudes)
    tiny = N.const(__import__("fractions").Fraction(1, 10 ** 12))
    for sl in (1, -1):
        for sr in (1, -1):
            for big in ("l", "r"):
                a = N.add(tiny, N.leaf("a", 1))
                b = N.add(a, N.leaf("b", 1))
                dl = N.mul(N.const(sl), b if big == "l" else a)
                dr = N.mul(N.const(sr), a if big == "l" else b)
                u1 = N.leaf("u1")
                q = [N.sub(u1, dl), u1, N.add(u1, dr)]
                X = A.from_fn((1, 3), lambda i: q[i[1]], "f")
                Y = A.from_fn((1, 3), lambda i: q[2 - i[1]], "f")
                lo, hi = c.call(f, X, axis=1, limiter=name)
                lo2, hi2 = c.call(f, Y, axis=1, limiter=name)
                c.same(lo2.elem((0, 0)), hi.elem((0, 0)), "mirror-limiter", f"{name}: left face of the reflected cells, signs ({sl},{sr}), larger {big}", key="mirror-limiter")
                c.same(hi2.elem((0, 0)), lo.elem((0, 0)), "mirror-limiter", f"{name}: right face of the reflected cells, signs ({sl},{sr}), larger {big}", key="mirror-limiter")


def broadcast(c, dims, ax, convex, per):
    c.interp()
    n = H.sizes(dims)
    a = "xyz".index(ax)
    f = c.get("slope_limiting", "broadcast_to_troubled_interfaces")

    def mk(ref):
        def el(i):
            i = list(i)
            if ref:
                i[a] = n[a] - 1 - i[a]
            return N.truthy(N.leaf(("tr",) + tuple(i)))

        return A.from_fn(n, el, "b")

    kw = {f"periodic_{d}": d in per for d in "xyz"}
    o1 = c.call(f, mk(False), dims=dims, convex=convex, **kw)
    o2 = c.call(f, mk(True), dims=dims, convex=convex, **kw)
    for b, d in enumerate("xyz"):
        if d not in dims:
            continue
        m = o1[b].shape[1:]
        for cell in H.cells(dims, 2):
            for e in (0, 1):
                i = list(cell)
                i[b] = i[b] + e
                r = list(i)
                r[a] = m[a] - 1 - r[a]
                c.same(o2[b].elem((0,) + tuple(r)), o1[b].elem((0,) + tuple(i)), "mirror-broadcast", f"{d} interface {tuple(i)} of the {ax}-reflected flags", key="mirror-broadcast")


def detection(c, dims, ax, opts):
    """troubled-cell criteria on a reflected candidate: that velocity changes sign, bounds on it swap"""
    for salt in range(2):
        c.interp()
        N.reset()
        N.set_model(Real(("detect", salt)))
        f = c.get("slope_limiting", "detect_troubled_cells")
        n = H.sizes(dims)
        a = "xyz".index(ax)

        def one(flip):
            def mk(tag, k):
                def g(i):
                    i = list(i)
                    if flip:
                        i[1 + a] = n[a] - 1 - i[1 + a]
                    x = N.leaf((tag,) + tuple(i))
                    if tag == "r":  # candidate: the old value plus a small change, so that all outcomes occur
                        x = N.add(N.leaf(("q",) + tuple(i)), N.mul(N.const(k), x))
                    return N.neg(x) if flip and i[0] == 1 + a else x

                return A.from_fn((5,) + n, g, "f")

            kw = dict(opts)
            if kw.get("PAD_bounds"):
                b = {}
                for s in kw["PAD_bounds"]:
                    lo, hi = N.neg(N.leaf("lo" + s, 1)), N.leaf("hi" + s, 1)
                    b[s] = (N.neg(hi), N.neg(lo)) if flip and s == "v" + ax else (lo, hi)
                kw["PAD_bounds"] = b
            return c.call(f, mk("q", 0), mk("r", Fr(1, 4)), dims=dims, NAD_eps=N.mul(N.leaf("tol", 1), N.const(Fr(1, 16))), SED_eps=N.leaf("eps", 1), **kw)

        x3, y3 = one(False), one(True)
        for name, x, y in zip(("flag", "NAD magnitude", "PAD magnitude"), x3, y3):
            m = x.shape
            g = tuple(sym("i" + d) if d in dims else 0 for d in "xyz")
            for pt in (g, (0, 0, 0), tuple(q - 1 for q in m)):
                r = list(pt)
                r[a] = m[a] - 1 - r[a]
                c.same(y.elem(tuple(r)), x.elem(pt), "mirror-detection", f"{name} at {pt} of the {ax}-reflected state ({dims}, {opts})", key="mirror-detection")


def cases(tier):
    out = []

    def add(name, **kw):
        out.append((name, mirror, kw))

    for d in "xyz":
        for rs in ("hllc", "llf", "advection_upwind"):
            out.append((f"riemann {rs} {d}", riemann, dict(rs=rs, ax=d, nv=7)))
    for p in (0, 1, 2, 3, 4, 5):
        add(f"x p={p} llf", ax="x", dims="x", p=(p,), rs="llf", nv=6)
    for d in "xyz":
        add(f"{d} p=2 upwind", ax=d, dims=d, p=(2,), rs="advection_upwind", nv=6, equalv=d)
        for b in (("free", "reflective"), ("outflow", "free"), ("reflective", "outflow"), ("reflective", "reflective"), ("outflow", "outflow")):
            add(f"{d} p=2 hllc {b}", ax=d, dims=d, p=(2,), rs="llf", bcs={d: b})
        for kw in (dict(), dict(convex=True), dict(NAD_mode="local"), dict(SED=False, NAD_range="absolute"), dict(NAD_mode="local", NAD_range="absolute")):
            add(f"{d} p=2 limited {kw}", ax=d, dims=d, p=(2,), rs="llf", slope_limiter="moncen", **H.LIM, **kw)
        add(f"{d} p=2 limited minmod", ax=d, dims=d, p=(2,), rs="llf", slope_limiter="minmod", NAD_vars=("rho",), SED=False, **H.LIM)
        add(f"{d} p=1 limited walls", ax=d, dims=d, p=(1,), rs="llf", slope_limiter=None, bcs={d: ("reflective", "free")}, **H.LIM)
        add(f"{d} p=1 CFL", ax=d, dims=d, p=(1,), rs="llf", cfl=True)
        for e in "xyz":
            if e != d:
                pass
    for dims in ("xy", "yz", "xz"):
        for d in dims:
            add(f"{dims} p=(1,2) hllc mirror {d}", ax=d, dims=dims, p=(1, 2), rs="llf")
            add(f"{dims} p=(2,1) llf mirror {d} walls", ax=d, dims=dims, p=(2, 1), rs="llf", bcs={dims[0]: ("reflective", "free"), dims[1]: ("outflow", "reflective")})
    add("xy p=(1,0) limited convex mirror x", ax="x", dims="xy", p=(1, 0), rs="llf", SED=False, NAD_vars=("rho",), slope_limiter="moncen", convex=True, **H.LIM)
    add("yz p=(0,1) limited one variable mirror z", ax="z", dims="yz", p=(0, 1), rs="llf", SED=False, NAD_vars=("rho",), slope_limiter="minmod", **H.LIM)
    add("xy p=(0,0) limited mirror y", ax="y", dims="xy", p=(0, 0), rs="llf", slope_limiter=None, **H.LIM)
    add("xy p=(1,1) limited mirror y", ax="y", dims="xy", p=(1, 1), rs="llf", SED=False, NAD_mode="local", slope_limiter="moncen", **H.LIM)
    for d in "xyz":
        add(f"xyz p=(1,0,0) llf mirror {d}", ax=d, dims="xyz", p=(1, 0, 0), rs="llf")
    for dims in ("x", "y", "z", "xy", "yz", "xz", "xyz"):
        for d in dims:
            out.append((f"detector {dims} mirror {d}", detector, dict(dims=dims, ax=d)))
            for cv in (False, True):
                if cv and len(dims) == 3:
                    continue
                for per in ("", dims):
                    out.append((f"broadcast {dims} mirror {d} convex={cv} periodic={per}", broadcast, dict(dims=dims, ax=d, convex=cv, per=per)))
    for l in ("minmod", "moncen", None):
        out.append((f"limiter {l}", limiter, dict(name=l)))
    for dims in ("x", "y", "z", "xy", "xz", "yz", "xyz"):
        for d in dims:
            for md in ("global", "local"):
                for rg in ("relative", "absolute"):
                    for kw in (dict(NAD_vars=("v" + d,), SED=False), dict(NAD_vars=("rho",), SED=False), dict(NAD_vars=("v" + d, "P"), PAD_bounds=("v" + d, "rho"))):
                        if len(dims) == 3 and "PAD_bounds" in kw and md == "local":
                            continue
                        out.append((f"detection {dims} mirror {d} {md} {rg} {kw}", detection, dict(dims=dims, ax=d, opts=dict(kw, mode=md, range_type=rg))))
    if tier == "thorough":
        for d in "xyz":
            add(f"xyz p=(1,2,1) hllc mirror {d}", ax=d, dims="xyz", p=(1, 2, 1), rs="llf")
        add("xy p=(3,3) hllc mirror y", ax="y", dims="xy", p=(3, 3), rs="llf")
    return out
