"""C25: shift equivariance on periodic grids, independence of where the domain lies."""
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import nodes as N
from fvsa.aff import Aff
from fvsa.libmods import border

TITLE = "the same formula in every cell"
TECHNIQUE = "relational abstract interpretation: an arbitrary state and the same state moved by one cell (wrapping round the seam) must give the same value graphs, one cell apart (global value numbering)"
EXPLANATION = (
    "f(t, u) is interpreted twice on an arbitrarily large periodic grid: for an arbitrary state u and for u moved cyclically by s cells along one axis. Rates of change, time step, primitive snapshot and troubled-cell "
    "diagnostics of the second run at cell i must be the nodes of the first run at cell i+s (wrapped), for the generic cell, every cell within the stencil's reach of the seam, and corners. A shift by one cell along each axis "
    "generates all shifts. Further, moving the domain bounds by an arbitrary amount with the same extent must leave all these nodes unchanged."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents large compared with the stencils", "equality of value graphs is decided by 96-lane random fingerprints"]

DIAG = ("trouble", "NAD violation magnitude", "PAD violation magnitude")


def one(c, dims, p, rs, nv, cfl, move, offs, opts, bcs=None):
    it = c.interp()
    H.assume_any(it, True)
    n = H.sizes(dims)
    kw = dict(opts)
    if bcs:
        B = c.get("boundary_conditions", "BoundaryCondition")
        kw["bc"] = c.call(B, **bcs)
    for a, d in enumerate("xyz"):
        ln = N.leaf("len" + d, 1)
        lo = N.leaf("lo" + d) if offs else N.const(0)
        kw[d] = (lo, N.add(lo, ln))
    s = H.solver(c, dims, dict(zip(dims, p)), ic="leaf", fixed=not cfl, riemann_solver=rs, passives=tuple(f"s{k}" for k in range(nv - 5)), **kw)
    lf = H.uleaf()

    def to(cell):
        return tuple(border(j + m, n[a], "wrap") if m else j for a, (j, m) in enumerate(zip(cell, move)))

    U = A.from_fn((nv,) + n, lambda i: lf((i[0],) + to(i[1:])), "f")
    c.call(c.attr(s, "am"), "u").setitem((slice(None),) * 4, U)
    A.red_log.clear()
    dt, du = H.rhs(c, s, U)
    c.method(s, "snapshot")
    snap = c.attr(s, "snapshots")[-1]
    return dict(to=to, dt=A.to_node(dt), du=du, w=snap["w"], snap=snap)


def global_extent(c, dims, res, what):
    """a reduction the results depend on must have one operand per cell along every axis"""
    n = H.sizes(dims)
    roots = [res["dt"]] + [A.to_node(res["du"].elem((v,) + H.gidx(dims))) for v in (0, 4)]
    seen = set()
    for root in roots:
        for r in N.find_ops(root, lambda y: y.op == "red"):
            if r.id in seen:
                continue
            seen.add(r.id)
            logs = A.red_log.get(r.id, [])
            for a, d in enumerate("xyz"):
                if d not in dims:
                    continue
                sizes = {shp[k] - n[a] for kind, shp, symb, *_ in logs for k in symb if not isinstance(shp[k] - n[a], Aff)}
                if not sizes or sum(1 for q in sizes if q < 0) > 1:
                    continue
                c.ok(max(sizes) >= 0, "shift-extent", f"{what}: global {r.args[0][0]} runs over {-max(sizes)} cells fewer than the grid has along {d}", r.site, "shift-extent")


def cells_near(dims, k):
    if len(dims) == 1:
        return H.cells(dims, k)
    return H.cells(dims, k, corners=False) + H.cells(dims, 1, generic=False)[2 * len(dims):]


def shift(c, dims, p, rs="llf", nv=5, cfl=False, axis=None, by=1, k=None, bcs=None, **opts):
    axis = axis or dims[0]
    move = tuple(by if d == axis else 0 for d in "xyz")
    a = one(c, dims, p, rs, nv, cfl, (0, 0, 0), False, opts, bcs)
    what = f"{dims} p={p} {rs} {bcs or 'periodic'} {opts} moved {by} along {axis}"
    global_extent(c, dims, a, what)
    b = one(c, dims, p, rs, nv, cfl, move, False, opts, bcs)
    c.same(b["dt"], a["dt"], "shift-dt", f"time step, {what}", key="shift-dt")
    k = k or (3 + max(p) if len(dims) == 1 else 2)
    for cell in cells_near(dims, k):
        src = b["to"](cell)
        for v in range(nv):
            c.same(b["du"].elem((v,) + cell), a["du"].elem((v,) + src), "shift-rhs", f"du/dt[{v}] at {cell}, {what}", key="shift-rhs")
            c.same(b["w"].elem((v,) + cell), a["w"].elem((v,) + src), "shift-snapshot", f"snapshot[{v}] at {cell}, {what}", key="shift-snapshot")
        for name in DIAG:
            if name in a["snap"]:
                c.same(b["snap"][name].elem(cell), a["snap"][name].elem(src), "shift-trouble", f"{name} at {cell}, {what}", key="shift-trouble")


def offset(c, dims, p, rs="llf", nv=5, cfl=False, bcs=None, **opts):
    a = one(c, dims, p, rs, nv, cfl, (0, 0, 0), False, opts, bcs)
    b = one(c, dims, p, rs, nv, cfl, (0, 0, 0), True, opts, bcs)
    what = f"{dims} p={p} {rs} {bcs or 'periodic'}, domain moved"
    c.same(b["dt"], a["dt"], "offset-dt", f"time step, {what}", key="offset-dt")
    for cell in H.cells(dims, 1):
        for v in range(nv):
            c.same(b["du"].elem((v,) + cell), a["du"].elem((v,) + cell), "offset-rhs", f"du/dt[{v}] at {cell}, {what}", key="offset-rhs")
            c.same(b["w"].elem((v,) + cell), a["w"].elem((v,) + cell), "offset-snapshot", f"snapshot[{v}] at {cell}, {what}", key="offset-snapshot")
        for name in DIAG:
            if name in a["snap"]:
                c.same(b["snap"][name].elem(cell), a["snap"][name].elem(cell), "offset-trouble", f"{name} at {cell}, {what}", key="offset-trouble")


LIMS = (
    dict(),
    dict(convex=True),
    dict(slope_limiter="moncen", NAD_mode="local"),
    dict(slope_limiter="moncen", convex=True, SED=False),
    dict(NAD_range="absolute", SED=False),
    dict(slope_limiter=None, PAD={"rho": (0, 1), "P": (0, 1)}),
    dict(NAD_vars=("rho", "P"), SED=False, slope_limiter="moncen"),
    dict(NAD_vars=("rho",), SED=False),  # one criterion decides: flagged and unflagged cells are about equally frequent
    dict(force_trouble=True),
    dict(force_trouble=True, convex=True),
    dict(SED=False, density_floor=N.leaf("fl", 1), pressure_floor=N.leaf("fp", 1)),
)


def cases(tier):
    out = []

    def add(fn, name, **kw):
        out.append((name, fn, kw))

    for d in "xyz":
        for rs in ("llf", "hllc", "advection_upwind"):
            add(shift, f"shift {d} p=3 {rs}", dims=d, p=(3,), rs=rs, nv=6)
        for p in (0, 1, 2, 5):
            add(shift, f"shift {d} p={p}", dims=d, p=(p,))
        add(shift, f"shift {d} p=2 by -2", dims=d, p=(2,), by=-2)
        for kw in LIMS if d == "x" else LIMS[:3]:
            add(shift, f"shift {d} p=2 limited {kw}", dims=d, p=(2,), nv=6, k=6, **H.LIM, **kw)
        add(shift, f"shift {d} p=4 CFL", dims=d, p=(4,), cfl=True)
        add(shift, f"shift {d} p=1 limited CFL", dims=d, p=(1,), cfl=True, k=6, **H.LIM)
        add(offset, f"offset {d} p=2", dims=d, p=(2,), rs="hllc", nv=6, cfl=True)
        add(offset, f"offset {d} p=1 walls", dims=d, p=(1,), bcs={d: ("reflective", "free")})
        add(offset, f"offset {d} p=1 limited", dims=d, p=(1,), bcs={d: ("outflow", "reflective")}, **H.LIM)
    for dims in ("xy", "yz", "xz"):
        for ax in dims:
            add(shift, f"shift {dims}/{ax} p=(2,1) hllc", dims=dims, p=(2, 1), rs="hllc", axis=ax)
            add(shift, f"shift {dims}/{ax} p=(1,3) point snapshots", dims=dims, p=(1, 3), axis=ax, snapshots_as_fv_averages=False)
            add(shift, f"shift {dims}/{ax} p=(1,1) limited", dims=dims, p=(1, 1), axis=ax, SED=False, slope_limiter="moncen", NAD_mode="local", k=1, **H.LIM)
            # degree 1 along the moved axis: there the fallback differs; one criterion decides, so that flagged and unflagged cells are about equally frequent
            other = dims.replace(ax, "")
            p1 = tuple(int(d == ax) for d in dims)
            one_var = dict(NAD_vars=("rho",), SED=False, slope_limiter="moncen", **H.LIM)
            add(shift, f"shift {dims}/{ax} p={p1} limited convex", dims=dims, p=p1, axis=ax, convex=True, k=1, **one_var)
            add(shift, f"shift {dims}/{ax} p={p1} limited one variable", dims=dims, p=p1, axis=ax, **one_var)
            for b in ("free", ("reflective", "outflow")):
                add(shift, f"shift {dims}/{ax} p=(2,1) hllc {other} {b}", dims=dims, p=(2, 1), rs="hllc", axis=ax, bcs={other: b}, k=1)
                if b == "free" or tier == "thorough":
                    add(shift, f"shift {dims}/{ax} p={p1} limited {other} {b}", dims=dims, p=p1, axis=ax, bcs={other: b}, k=1, **one_var)
                    add(shift, f"shift {dims}/{ax} p={p1} limited convex {other} {b}", dims=dims, p=p1, axis=ax, bcs={other: b}, convex=True, k=1, **one_var)
        add(shift, f"shift {dims} p=(0,1) CFL", dims=dims, p=(0, 1), cfl=True)
        add(offset, f"offset {dims} p=(1,2)", dims=dims, p=(1, 2), cfl=True)
    for ax in "xyz":
        add(shift, f"shift xyz/{ax} p=(0,0,0) hllc", dims="xyz", p=(0, 0, 0), rs="hllc", axis=ax, k=1)
        add(shift, f"shift xyz/{ax} p=(1,0,1) llf", dims="xyz", p=(1, 0, 1), axis=ax, k=1)
    add(offset, "offset xyz p=(1,0,0)", dims="xyz", p=(1, 0, 0), cfl=True)
    if tier == "thorough":
        for ax in "xyz":
            add(shift, f"shift xyz/{ax} p=(1,2,1) llf", dims="xyz", p=(1, 2, 1), axis=ax, k=1)
            p1 = tuple(int(d == ax) for d in "xyz")
            add(shift, f"shift xyz/{ax} p={p1} limited", dims="xyz", p=p1, axis=ax, k=1, SED=False, NAD_vars=("rho",), slope_limiter="moncen", **H.LIM)
        for d in "xyz":
            add(shift, f"shift {d} p=8", dims=d, p=(8,))
            add(shift, f"shift {d} p=5 limited", dims=d, p=(5,), k=9, **H.LIM)
    return out
