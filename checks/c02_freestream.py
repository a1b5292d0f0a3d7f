"""C02: a uniform flow is an exact steady state."""
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "uniform flow is preserved"
TECHNIQUE = "abstract interpretation to a value graph with spatially constant state leaves; every du/dt entry must value-number to 0 and every flag to false"
EXPLANATION = (
    "The solver is abstractly interpreted on a symbolic-size grid whose cells all hold the same (arbitrary) state. For periodic, free, outflow, "
    "reflective (zero normal momentum), constant-dirichlet, function-dirichlet and initial-condition boundaries, du/dt must be the zero node at the "
    "generic cell and all boundary/corner cells, no cell may be flagged as troubled, one step of every integrator must return the same state, and "
    "the snapshot must show exactly the primitive state."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents large compared with the stencils", "equality of value graphs is decided by 96-lane random fingerprints"]


def ustate(dims, nv, zero=()):
    g = N.leaf("gm1", 1)
    w = [N.leaf("rho", 1)] + [N.ZERO if d in zero else N.leaf("v" + d) for d in "xyz"] + [N.leaf("P", 1)]
    w += [N.leaf(("X", k)) for k in range(nv - 5)]
    u = S.cons(w, N.add(N.ONE, g))
    return w, u, N.add(N.ONE, g)


def uniform(c, dims, p, rs, bc="periodic", nv=5, integ=None, fixed=True, anyv=None, **opts):
    it = c.interp()
    if anyv is not None:
        H.assume_any(it, anyv)
    zero = tuple(dims) if bc == "reflective" else ()
    w, u, g = ustate(dims, nv, zero)
    n = H.sizes(dims)
    ps = dict(zip(dims, p))
    names = tuple(f"s{k}" for k in range(nv - 5))
    kw = dict(opts)
    if bc != "periodic":
        B = c.get("boundary_conditions", "BoundaryCondition")
        d = {}
        kind = {"dirichlet-f": "dirichlet"}.get(bc, bc)
        for a in dims:
            d[a] = kind
            if bc == "dirichlet":
                d[a + "_value"] = A.from_fn((nv,), lambda i: u[i[0]], "f")
            elif bc == "dirichlet-f":
                d[a + "_value"] = I.Native("bcf", lambda x, y, z, t=None: A.from_fn((nv,) + tuple(x.shape), lambda i: u[i[0]], "f"))
        kw["bc"] = c.call(B, **d)
    ic = H.mk_ic(c, fn=lambda v, *xyz: w[v])
    if nv > 5:
        kw["w0_passives"] = {
            q: I.Native("pic", (lambda k: lambda x, y, z: A.from_fn(tuple(x.shape), lambda i: w[k], "f"))(5 + k)) for k, q in enumerate(names)
        }
    s = H.solver(c, dims, ps, riemann_solver=rs, gamma=g, ic=ic, fixed=fixed, **kw)
    U0 = c.attr(s, "am").attrs["arrays"]["u"] if False else c.call(c.attr(s, "am"), "u")
    pts = H.cells(dims, 1)
    for cell in pts:
        for v in range(nv):
            c.same(U0.elem((v,) + cell), u[v], "initial-average", f"initial cell average of variable {v} of a uniform flow at {cell}", key="initial")
    if integ is None:
        U = A.from_fn((nv,) + n, lambda i: u[i[0]], "f")
        _, du = H.rhs(c, s, U)
        for cell in pts:
            for v in range(nv):
                c.same(du.elem((v,) + cell), N.ZERO, "steady", f"du/dt[{v}] of a uniform flow at {cell} with {bc} boundaries", key="steady")
        if opts.get("a_posteriori_slope_limiting") and not opts.get("force_trouble"):
            T = c.call(c.attr(s, "am"), "mean trouble")
            for cell in pts:
                c.same(T.elem(tuple(cell)[-len(T.shape):] if len(T.shape) == 3 else (0,) + cell), N.ZERO, "no-trouble", f"trouble flag in a uniform flow at {cell}", key="no-trouble")
    else:
        if integ == "run":
            c.method(s, "run", n=1)
        else:
            c.method(s, integ, n=1)
        U1 = c.call(c.attr(s, "am"), "u")
        for cell in pts:
            for v in range(nv):
                c.same(U1.elem((v,) + cell), u[v], "step", f"variable {v} after one {integ} step at {cell}", key="step")
        snap = c.attr(s, "snapshots")[-1]
        W = snap["w"]
        for cell in pts:
            for v in range(nv):
                c.same(W.elem((v,) + cell), w[v], "snapshot", f"snapshot variable {v} at {cell}", key="snapshot")


def cases(tier):
    out = []

    def add(name, **kw):
        out.append((name, uniform, kw))

    bcs = ("free", "outflow", "reflective", "dirichlet", "dirichlet-f", "ic")
    for rs in ("hllc", "llf", "advection_upwind"):
        for p in (0, 1, 2, 3, 5):
            add(f"x p={p} {rs}", dims="x", p=(p,), rs=rs)
        for bc in bcs:
            if bc == "reflective" and rs == "advection_upwind":
                pass
            add(f"x p=3 {rs} {bc}", dims="x", p=(3,), rs=rs, bc=bc, nv=6)
    for p in (4, 6, 7, 8):
        add(f"x p={p} hllc free", dims="x", p=(p,), rs="hllc", bc="free")
    for bc in bcs:
        add(f"y p=2 hllc {bc}", dims="y", p=(2,), rs="hllc", bc=bc)
        add(f"z p=1 llf {bc}", dims="z", p=(1,), rs="llf", bc=bc)
        add(f"xy p=(2,3) hllc {bc}", dims="xy", p=(2, 3), rs="hllc", bc=bc)
        add(f"xz p=(1,2) llf {bc}", dims="xz", p=(1, 2), rs="llf", bc=bc)
        add(f"yz p=(3,1) hllc {bc}", dims="yz", p=(3, 1), rs="hllc", bc=bc, nv=6)
        add(f"xyz p=(1,1,1) llf {bc}", dims="xyz", p=(1, 1, 1), rs="llf", bc=bc)
    add("xyz p=(2,1,0) hllc periodic", dims="xyz", p=(2, 1, 0), rs="hllc")
    for sl in ("minmod", "moncen", None):
        for bc in ("periodic", "free", "outflow", "reflective", "dirichlet"):
            add(f"x p=3 limited {sl} {bc}", dims="x", p=(3,), rs="hllc", bc=bc, slope_limiter=sl, nv=6, **H.LIM)
    for md in ("global", "local"):
        for rg in ("relative", "absolute"):
            for cv in (False, True):
                add(f"xy p=(2,2) limited {md} {rg} convex={cv}", dims="xy", p=(2, 2), rs="llf", bc="free", NAD_mode=md, NAD_range=rg, convex=cv, **H.LIM)
            for d in "xyz":
                add(f"{d} p=2 limited {md} {rg} without SED", dims=d, p=(2,), rs="llf", bc="periodic", NAD_mode=md, NAD_range=rg, SED=False, **H.LIM)
    for bc in ("periodic", "outflow", "dirichlet-f"):
        add(f"x p=2 forced {bc}", dims="x", p=(2,), rs="hllc", bc=bc, force_trouble=True, **H.LIM)
        add(f"yz p=(1,2) forced {bc}", dims="yz", p=(1, 2), rs="llf", bc=bc, force_trouble=True, slope_limiter="moncen", **H.LIM)
    for integ in ("euler", "ssprk2", "ssprk3", "rk4", "run"):
        add(f"x p=3 {integ} step", dims="x", p=(3,), rs="hllc", bc="free", nv=6, integ=integ)
    for integ in ("euler", "run"):
        add(f"xy p=(1,1) {integ} step centres", dims="xy", p=(1, 1), rs="llf", integ=integ, snapshots_as_fv_averages=False)
    add("x p=3 CFL step", dims="x", p=(3,), rs="hllc", fixed=False, integ="run")
    add("x p=3 limited step", dims="x", p=(3,), rs="hllc", bc="outflow", integ="run", nv=6, **H.LIM)
    if tier == "thorough":
        for bc in bcs:
            add(f"xyz p=(3,3,3) hllc {bc}", dims="xyz", p=(3, 3, 3), rs="hllc", bc=bc, nv=6)
        add("xyz p=(2,2,2) limited", dims="xyz", p=(2, 2, 2), rs="llf", bc="free", **H.LIM)
    return out
