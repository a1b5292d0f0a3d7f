"""C11: the time step obeys the CFL bound everywhere."""
from fractions import Fraction as Fr

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "CFL time step"
TECHNIQUE = "abstract interpretation to a value graph; the step's reduction is checked for its operand at every cell, its range, its direction and its closed form by value numbering"
EXPLANATION = (
    "Without a fixed step the step size returned by the right-hand side is interpreted for arbitrary states, CFL number, gamma, sound-speed floor, domain and "
    "grid size. On a uniform state it must be the closed formula. On an arbitrary state it must be one maximum (or minimum of the reciprocal) over an array that "
    "contains the signal speed sum of every domain cell (generic cell, edges and corners are checked; extra entries must be ghost cells), and substituting any "
    "cell's entry must give CFL*h/(|vx|+|vy|+|vz|+ndim*c) of that cell's primitive averages. Passive scalars, limiter and Riemann solver must not matter, a fixed step must be returned "
    "as given, and a step taken by each integrator must be that value."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents large compared with the stencils", "equality of value graphs is decided by 96-lane random fingerprints"]
CFL, G, FL = "CFL", "gm1", "floor"


def setup(c, dims, p, rs="llf", nv=5, bcs=None, **opts):
    it = c.interp()
    H.assume_any(it, True)
    kw = dict(opts)
    hs = []
    for d in "xyz":
        lo, ln = N.leaf("lo" + d), N.leaf("len" + d, 1)
        kw[d] = (lo, N.add(lo, ln))
        hs.append(N.div(ln, A.to_node(sym("n" + d))) if d in dims else ln)
    if bcs:
        B = c.get("boundary_conditions", "BoundaryCondition")
        kw["bc"] = c.call(B, **bcs)
    g = N.add(N.ONE, N.leaf(G, 1))
    s = H.solver(c, dims, dict(zip(dims, p)), riemann_solver=rs, ic="leaf", passives=tuple(f"s{j}" for j in range(nv - 5)), fixed="fixed_dt" in opts,
                 CFL=N.leaf(CFL, 1), gamma=g, csq_floor=N.leaf(FL, 1), **kw)
    return s, g, N.nary("min", hs)


def signal(w, g, nd):
    v = N.add(N.add(N.absolute(w[1]), N.absolute(w[2])), N.absolute(w[3]))
    return N.add(v, N.mul(N.const(nd), S.sound(w, g, N.leaf(FL, 1))))


def formula(w, g, h, nd):
    return N.div(N.mul(N.leaf(CFL, 1), h), signal(w, g, nd))


def uniform(c, dims, p, rs="llf", nv=5, **opts):
    s, g, h = setup(c, dims, p, rs, nv, **opts)
    w = [N.leaf(("W", v), 1 if v in (0, 4) else None) for v in range(nv)]
    u = S.cons(w, g)
    dt, _ = H.rhs(c, s, A.from_fn((nv,) + H.sizes(dims), lambda i: u[i[0]], "f"))
    c.same(dt, formula(w, g, h, len(dims)), "closed-form", f"step size of a uniform state, {dims}, p={p}, {rs}, {opts}", key="closed-form")


def field(c, dims, p, rs="llf", nv=5, bcs=None, **opts):
    s, g, h = setup(c, dims, p, rs, nv, bcs, **opts)
    n = H.sizes(dims)
    lf = H.uleaf()
    A.red_log.clear()
    dt, _ = H.rhs(c, s, A.from_fn((nv,) + n, lf, "f"))
    dt = A.to_node(dt)
    reds = {}
    for r in N.find_ops(dt, lambda y: y.op == "red"):
        reds[r.id] = r
    if not c.ok(len(reds) == 1, "one-maximum", f"step size is one extremum over cells: {N.pretty(dt, 4)[:300]}", dt.site, "one-maximum"):
        return
    (rid, r), = reds.items()
    logs = A.red_log.get(rid) or A.red_log.get(N.neg(r).id) or []
    c.ok(bool(logs), "one-maximum", "operand of the extremum is known", dt.site, "one-maximum")
    ub = S.ghosted(lf, dims, n, bcs or {d: ("periodic", "periodic") for d in dims}, nvars=nv)
    p3 = [dict(zip(dims, p)).get(d, 0) for d in "xyz"]
    uc = S.centers(ub, p3)
    wc = S.Fld(lambda v, *i: S.prim([uc(k, *i) for k in range(5)], g)[v])
    wa = S.averages(wc, p3)
    R = N.leaf("R", 1)

    # reductions are stored sign-normalised: max x = -min(-x)
    flip = bool(logs) and r.args[0][0] != logs[0][0]

    def put(x):
        return subst(dt, rid, N.neg(x) if flip else x)

    dR = put(R)
    falling = N.mul(dR, R)
    rising = N.div(dR, R)
    for kind, shp, symb, base, body, rd in logs[:1]:
        if kind == "max":
            okdir = not _has(falling, R)
        elif kind == "min":
            okdir = not _has(rising, R)
        else:
            okdir = False
        c.ok(okdir, "extremum", f"step size is decided by the fastest cell ({kind} of the operand)", dt.site, "extremum")
        c.ok(len(shp) >= 3 and len(symb) == len(dims), "range", f"the extremum runs over all cells, got shape {shp}", dt.site, "range")
        off = []
        good = True
        for a in range(3):
            ext = shp[len(shp) - 3 + a] - n[a]
            ext = ext.c if hasattr(ext, "c") and not ext.s else ext
            if not isinstance(ext, int) or ext < 0 or ext % 2:
                good = False
                ext = 0
            off.append(ext // 2)
        c.ok(good, "range", f"the extremum runs over all {n} cells (and ghost cells alike on both sides), got {shp}", dt.site, "range")
        pts = list(H.cells(dims, 1))
        for a, d in enumerate("xyz"):
            if off[a]:
                for e in (-1, -off[a], n[a], n[a] + off[a] - 1):
                    i = list(H.gidx(dims))
                    i[a] = e
                    pts.append(tuple(i))
        for cell in pts:
            w = [wa(v, *cell) for v in range(5)]
            j = list(base)
            for a in range(3):
                j[len(shp) - 3 + a] = cell[a] + off[a]
            x = A.to_node(rd(tuple(j)))
            c.same(put(x), formula(w, g, h, len(dims)), "every-cell", f"step size if cell {cell} is the fastest, {dims} p={p} {bcs or 'periodic'}", key="every-cell")


def subst(dt, rid, x):
    """the step size with its extremum replaced"""
    return N.rebuild(dt, lambda lf: None, {rid: x})


def _has(n, leaf):
    o = N.leaf("Rother", 1)
    return N.rebuild(n, lambda lf: o if lf is leaf else None) is not n


def fixed(c, dims, p, lim):
    s, g, h = setup(c, dims, p, fixed_dt=N.leaf("given", 1), **(dict(H.LIM, SED=False) if lim else {}))
    dt, _ = H.rhs(c, s, A.from_fn((5,) + H.sizes(dims), H.uleaf(), "f"))
    c.same(dt, N.leaf("given", 1), "fixed-step", f"fixed step {dims} p={p} limited={lim}", key="fixed-step")


def stepped(c, p, fix):
    """the step actually taken is the step of the state it starts from"""
    s, g, h = setup(c, "x", (p,), "llf", **(dict(fixed_dt=N.leaf("given", 1)) if fix else {}))
    w = [N.leaf(("W", v), 1 if v in (0, 4) else None) for v in range(5)]
    u = S.cons(w, g)
    U = c.call(c.attr(s, "am"), "u")
    U.setitem((slice(None),) * 4, A.from_fn((5,) + H.sizes("x"), lambda i: u[i[0]], "f"))
    c.method(s, "run", n=1)
    want = N.leaf("given", 1) if fix else formula(w, g, h, 1)
    c.same(c.attr(s, "t"), want, "step-taken", f"time after one step, p={p}, fixed={fix}", key="step-taken")


def advection(c, given):
    """step size for advection at given speeds (missing ones are zero, default CFL number 0.8)"""
    c.interp()
    h, CFL = N.leaf("h", 1), N.leaf("CFL", 1)
    v = {"v" + d: N.leaf(("v", d), 1) for d in given}
    s = N.ZERO
    for q in v.values():
        s = N.add(s, q)
    f = c.get("hydro", "advection_dt")
    c.same(c.call(f, h, CFL=CFL, **v), N.div(N.mul(CFL, h), s), "advection", f"advection step size with speeds along {given}", key="advection")
    c.same(c.call(f, h=h, **v), N.div(N.mul(N.const(Fr(4, 5)), h), s), "advection", f"advection step size with speeds along {given}, default CFL number", key="advection")


def cases(tier):
    out = [(f"advection {d}", advection, dict(given=d)) for d in ("x", "y", "z", "xy", "xz", "yz", "xyz")]

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    for dims in ("x", "y", "z", "xy", "yz", "xz", "xyz"):
        k = len(dims)
        for p in ((0,) * k, (1,) + (0,) * (k - 1), (0,) * (k - 1) + (2,)):
            if (f"uniform {dims} p={p}") not in [o[0] for o in out]:
                add(f"uniform {dims} p={p}", uniform, dims=dims, p=p)
        add(f"field {dims} p=0", field, dims=dims, p=(0,) * k)
        if k < 3:
            add(f"field {dims} p=1", field, dims=dims, p=(1,) * k)
        add(f"fixed {dims}", fixed, dims=dims, p=(0,) * k, lim=False)
    for rs in ("hllc", "advection_upwind"):
        for d in "xyz":
            add(f"uniform {d} p=3 {rs}", uniform, dims=d, p=(3,), rs=rs, nv=7)
        add(f"field x p=3 {rs}", field, dims="x", p=(3,), rs=rs, nv=6)
    for b in (("free", "reflective"), ("reflective", "outflow"), ("outflow", "free")):
        add(f"field x p=2 {b}", field, dims="x", p=(2,), bcs={"x": b})
        add(f"field y p=0 {b}", field, dims="y", p=(0,), bcs={"y": b})
    for kw in (dict(), dict(convex=True), dict(SED=False, slope_limiter="moncen")):
        add(f"uniform x p=2 limited {kw}", uniform, dims="x", p=(2,), **H.LIM, **kw)
        add(f"field x p=2 limited {kw}", field, dims="x", p=(2,), **H.LIM, **kw)
        add(f"field z p=3 limited {kw}", field, dims="z", p=(3,), **H.LIM, **kw)
    add("fixed x limited", fixed, dims="x", p=(2,), lim=True)
    for p in range(0, 5):
        for fx in (False, True):
            add(f"stepped p={p} fixed={fx}", stepped, p=p, fix=fx)
    if tier == "thorough":
        add("field xyz p=1", field, dims="xyz", p=(1, 1, 1))
        add("field xy p=(3,2)", field, dims="xy", p=(3, 2))
    return out
