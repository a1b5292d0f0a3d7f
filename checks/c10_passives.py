"""C10: passive scalars are carried along and never feed back."""
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S

TITLE = "passive scalars"
TECHNIQUE = "relational abstract interpretation (non-interference): runs that differ in passive scalars only must produce identical value graphs for everything else; proportionality and initialisation identities by value numbering"
EXPLANATION = (
    "The right-hand side, time step, troubled-cell flags and snapshots are interpreted twice on arbitrary states that differ only in one scalar: all rows "
    "except that scalar's must be identical nodes. With no scalars at all the hydrodynamic rows must be the same nodes again. A scalar set to an "
    "arbitrary constant must satisfy d(rho X)/dt = X d(rho)/dt in every cell. A scalar initialised with the initial density, velocity or a constant "
    "must start as the corresponding conserved row, whatever the number and order of scalars, and its row must be the one its name selects."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents large compared with the stencils", "equality of value graphs is decided by 96-lane random fingerprints"]


def run1(c, dims, p, rs, bcs, names, ufn, cfl, opts):
    it = c.interp()
    H.assume_any(it, True)
    kw = dict(opts)
    if bcs:
        B = c.get("boundary_conditions", "BoundaryCondition")
        kw["bc"] = c.call(B, **bcs)
    s = H.solver(c, dims, dict(zip(dims, p)), riemann_solver=rs, ic="leaf", passives=names, fixed=not cfl, **kw)
    nv = 5 + len(names)
    U = A.from_fn((nv,) + H.sizes(dims), ufn, "f")
    dt, du = H.rhs(c, s, U)
    am = c.attr(s, "am")
    T = [c.call(am, q) for q in ("mean trouble", "mean NAD mag", "mean PAD mag")] if opts.get("a_posteriori_slope_limiting") else []
    c.call(am, "u").setitem((slice(None),) * 4, U)
    c.method(s, "snapshot")
    return dt, du, c.attr(s, "snapshots")[-1]["w"], T


def feedback(c, dims, p, rs, bcs=None, cfl=False, **opts):
    lf = H.uleaf()
    names = ("s0", "s1", "s2")

    def changed(k):
        def f(idx):
            if idx[0] == 5 + k:
                return N.leaf(("other",) + tuple(idx))
            return lf(idx)

        return f

    base = run1(c, dims, p, rs, bcs, names, lf, cfl, opts)
    runs = [(changed(k), names, k, f"scalar {k} changed") for k in range(3)] + [(lf, (), None, "no scalars"), (lf, ("q",), 0, "one scalar")]
    cells = H.cells(dims, 1)
    for ufn, nm, k, what in runs:
        o = run1(c, dims, p, rs, bcs, nm, ufn, cfl, opts)
        c.same(o[0], base[0], "no-feedback-dt", f"time step, {what}", key="no-feedback-dt")
        for cell in cells:
            for q, (x, y) in enumerate(zip(o[3], base[3])):
                c.same(x.elem(cell), y.elem(cell), "no-feedback-trouble", f"troubled-cell diagnostics {q} at {cell}, {what}", key="no-feedback-trouble")
            for v in range(5 + len(nm)):
                if v >= 5 and (v == 5 + (k or 0) and len(nm) == 3):
                    continue
                i = (v,) + cell
                c.same(o[1].elem(i), base[1].elem(i), "no-feedback", f"du/dt[{v}] at {cell}, {what}", key="no-feedback")
                c.same(o[2].elem(i), base[2].elem(i), "no-feedback", f"snapshot[{v}] at {cell}, {what}", key="no-feedback")


def uniform(c, dims, p, rs, bcs=None, **opts):
    lf = H.uleaf()
    X = [N.leaf("X0"), N.leaf("X1")]

    def ufn(idx):
        if idx[0] >= 5:
            return N.mul(X[idx[0] - 5], lf((0,) + tuple(idx[1:])))
        return lf(idx)

    dt, du, w, T = run1(c, dims, p, rs, bcs, ("s0", "s1"), ufn, False, opts)
    for cell in H.cells(dims, 1):
        for k in range(2):
            c.same(du.elem((5 + k,) + cell), N.mul(X[k], du.elem((0,) + cell)), "uniform-stays-uniform",
                   f"d(rho X)/dt = X d(rho)/dt for a uniform scalar {k} at {cell} ({rs}, p={p}, {bcs or 'periodic'}, {opts})", key="uniform-stays-uniform")
            c.same(w.elem((5 + k,) + cell), X[k], "uniform-snapshot", f"snapshot of a uniform scalar {k} at {cell}", key="uniform-snapshot")


def same_scalar(c, dims, p, rs, **opts):
    """two scalars with equal values evolve equally, whatever their position"""
    lf = H.uleaf()

    def ufn(idx):
        return lf((5,) + tuple(idx[1:])) if idx[0] >= 5 else lf(idx)

    dt, du, w, T = run1(c, dims, p, rs, None, ("s0", "s1", "s2"), ufn, False, opts)
    for cell in H.cells(dims, 1):
        for k in (1, 2):
            c.same(du.elem((5 + k,) + cell), du.elem((5,) + cell), "equal-scalars", f"du/dt of equal scalars 0 and {k} at {cell}", key="equal-scalars")
            c.same(w.elem((5 + k,) + cell), w.elem((5,) + cell), "equal-scalars", f"snapshot of equal scalars 0 and {k} at {cell}", key="equal-scalars")


def initial(c, dims, p, order):
    c.interp()
    C = N.leaf("C")
    src = {"rho": 0, "mx": 1, "my": 2, "mz": 3}

    def pic(name):
        def f(x, y, z):
            def el(idx):
                xyz = [q.elem(tuple(idx)) for q in (x, y, z)]
                if name == "const":
                    return C
                if name == "one":
                    return N.ONE
                return N.uf(("ic", src[name]), *xyz, pos=1 if src[name] == 0 else None)

            return A.from_fn(tuple(x.shape), el, "f")

        return I.Native("pic_" + name, f)

    s = H.solver(c, dims, dict(zip(dims, p)), ic="leaf", w0_passives={k: pic(k) for k in order})
    U = c.call(c.attr(s, "am"), "u")
    hs = c.attr(s, "hydro_state")
    for cell in H.cells(dims, 1):
        for k, name in enumerate(order):
            V = U.getitem(c.call(hs, name))
            c.same(V.elem(tuple(cell)) if V.ndim == 3 else V.elem((0,) + cell), U.elem((5 + k,) + cell), "row-of-name", f"row selected by scalar {name!r} of {order}", key="row-of-name")
            got = U.elem((5 + k,) + cell)
            if name == "const":
                want = N.mul(C, U.elem((0,) + cell))
            elif name == "one":
                want = U.elem((0,) + cell)
            elif name == "rho":
                continue
            else:
                want = U.elem((src[name],) + cell)
            c.same(got, want, "initial-scalar", f"initial density-weighted scalar {name!r} of {order} at {cell}", key="initial-scalar")


def cases(tier):
    out = []
    L = H.LIM

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    for rs in ("hllc", "llf", "advection_upwind"):
        for p in (0, 1, 3):
            add(f"feedback x p={p} {rs}", feedback, dims="x", p=(p,), rs=rs)
            add(f"uniform x p={p} {rs}", uniform, dims="x", p=(p,), rs=rs)
        for d in "yz":
            add(f"feedback {d} p=2 {rs}", feedback, dims=d, p=(2,), rs=rs)
            add(f"uniform {d} p=2 {rs}", uniform, dims=d, p=(2,), rs=rs)
        add(f"equal x p=2 {rs}", same_scalar, dims="x", p=(2,), rs=rs)
        add(f"equal yz p=(1,2) {rs}", same_scalar, dims="yz", p=(1, 2), rs=rs)
    for b in (("free", "reflective"), ("outflow", "free"), ("reflective", "outflow")):
        for d in "xyz":
            add(f"uniform {d} p=2 {b}", uniform, dims=d, p=(2,), rs="llf", bcs={d: b})
        add(f"feedback x p=1 {b}", feedback, dims="x", p=(1,), rs="llf", bcs={"x": b})
    for d in "xyz":
        add(f"feedback {d} p=1 CFL", feedback, dims=d, p=(1,), rs="llf", cfl=True)
        for kw in (dict(), dict(convex=True), dict(NAD_mode="local", slope_limiter="moncen"), dict(NAD_range="absolute", SED=False), dict(slope_limiter=None, SED=False),
                   dict(NAD_vars=("rho",), SED=False)):
            if d != "x" and len(kw) == 0:
                continue
            add(f"feedback {d} p=2 limited {kw}", feedback, dims=d, p=(2,), rs="llf", **L, **kw)
            add(f"uniform {d} p=2 limited {kw}", uniform, dims=d, p=(2,), rs="llf", **L, **kw)
    add("equal x p=1 limited", same_scalar, dims="x", p=(1,), rs="llf", **L)
    add("feedback xy p=(1,2) llf", feedback, dims="xy", p=(1, 2), rs="llf")
    add("uniform xy p=(1,2) hllc", uniform, dims="xy", p=(1, 2), rs="hllc")
    add("uniform yz p=(2,1) llf", uniform, dims="yz", p=(2, 1), rs="llf")
    add("uniform xz p=(1,1) llf", uniform, dims="xz", p=(1, 1), rs="llf")
    add("uniform xyz p=(1,0,0) llf", uniform, dims="xyz", p=(1, 0, 0), rs="llf")
    add("feedback xyz p=(0,0,0) llf CFL", feedback, dims="xyz", p=(0, 0, 0), rs="llf", cfl=True)
    add("uniform xy p=(1,1) limited", uniform, dims="xy", p=(1, 1), rs="llf", SED=False, NAD_mode="local", **L)
    add("feedback xy p=(0,0) limited SED", feedback, dims="xy", p=(0, 0), rs="llf", slope_limiter=None, **L)
    for order in (("const",), ("mx", "const"), ("const", "mx", "my"), ("mz", "my", "mx", "one", "const"), ("one", "mz")):
        for dims, p in (("x", (0,)), ("x", (3,)), ("y", (2,)), ("z", (1,)), ("xy", (1, 3)), ("xyz", (1, 0, 2))):
            add(f"initial {dims} p={p} {'-'.join(order)}", initial, dims=dims, p=p, order=order)
    if tier == "thorough":
        add("feedback xy p=(2,2) limited SED", feedback, dims="xy", p=(2, 2), rs="llf", **L)
        add("uniform xyz p=(1,1,1) hllc", uniform, dims="xyz", p=(1, 1, 1), rs="hllc")
    return out
