"""C05: the three coordinate directions are treated alike."""
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "axis relabelling"
TECHNIQUE = "relational abstract interpretation: two runs with permuted axes must produce the same value graph (global value numbering)"
EXPLANATION = (
    "The same problem is set up along x,y,z and along a permutation of the axes (cells, velocities, degrees, domain, boundary types permuted "
    "accordingly). du/dt, the time-step (its reduction operand) and the primitive snapshot of the two abstract runs must be identical nodes after "
    "undoing the permutation, at the generic cell, next to every boundary and in the corners. The troubled-cell criteria (every variable and bound relabelled) and the "
    "broadcast of flags to faces are compared in the same way as functions, in one, two and three dimensions."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents large compared with the stencils", "equality of value graphs is decided by 96-lane random fingerprints"]


def run1(c, sigma, dims, p, rs, bcs, nv, cfl, opts):
    """set up the canonical problem on axes dims, then relabel axis d -> sigma[d]; returns getter in canonical labels"""
    it = c.interp()
    H.assume_any(it, True)
    kw = dict(opts)
    for d, q in zip(dims, p):
        kw["n" + sigma[d]] = sym("n" + d)
        kw["p" + sigma[d]] = q
    for d in "xyz":
        lo = N.leaf("lo" + d)
        kw[sigma[d]] = (lo, N.add(lo, N.leaf("len" + d, 1)))
    if bcs:
        B = c.get("boundary_conditions", "BoundaryCondition")
        kw["bc"] = c.call(B, **{sigma[d]: b for d, b in bcs.items()})
    inv = {sigma[d]: d for d in "xyz"}

    def canon(idx):
        """(v, ix, iy, iz) of the permuted run -> canonical"""
        v = idx[0]
        if 1 <= v <= 3:
            v = 1 + "xyz".index(inv["xyz"[v - 1]])
        pos = {inv["xyz"[a]]: idx[1 + a] for a in range(3)}
        return (v, pos["x"], pos["y"], pos["z"])

    def actual(idx):
        v = idx[0]
        if 1 <= v <= 3:
            v = 1 + "xyz".index(sigma["xyz"[v - 1]])
        pos = {sigma["xyz"[a]]: idx[1 + a] for a in range(3)}
        return (v, pos["x"], pos["y"], pos["z"])

    if not cfl:
        kw["fixed_dt"] = N.leaf("dt", 1)
    E = c.get("solver", "EulerSolver")
    if nv > 5:
        kw["w0_passives"] = {f"s{k}": H.passive_ic(f"s{k}") for k in range(nv - 5)}
    s = c.call(E, w0=H.mk_ic(c), progress_bar=False, riemann_solver=rs, **kw)
    n = {d: (sym("n" + d) if d in dims else 1) for d in "xyz"}
    shape = tuple(n[inv[d]] for d in "xyz")
    lf = H.uleaf()
    U = A.from_fn((nv,) + shape, lambda idx: lf(canon(idx)), "f")
    A.red_log.clear()
    dt, du = H.rhs(c, s, U)
    am = c.attr(s, "am")
    c.call(am, "u").setitem((slice(None),) * 4, U)
    c.method(s, "snapshot")
    w = c.attr(s, "snapshots")[-1]["w"]
    reds = list(A.red_log)
    return dict(du=lambda i: du.elem(actual(i)), w=lambda i: w.elem(actual(i)), dt=dt, reds=reds, actual=actual)


def perm(c, dims, to, p, rs, bcs=None, nv=5, cfl=False, **opts):
    rest = [d for d in "xyz" if d not in dims]
    rest2 = [d for d in "xyz" if d not in to]
    sigma = dict(zip(dims, to))
    sigma.update(zip(rest, rest2))
    ident = {d: d for d in "xyz"}
    a = run1(c, ident, dims, p, rs, bcs, nv, cfl, opts)
    b = run1(c, sigma, dims, p, rs, bcs, nv, cfl, opts)
    c.same(b["dt"], a["dt"], "relabelled-dt", f"time step, axes {dims} relabelled {to}", key="relabelled-dt")
    for cell in H.cells(dims, 1):
        for v in range(nv):
            i = (v,) + cell
            c.same(b["du"](i), a["du"](i), "relabelled-rhs", f"du/dt[{v}] at {cell}: axes {dims} relabelled {to} ({rs}, p={p}, {bcs or 'periodic'})", key="relabelled-rhs")
            c.same(b["w"](i), a["w"](i), "relabelled-snapshot", f"snapshot[{v}] at {cell}: axes {dims} relabelled {to}", key="relabelled-snapshot")


def _sigma(dims, to):
    sigma = dict(zip(dims, to))
    sigma.update(zip([d for d in "xyz" if d not in dims], [d for d in "xyz" if d not in to]))
    return sigma


def _actual(sigma, idx):
    v = idx[0]
    if 1 <= v <= 3:
        v = 1 + "xyz".index(sigma["xyz"[v - 1]])
    pos = {sigma["xyz"[a]]: idx[1 + a] for a in range(3)}
    return (v, pos["x"], pos["y"], pos["z"])


def detect(c, dims, to, opts):
    """troubled-cell criteria on a relabelled candidate (the reference detector is the same function on canonical axes)"""
    c.interp()
    f = c.get("slope_limiting", "detect_troubled_cells")

    def one(sigma):
        inv = {sigma[d]: d for d in "xyz"}
        n = {d: (sym("n" + d) if d in dims else 1) for d in "xyz"}
        shape = (5,) + tuple(n[inv[d]] for d in "xyz")
        mk = lambda tag: A.from_fn(shape, lambda i: N.leaf((tag,) + _actual(inv, i)), "f")
        kw = dict(opts)
        ren = lambda s: "v" + sigma[s[1]] if s[0] == "v" else s
        if kw.get("NAD_vars"):
            kw["NAD_vars"] = tuple(ren(s) for s in kw["NAD_vars"])
        if kw.get("PAD_bounds"):
            kw["PAD_bounds"] = {ren(s): (N.leaf("lo" + s), N.leaf("hi" + s)) for s in kw["PAD_bounds"]}
        return c.call(f, mk("q"), mk("r"), dims="".join(d for d in "xyz" if inv[d] in dims), NAD_eps=N.leaf("tol", 1), SED_eps=N.leaf("eps", 1), **kw)

    ident = {d: d for d in "xyz"}
    sigma = _sigma(dims, to)
    a, b = one(ident), one(sigma)
    for name, x, y in zip(("flag", "NAD magnitude", "PAD magnitude"), a, b):
        g = tuple(sym("i" + d) if d in dims else 0 for d in "xyz")
        for pt in (g, (0, 0, 0), tuple(m - 1 for m in x.shape)):
            q = _actual(sigma, (0,) + pt)[1:]
            c.same(y.elem(q), x.elem(pt), "relabelled-detection", f"{name} at {pt}: axes {dims} relabelled {to} ({opts})", key="relabelled-detection")


def broadcast(c, dims, to, convex, per):
    """faces affected by relabelled trouble flags"""
    c.interp()
    f = c.get("slope_limiting", "broadcast_to_troubled_interfaces")

    def one(sigma):
        inv = {sigma[d]: d for d in "xyz"}
        n = {d: (sym("n" + d) if d in dims else 1) for d in "xyz"}
        shape = tuple(n[inv[d]] for d in "xyz")
        T = A.from_fn(shape, lambda i: N.truthy(N.leaf(("tr",) + _actual(inv, (0,) + tuple(i)))), "b")
        kw = {f"periodic_{sigma[d]}": d in per for d in "xyz"}
        return c.call(f, T, dims="".join(d for d in "xyz" if inv[d] in dims), convex=convex, **kw)

    sigma = _sigma(dims, to)
    a, b = one({d: d for d in "xyz"}), one(sigma)
    for k, d in enumerate("xyz"):
        if d not in dims:
            continue
        k2 = "xyz".index(sigma[d])
        for cell in H.cells(dims, 2):
            for e in (0, 1):
                i = list(cell)
                i[k] = i[k] + e
                q = _actual(sigma, (0,) + tuple(i))
                c.same(b[k2].elem(q), a[k].elem((0,) + tuple(i)), "relabelled-faces", f"{d} interface {tuple(i)}: axes {dims} relabelled {to}, convex={convex}, periodic={per}", key="relabelled-faces")


def cases(tier):
    out = []

    def add(name, **kw):
        out.append((name, perm, kw))

    for to in "yz":
        for rs in ("hllc", "llf", "advection_upwind"):
            add(f"x->{to} p=3 {rs}", dims="x", to=to, p=(3,), rs=rs, nv=6)
        for b in (("free", "reflective"), ("reflective", "outflow"), ("outflow", "free"), ("reflective", "reflective")):
            add(f"x->{to} p=2 hllc {b}", dims="x", to=to, p=(2,), rs="hllc", bcs={"x": b})
        for p in (0, 1, 4, 5):
            add(f"x->{to} p={p} hllc", dims="x", to=to, p=(p,), rs="hllc")
        for kw in (dict(), dict(convex=True), dict(slope_limiter="moncen", NAD_mode="local"), dict(SED=False, slope_limiter=None), dict(NAD_range="absolute"),
                   dict(NAD_vars=("rho", "P"), SED=False)):
            add(f"x->{to} p=2 limited {kw}", dims="x", to=to, p=(2,), rs="llf", bcs=None, nv=6, **H.LIM, **kw)
            add(f"x->{to} p=1 limited wall {kw}", dims="x", to=to, p=(1,), rs="hllc", bcs={"x": ("reflective", "free")}, **H.LIM, **kw)
    for to in ("yx", "yz", "zy", "xz", "zx"):
        add(f"xy->{to} p=(2,1) hllc", dims="xy", to=to, p=(2, 1), rs="hllc", bcs={"x": ("reflective", "free"), "y": ("periodic", "periodic")})
        add(f"xy->{to} p=(1,3) llf", dims="xy", to=to, p=(1, 3), rs="llf", bcs={"x": ("outflow", "reflective"), "y": ("free", "reflective")})
        add(f"xy->{to} p=(1,1) limited", dims="xy", to=to, p=(1, 1), rs="llf", SED=False, NAD_mode="local", slope_limiter="moncen", **H.LIM)
    add("xy->yz p=(1,0) limited convex", dims="xy", to="yz", p=(1, 0), rs="llf", SED=False, convex=True, slope_limiter="moncen", **H.LIM)
    add("xy->zx p=(0,1) limited convex", dims="xy", to="zx", p=(0, 1), rs="llf", SED=False, NAD_vars=("rho",), convex=True, slope_limiter="moncen", **H.LIM)
    add("xy->yx p=(1,1) limited one variable", dims="xy", to="yx", p=(1, 1), rs="llf", SED=False, NAD_vars=("rho",), slope_limiter="minmod", **H.LIM)
    add("xy->yz p=(1,1) limited one variable", dims="xy", to="yz", p=(1, 1), rs="llf", SED=False, NAD_vars=("rho",), slope_limiter="minmod", **H.LIM)
    add("xy->yx p=(0,0) limited SED", dims="xy", to="yx", p=(0, 0), rs="llf", slope_limiter=None, **H.LIM)
    add("xy->yz p=(0,0) limited SED", dims="xy", to="yz", p=(0, 0), rs="llf", slope_limiter=None, **H.LIM)
    for dims, to, p in (("x", "y", (2,)), ("x", "z", (0,)), ("xy", "yx", (1, 0)), ("xy", "zx", (0, 1)), ("xyz", "yzx", (0, 0, 0))):
        add(f"{dims}->{to} p={p} CFL", dims=dims, to=to, p=p, rs="llf", cfl=True)
    for to in ("yzx", "yxz", "zyx"):
        add(f"xyz->{to} p=(0,0,0) hllc", dims="xyz", to=to, p=(0, 0, 0), rs="hllc")
        add(f"xyz->{to} p=(1,0,0) llf", dims="xyz", to=to, p=(1, 0, 0), rs="llf")
    T = {"x": ("y", "z"), "xy": ("yx", "yz", "zy", "xz", "zx"), "xyz": ("yzx", "yxz", "zyx", "xzy", "zxy")}
    for dims, tos in T.items():
        for to in tos:
            for kw in (dict(), dict(mode="local"), dict(SED=False, range_type="absolute", NAD_vars=("vx", "P"), PAD_bounds=("rho", "vy"))):
                out.append((f"detect {dims}->{to} {kw}", detect, dict(dims=dims, to=to, opts=kw)))
            for cv in (False, True):
                if cv and len(dims) == 3:
                    continue
                for per in sorted({"", dims, dims[0]}):
                    out.append((f"faces {dims}->{to} convex={cv} periodic={per}", broadcast, dict(dims=dims, to=to, convex=cv, per=per)))
    if tier == "thorough":
        for to in ("yzx", "yxz", "zyx", "zxy", "xzy"):
            add(f"xyz->{to} p=(1,2,1) llf", dims="xyz", to=to, p=(1, 2, 1), rs="llf")
            add(f"xyz->{to} p=(0,0,0) limited SED", dims="xyz", to=to, p=(0, 0, 0), rs="llf", slope_limiter=None, **H.LIM)
    return out
