"""C26: the GPU path."""
from fvsa import arrays as A
from fvsa import gpu as G
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa.aff import sym
from checks.c13_snapshots import bfun

TITLE = "GPU path"
TECHNIQUE = "abstract interpretation with a host/device effect system (every array carries the memory it lives in; CuPy's dispatch and conversion rules), value graphs of the GPU and CPU runs compared node by node (global value numbering)"
EXPLANATION = (
    "The package is interpreted three times per configuration: on the CPU, with CuPy present and requested, and with CuPy requested but absent. In the GPU run every array carries its memory; an operation on a mix of host and "
    "device arrays, an implicit conversion or a host library called on device data raises, as CuPy documents. Construction, f(t, u), an integration step and snapshots must run without such an error; rates of change, time step, "
    "snapshots, troubles and work arrays must be the same nodes as on the CPU; managed arrays must be on the device, snapshots (all entries) and clock values on the host; without CuPy the request must fall back to the CPU run. "
    "With CuPy present but not requested nothing may touch the device."
)
ASSUMPTIONS = [
    "CuPy implements the NumPy functions used with the same semantics (dispatch rules as documented for CuPy 13)",
    "real arithmetic (no rounding)",
    "grid extents large compared with the stencils",
    "equality of value graphs is decided by 96-lane random fingerprints",
]

DIAG = ("trouble", "NAD violation magnitude", "PAD violation magnitude")


def shape_of(v):
    return tuple(v.shape) if isinstance(v, A.Arr) else ()


def world(c, gpu, cupy, dims, p, bcs, nv, method, opts, ask=True):
    it = c.interp(gpu=True) if gpu else c.interp(cupy=cupy)
    H.assume_any(it, True)
    kw = dict(opts)
    rs = kw.pop("riemann_solver", "llf")
    if bcs:
        B = c.get("boundary_conditions", "BoundaryCondition")
        b = {}
        for d, t in bcs.items():
            b[d] = tuple("dirichlet" if q == "array" else q for q in t)
            if "dirichlet" in t or "array" in t:
                b[d + "_value"] = tuple(
                    bfun(nv) if q == "dirichlet" else (A.from_fn((nv,), lambda i, q=q, k=k: N.leaf(("bv", k, i[0]), 1 if i[0] == 0 else None), "f") if q == "array" else None) for k, q in enumerate(t)
                )
        kw["bc"] = c.call(B, **b)
    fixed = kw.pop("fixed", True)
    s = H.solver(c, dims, dict(zip(dims, p)), ic="leaf", fixed=fixed, riemann_solver=rs, passives=tuple(f"s{k}" for k in range(nv - 5)), cupy=ask, **kw)
    n = H.sizes(dims)
    lf = H.uleaf()
    U = A.from_fn((nv,) + n, lf, "f")
    if gpu and ask:
        U.dev = True
    A.red_log.clear()
    out = dict(s=s, it=it)
    out["dt"], out["du"] = H.rhs(c, s, U)
    am = c.attr(s, "am")
    out["am"] = am
    it.setitem(c.call(am, "u"), Ellipsis, U)
    if method:
        c.method(s, method, n=1)
    else:
        c.method(s, "snapshot")
    out["snaps"] = list(c.attr(s, "snapshots"))
    out["arrays"] = dict(c.attr(am, "arrays"))
    out["t"] = c.attr(s, "t")
    return out


def points(dims):
    return H.cells(dims, 1, corners=False) if len(dims) > 1 else H.cells(dims, 2)


def node(v):
    return A.to_node(G.plain(v))


def values(v, dims):
    """the elements of an array compared between runs"""
    shp = shape_of(v)
    n = H.sizes(dims)
    if not shp:
        return {(): node(v)}
    lead = shp[:-3] if len(shp) > 3 else ()
    if len(shp) < 3:
        idx = [tuple(sym("i" + "xyz"[k]) if not isinstance(q, int) else 0 for k, q in enumerate(shp))]
        return {i: v.elem(i) for i in idx}
    out = {}
    for cell in points(dims):
        try:
            ok = all((not isinstance(m, int)) or (isinstance(i, int) and i < m) for i, m in zip(cell, shp[-3:]))
        except Exception:
            ok = False
        if not ok:
            continue
        for v0 in A.host_indices(lead) if lead else [()]:
            i = tuple(v0) + cell
            out[i] = v.elem(i)
    return out


def cmp(c, a, b, dims, rule, what):
    sa, sb = shape_of(a), shape_of(b)
    if not c.ok(len(sa) == len(sb) and all(A.dim_eq(x, y) for x, y in zip(sa, sb)), rule, f"{what}: shape {sb} on the GPU, {sa} on the CPU", None, rule):
        return
    va, vb = values(a, dims), values(b, dims)
    for i in va:
        c.same(vb[i], va[i], rule, f"{what} at {i}", key=rule)


def hostdev(c, v, want, rule, what):
    for q in G.arrs(v, []):
        c.ok(G.is_dev(q) == want, rule, f"{what} is in {'device' if G.is_dev(q) else 'host'} memory", None, rule)


def compare(c, a, b, dims, gpu, what):
    cmp(c, a["dt"], b["dt"], dims, "gpu-dt", f"time step, {what}")
    cmp(c, a["du"], b["du"], dims, "gpu-rhs", f"du/dt, {what}")
    c.ok(len(a["snaps"]) == len(b["snaps"]), "gpu-snapshots", f"{what}: {len(b['snaps'])} snapshots, {len(a['snaps'])} on the CPU", None, "gpu-snapshots")
    c.ok(set(a["arrays"]) == set(b["arrays"]), "gpu-arrays", f"{what}: managed arrays {sorted(set(a['arrays']) ^ set(b['arrays']))} differ", None, "gpu-arrays")
    for j, (x, y) in enumerate(zip(a["snaps"], b["snaps"])):
        c.ok(list(x) == list(y), "gpu-snapshots", f"{what}: snapshot {j} has entries {list(y)}", None, "gpu-snapshots")
        for k in x:
            if k not in y:
                continue
            if isinstance(x[k], A.Arr) or A.is_num(x[k]):
                cmp(c, x[k], y[k], dims, "gpu-snapshot", f"snapshot {j} entry {k}, {what}")
            hostdev(c, y[k], False, "snapshot-on-host", f"{what}: snapshot {j} entry {k}")
    cmp(c, a["t"], b["t"], dims, "gpu-time", f"time, {what}")
    hostdev(c, b["t"], False, "clock-on-host", f"{what}: solver time")
    hostdev(c, b["dt"], False, "clock-on-host", f"{what}: time step size")
    for k, v in b["arrays"].items():
        hostdev(c, v, gpu, "managed-on-device" if gpu else "managed-on-host", f"{what}: managed array '{k}'")
        if k in a["arrays"] and k not in ("F", "G", "H"):
            cmp(c, a["arrays"][k], v, dims, "gpu-array", f"managed array '{k}', {what}")
    hostdev(c, b["du"], gpu, "rate-memory", f"{what}: du/dt")
    c.ok(bool(c.attr(b["am"], "using_cupy")) == gpu, "gpu-flag", f"{what}: using_cupy is {c.attr(b['am'], 'using_cupy')}", None, "gpu-flag")


def parity(c, dims, p, bcs=None, nv=5, method="euler", **opts):
    what = f"{dims} p={p} {bcs or 'periodic'} {opts}"
    a = world(c, False, False, dims, p, bcs, nv, method, opts, ask=False)
    b = world(c, True, True, dims, p, bcs, nv, method, opts)
    compare(c, a, b, dims, True, what + " with CuPy")
    c.it = b["it"]
    # reading arrays back
    am = b["am"]
    for k, v in b["arrays"].items():
        h = c.method(am, "get_numpy", k)
        c.ok(isinstance(h, A.Arr) and not G.is_dev(h), "get-numpy", f"{what}: get_numpy('{k}') is a host array", None, "get-numpy")
        cmp(c, v, h, dims, "get-numpy", f"get_numpy('{k}'), {what}")


def fallback(c, dims, p, bcs=None, nv=5, method="euler", **opts):
    what = f"{dims} p={p} {bcs or 'periodic'} {opts}"
    a = world(c, False, False, dims, p, bcs, nv, method, opts, ask=False)
    b = world(c, False, False, dims, p, bcs, nv, method, opts, ask=True)
    compare(c, a, b, dims, False, what + " without CuPy")
    d = world(c, True, True, dims, p, bcs, nv, method, opts, ask=False)
    compare(c, a, d, dims, False, what + " with CuPy present, not requested")
    c.ok(not d["it"].transfers, "no-transfer", f"{what}: CuPy not requested, but data moved: {d['it'].transfers[:2]}", d["it"].transfers[0][1] if d["it"].transfers else None, "no-transfer")


def manager(c, gpu):
    """the array manager by itself"""
    it = c.interp(gpu=True) if gpu else c.interp()
    M = c.get("array_management", "ArrayManager")
    n = (sym("nx"), 3)
    src = lambda name: A.from_fn(n, lambda i: N.leaf((name,) + tuple(i)), "f")
    i = (sym("ix"), 1)
    am = c.call(M)
    c.ok(not c.attr(am, "using_cupy"), "manager", "a new manager is on the host", key="manager")
    c.method(am, "add", "a", src("a"))
    hostdev(c, c.call(am, "a"), False, "manager", "array added before enabling")
    am = c.call(M)
    c.method(am, "enable_cupy")
    c.ok(bool(c.attr(am, "using_cupy")) == gpu, "manager", f"enabling with{'' if gpu else 'out'} CuPy", key="manager")
    x = src("x")
    c.method(am, "add", "x", x)
    v = c.call(am, "x")
    hostdev(c, v, gpu, "manager", "managed array")
    c.same(v.elem(i), N.leaf(("x",) + i), "manager", "value of the managed array", key="manager")
    h = c.method(am, "get_numpy", "x")
    hostdev(c, h, False, "manager", "get_numpy")
    c.same(h.elem(i), N.leaf(("x",) + i), "manager", "get_numpy value", key="manager")
    it.setitem(v, Ellipsis, N.leaf("new"))
    c.same(h.elem(i), N.leaf(("x",) + i), "manager", "get_numpy result is a copy", key="manager")
    c.same(c.method(am, "get_numpy", "x").elem(i), N.leaf("new"), "manager", "get_numpy after a write through the managed array", key="manager")
    c.raises(["KeyError"], lambda: c.method(am, "add", "x", src("y")), "manager", "adding a name twice")
    c.raises(["TypeError"], lambda: c.method(am, "add", "z", [1, 2]), "manager", "adding a list")
    c.raises(["KeyError"], lambda: c.call(am, "nope"), "manager", "unknown name")
    c.raises(["KeyError"], lambda: c.method(am, "get_numpy", "nope"), "manager", "unknown name, get_numpy")
    c.raises(["KeyError"], lambda: c.method(am, "remove", "nope"), "manager", "unknown name, remove")
    c.method(am, "remove", "x")
    c.raises(["KeyError"], lambda: c.call(am, "x"), "manager", "removed name")
    c.method(am, "add", "x", src("y"))
    c.same(c.call(am, "x").elem(i), N.leaf(("y",) + i), "manager", "name reused after removal", key="manager")
    c.method(am, "disable_cupy")
    c.ok(not c.attr(am, "using_cupy"), "manager", "disabling", key="manager")
    c.method(am, "add", "h", src("h"))
    hostdev(c, c.call(am, "h"), False, "manager", "array added after disabling")
    c.same(c.method(am, "get_numpy", "h").elem(i), N.leaf(("h",) + i), "manager", "get_numpy on the host", key="manager")
    d = c.method(am, "to_dict")
    c.ok(list(d["names"]) == ["x", "h"] and d["using_cupy"] is False, "manager", f"description {d}", key="manager")


def direct(c, dims, convex):
    """detection and broadcasting asked for the GPU backend, with and without CuPy"""
    n = H.sizes(dims)
    ext = tuple(n[a] + 6 if d in dims else 1 for a, d in enumerate("xyz"))
    res = []
    for gpu, xp in ((False, "numpy"), (False, "cupy"), (True, "cupy"), (True, "numpy")):
        it = c.interp(gpu=True) if gpu else c.interp()
        H.assume_any(it, True)
        f, g = c.get("slope_limiting", "detect_troubled_cells"), c.get("slope_limiting", "broadcast_to_troubled_interfaces")
        W, X = (A.from_fn((5,) + ext, lambda i, q=q: N.leaf((q,) + tuple(i)), "f") for q in "wx")
        T = A.from_fn(n, lambda i: N.leaf(("T",) + tuple(i)), "f")
        dev = gpu and xp == "cupy"
        for q in (W, X, T):
            q.dev = dev
        a = c.call(f, u=W, u_candidate=X, dims=dims, SED=False, xp=xp)
        b = c.call(g, T, dims=dims, convex=convex, periodic_x=True, periodic_y=True, periodic_z=True, xp=xp)
        for q in (*a, *b):
            hostdev(c, q, dev, "direct-memory", f"result with xp={xp}, CuPy {'present' if gpu else 'absent'}")
        res.append((gpu, xp, (*a, *b)))
    for gpu, xp, r in res[1:]:
        for k, (q, q0) in enumerate(zip(r, res[0][2])):
            cmp(c, q0, q, dims, "direct", f"{'detection' if k < 3 else 'broadcast'} result {k} with xp={xp}, CuPy {'present' if gpu else 'absent'}, {dims}")


LIMS = (
    dict(),
    dict(convex=True),
    dict(slope_limiter="moncen", NAD_mode="local"),
    dict(slope_limiter=None, SED=False, NAD_range="absolute"),
    dict(PAD={"rho": (0, 1), "P": (0, 1)}),
    dict(force_trouble=True),
    dict(NAD_vars=("rho", "P"), SED=False, convex=True),
)


def cases(tier):
    out = []

    def add(fn, name, **kw):
        out.append((name, fn, kw))

    add(manager, "manager with CuPy", gpu=True)
    add(manager, "manager without CuPy", gpu=False)
    for dims in ("x", "y", "z", "xy", "xz", "yz"):
        for cv in (False, True):
            add(direct, f"direct {dims} convex={cv}", dims=dims, convex=cv)
    for m in ("euler", "ssprk2", "ssprk3", "rk4"):
        add(parity, f"GPU x p=1 {m}", dims="x", p=(1,), method=m, nv=6)
        add(fallback, f"fallback x p=1 {m}", dims="x", p=(1,), method=m)
    for d in "xyz":
        for rs in ("hllc", "llf", "advection_upwind"):
            add(parity, f"GPU {d} p=2 {rs}", dims=d, p=(2,), riemann_solver=rs, nv=6)
        add(parity, f"GPU {d} p=0 CFL", dims=d, p=(0,), fixed=False)
        add(parity, f"GPU {d} p=3 CFL", dims=d, p=(3,), fixed=False)
        for b in (("free", "reflective"), ("outflow", "free"), ("dirichlet", "free"), ("array", "array"), ("ic", "ic"), ("dirichlet", "array")):
            add(parity, f"GPU {d} p=1 {b}", dims=d, p=(1,), bcs={d: b})
        for kw in LIMS if d == "x" else LIMS[:3]:
            add(parity, f"GPU {d} p=1 limited {kw}", dims=d, p=(1,), method=None, **H.LIM, **kw)
        add(parity, f"GPU {d} p=1 limited walls convex", dims=d, p=(1,), method=None, bcs={d: ("reflective", "free")}, convex=True, **H.LIM)
    add(fallback, "fallback x p=1 limited", dims="x", p=(1,), method=None, **H.LIM)
    add(fallback, "fallback y p=1 limited convex", dims="y", p=(1,), method=None, convex=True, **H.LIM)
    add(fallback, "fallback xy p=(1,0)", dims="xy", p=(1, 0), fixed=False)
    for kw in (dict(conservative_ic=True), dict(fv_ic=True, conservative_ic=True), dict(snapshots_as_fv_averages=False), dict(density_floor=N_("fl"), pressure_floor=N_("fp")), dict(fixed_primitive_variables=("vx", "P")) ):
        add(parity, f"GPU x p=2 {sorted(kw)}", dims="x", p=(2,), **kw)
    for dims in ("xy", "yz", "zx"):
        dims = "".join(sorted(dims))
        add(parity, f"GPU {dims} p=(1,2) hllc", dims=dims, p=(1, 2), riemann_solver="hllc", bcs={dims[0]: ("reflective", "dirichlet")}, fixed=False)
        one = dict(NAD_mode="local", NAD_vars=("rho",), SED=False, slope_limiter="moncen", **H.LIM)
        add(parity, f"GPU {dims} p=(1,0) limited convex", dims=dims, p=(1, 0), method=None, convex=True, **one)
        add(parity, f"GPU {dims} p=(0,1) limited", dims=dims, p=(0, 1), method=None, **one)
        add(parity, f"GPU {dims} p=(0,0) limited SED", dims=dims, p=(0, 0), method=None, slope_limiter=None, **H.LIM)
        add(fallback, f"fallback {dims} p=(1,0) limited", dims=dims, p=(1, 0), method=None, **one)
    add(parity, "GPU xyz p=(1,0,0) CFL", dims="xyz", p=(1, 0, 0), fixed=False, method=None)
    add(parity, "GPU xy p=(1,1) double Mach", dims="xy", p=(1, 1), bcs={"x": ("ic", "free"), "y": ("special-case-double-mach-reflection-y=0", "ic")}, method=None)
    if tier == "thorough":
        add(parity, "GPU xyz p=(0,0,0) limited", dims="xyz", p=(0, 0, 0), method=None, SED=False, slope_limiter=None, **H.LIM)
        add(parity, "GPU xyz p=(0,0,0) limited convex", dims="xyz", p=(0, 0, 0), method=None, SED=False, slope_limiter=None, convex=True, **H.LIM)
        for m in ("ssprk3", "rk4"):
            add(parity, f"GPU xy p=(1,1) {m}", dims="xy", p=(1, 1), method=m)
    return out


def N_(name):
    return N.leaf(name, 1)
