"""C19: the right-hand side depends on its arguments only."""
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym
from checks.c13_snapshots import bfun

TITLE = "purity of the right-hand side"
TECHNIQUE = "abstract interpretation with heap/alias tracking: repeated evaluations value-numbered across interposed histories and a second solver; written-to analysis of cached objects and arguments"
EXPLANATION = (
    "f(t, u) is interpreted for an arbitrary time and state, then other evaluations, steps, snapshots, overwriting of every work array and activity of a second solver are interpreted, and f(t, u) again: "
    "both results must be the same nodes, the arrays handed in and returned earlier must be unchanged, and state and time of the solver untouched. No write may reach an object handed out by a cache, "
    "and user objects passed to the constructor must stay as they were. Uninitialised work storage is an opaque value: a result reading it differs from any specification."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents large compared with the stencils", "equality of value graphs is decided by 96-lane random fingerprints"]


def bc_of(c, bcs, nv):
    B = c.get("boundary_conditions", "BoundaryCondition")
    b = {}
    for d, t in bcs.items():
        b[d] = t
        if "dirichlet" in t:
            b[d + "_value"] = tuple(bfun(nv) if q == "dirichlet" else None for q in t)
    return c.call(B, **b)


def build(c, dims, p, bcs, nv, opts, bc=None, pre=""):
    kw = dict(opts)
    rs = kw.pop("riemann_solver", "llf")
    if bcs and bc is None:
        bc = bc_of(c, bcs, nv)
    if bc is not None:
        kw["bc"] = bc
    return H.solver(c, dims, dict(zip(dims, p)), ic="leaf", riemann_solver=rs, passives=tuple(f"s{j}" for j in range(nv - 5)), **kw)


def points(dims):
    return H.cells(dims, 1, corners=False) if len(dims) > 1 else H.cells(dims, 1)


def vals(k, dims, nv):
    return {(v,) + cell: k.elem((v,) + cell) for cell in points(dims) for v in range(nv)}


def compare(c, now, then, rule, what):
    for i, n in then.items():
        c.same(now[i], n, rule, f"{what} at {i}", key=rule)


def has_undef(n):
    return any(isinstance(x.args[0], tuple) and x.args[0] and x.args[0][0] == "undef" for x in N.leaves(n).values())


def frozen(c):
    for why, site, label in A.frozen_writes:
        c.ok(False, "cache-write", f"object from {why} is written to", site, "cache-write")
    c.count("cache-write")


def pure(c, dims, p, bcs=None, nv=5, cfl=False, order="mixed", **opts):
    if cfl:
        opts["fixed"] = False
    n = H.sizes(dims)
    lf, lg, lh = H.uleaf(), H.uleaf("v"), H.uleaf("q")
    shape = (nv,) + n
    # the other state as the first and only evaluation of another process
    it = c.interp()
    H.assume_any(it, True)
    d0, k0 = H.rhs(c, build(c, dims, p, bcs, nv, opts), A.from_fn(shape, lg, "f"), N.leaf("t1"))
    r0, d0 = vals(k0, dims, nv), A.to_node(d0)
    it = c.interp()
    H.assume_any(it, True)
    A.frozen_writes.clear()
    s = build(c, dims, p, bcs, nv, opts)
    am = c.attr(s, "am")
    st = c.call(am, "u")
    st.setitem((slice(None),) * 4, A.from_fn(shape, lh, "f"))
    t0, t1 = N.leaf("t0"), N.leaf("t1")
    s.attrs["t"] = N.leaf("tsolver")
    U = A.from_fn(shape, lf, "f")
    V = A.from_fn(shape, lg, "f")
    dt1, k1 = H.rhs(c, s, U, t0)
    r1 = vals(k1, dims, nv)
    d1 = A.to_node(dt1)
    u0 = {i: lf(i) for i in r1}
    s0 = {i: lh(i) for i in r1}

    def around(what):
        compare(c, {i: U.elem(i) for i in u0}, u0, "argument-untouched", f"argument {what}")
        compare(c, {i: c.call(am, "u").elem(i) for i in s0}, s0, "state-untouched", f"solver state {what}")
        c.same(c.attr(s, "t"), N.leaf("tsolver"), "state-untouched", f"solver time {what}", key="state-untouched")
        compare(c, {i: k1.elem(i) for i in r1}, r1, "result-stable", f"earlier result {what}")

    around("after the evaluation")
    dt2, k2 = H.rhs(c, s, U, t0)
    compare(c, vals(k2, dims, nv), r1, "repeat", "same evaluation twice in a row")
    c.same(dt2, d1, "repeat", "step size, same evaluation twice in a row", key="repeat")
    dt3, k3 = H.rhs(c, s, V, t1)
    r3 = vals(k3, dims, nv)
    compare(c, r3, r0, "repeat", "evaluation after another one, against the same evaluation in a fresh process")
    c.same(dt3, d0, "repeat", "step size after another evaluation, against a fresh process", key="repeat")
    around("after evaluating another state")
    c.method(s, "snapshot")
    around("after a snapshot")
    dt4, k4 = H.rhs(c, s, U, t0)
    compare(c, vals(k4, dims, nv), r1, "repeat", "after evaluating another state at another time and a snapshot")
    c.same(dt4, d1, "repeat", "step size after evaluating another state", key="repeat")
    compare(c, {i: k3.elem(i) for i in r3}, r3, "result-stable", "result of the other state")
    # the caller may overwrite what it was given
    for k in (k1, k2, k3, k4):
        k.setitem((slice(None),) * 4, N.leaf("junk"))
    # work storage carries nothing over
    arrays = c.attr(am, "arrays")
    for name in list(arrays):
        if name not in ("F", "G", "H", "w", "mean trouble", "mean NAD mag", "mean PAD mag"):
            continue  # state and tables
        a = arrays[name]
        a.setitem((slice(None),) * len(a.shape), A.from_fn(tuple(a.shape), (lambda q: lambda i: N.leaf(("work", q) + tuple(i)))(name), "f"))
    dt5, k5 = H.rhs(c, s, U, t0)
    compare(c, vals(k5, dims, nv), r1, "repeat", "after returned and work arrays were overwritten")
    c.same(dt5, d1, "repeat", "step size after work arrays were overwritten", key="repeat")
    compare(c, {i: c.call(am, "u").elem(i) for i in s0}, s0, "state-untouched", "solver state at the end")
    for i, x in r1.items():
        c.ok(not has_undef(x), "no-uninitialised", f"rate {i} reads no uninitialised storage", x.site, "no-uninitialised")
    frozen(c)


def stepped(c, dims, p, method, bcs=None, nv=5, **opts):
    """evaluation before and after steps"""
    it = c.interp()
    H.assume_any(it, True)
    A.frozen_writes.clear()
    s = build(c, dims, p, bcs, nv, opts)
    n = H.sizes(dims)
    am = c.attr(s, "am")
    lf, lh = H.uleaf(), H.uleaf("q")
    shape = (nv,) + n
    c.call(am, "u").setitem((slice(None),) * 4, A.from_fn(shape, lh, "f"))
    t0 = N.leaf("t0")
    U = A.from_fn(shape, lf, "f")
    dt1, k1 = H.rhs(c, s, U, t0)
    r1 = vals(k1, dims, nv)
    d1 = A.to_node(dt1)
    c.method(s, method, n=1)
    compare(c, {i: k1.elem(i) for i in r1}, r1, "result-stable", f"earlier result after a {method} step")
    dt2, k2 = H.rhs(c, s, U, t0)
    compare(c, vals(k2, dims, nv), r1, "repeat", f"after a {method} step")
    c.same(dt2, d1, "repeat", f"step size after a {method} step", key="repeat")
    compare(c, {i: U.elem(i) for i in r1}, {i: lf(i) for i in r1}, "argument-untouched", "argument after a step")
    frozen(c)


def pair(c, dims, p, other, bcs=None, nv=5, share_bc=True, **opts):
    """two solvers never share mutable state"""
    it = c.interp()
    H.assume_any(it, True)
    A.frozen_writes.clear()
    bc = bc_of(c, bcs, nv) if bcs else None
    pad = {"rho": (0, 100), "vx": (-5, 5)}
    if opts.get("a_posteriori_slope_limiting"):
        opts = dict(opts, PAD=pad)
    s = build(c, dims, p, bcs, nv, opts, bc)
    n = H.sizes(dims)
    lf, lg = H.uleaf(), H.uleaf("v")
    shape = (nv,) + n
    am = c.attr(s, "am")
    c.call(am, "u").setitem((slice(None),) * 4, A.from_fn(shape, H.uleaf("q"), "f"))
    before = sorted(opts.get("PAD", {}).items())
    t0 = N.leaf("t0")
    U = A.from_fn(shape, lf, "f")
    dt1, k1 = H.rhs(c, s, U, t0)
    r1 = vals(k1, dims, nv)
    o = dict(opts, **{k: v for k, v in other.items() if k != "p"})
    q = build(c, dims, other.get("p", p), bcs, nv, o, bc if share_bc else None)
    am2 = c.attr(q, "am")
    c.call(am2, "u").setitem((slice(None),) * 4, A.from_fn(shape, lg, "f"))
    H.rhs(c, q, A.from_fn(shape, lg, "f"), N.leaf("t9"))
    c.method(q, "euler", n=1)
    _, k2 = H.rhs(c, s, U, t0)
    compare(c, vals(k2, dims, nv), r1, "independent", f"first solver after work in a second one ({other or 'same options'})")
    a1, a2 = {id(a.buf): a for a in H.reachable_arrays(s)}, {id(a.buf): a for a in H.reachable_arrays(q)}
    # overwrite everything the second one owns
    for name in list(c.attr(am2, "arrays")):
        a = c.attr(am2, "arrays")[name]
        a.setitem((slice(None),) * len(a.shape), N.leaf("junk"))
    for sn in c.attr(q, "snapshots"):
        sn["w"].setitem((slice(None),) * 4, N.leaf("junk"))
    c.ok(len(c.attr(s, "snapshots")) == 0 and c.attr(s, "step_count") == 0, "independent", "first solver's records stay empty", key="independent")
    _, k3 = H.rhs(c, s, U, t0)
    compare(c, vals(k3, dims, nv), r1, "independent", "first solver after the second one's arrays were overwritten")
    compare(c, {i: c.call(am, "u").elem(i) for i in r1}, {i: H.uleaf("q")(i) for i in r1}, "independent", "state of the first solver")
    c.ok(sorted(opts.get("PAD", {}).items()) == before, "user-objects", "bounds passed by the user are unchanged", key="user-objects")
    if bc is not None:
        for d in "xyz":
            want = bcs.get(d)
            got = c.attr(bc, d)
            if want is not None:
                c.ok(tuple(got) == tuple(want), "user-objects", f"boundary condition passed by the user is unchanged: {d} {got}", key="user-objects")
    frozen(c)


def cases(tier):
    out = []

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    L = dict(H.LIM, SED=False, NAD_mode="local")
    for d in "xyz":
        for p in (0, 1, 2, 3):
            add(f"pure {d} p={p}", pure, dims=d, p=(p,), nv=6 if p == 2 else 5)
        add(f"pure {d} p=2 hllc", pure, dims=d, p=(2,), riemann_solver="hllc")
        add(f"pure {d} p=2 upwind", pure, dims=d, p=(2,), riemann_solver="advection_upwind")
        add(f"pure {d} p=1 CFL", pure, dims=d, p=(1,), cfl=True)
        for b in (("free", "reflective"), ("outflow", "dirichlet"), ("dirichlet", "free"), ("dirichlet", "dirichlet"), ("ic", "ic"), ("reflective", "ic")):
            add(f"pure {d} p=2 {b}", pure, dims=d, p=(2,), bcs={d: b})
        for o in (dict(L), dict(L, convex=True), dict(L, slope_limiter="moncen"), dict(L, force_trouble=True), dict(H.LIM, SED=True, NAD_mode="global")):
            add(f"pure {d} p=1 limited {sorted(set(o.items()) - set(L.items()), key=str)}", pure, dims=d, p=(1,), nv=6, **o)
        add(f"pure {d} p=2 limited dirichlet", pure, dims=d, p=(2,), bcs={d: ("dirichlet", "reflective")}, **L)
    for dims in ("xy", "yz", "xz"):
        add(f"pure {dims} p=(1,2)", pure, dims=dims, p=(1, 2))
        add(f"pure {dims} walls", pure, dims=dims, p=(1, 0), bcs={dims[0]: ("dirichlet", "free"), dims[1]: ("reflective", "dirichlet")})
        add(f"pure {dims} limited", pure, dims=dims, p=(0, 1), **L)
        add(f"pure {dims} limited convex", pure, dims=dims, p=(0, 0), **dict(L, convex=True))
    add("pure xyz", pure, dims="xyz", p=(0, 1, 0))
    add("pure xyz limited", pure, dims="xyz", p=(0, 0, 0), **L)
    for m in ("euler", "ssprk2", "ssprk3", "rk4"):
        add(f"stepped x {m}", stepped, dims="x", p=(0,), method=m)
        add(f"stepped z {m} limited", stepped, dims="z", p=(0,), method=m, **L)
    add("stepped x dirichlet", stepped, dims="x", p=(1,), method="euler", bcs={"x": ("dirichlet", "dirichlet")})
    add("stepped y p=1 limited", stepped, dims="y", p=(1,), method="ssprk2", **L)
    for d in "xyz":
        add(f"pair {d}", pair, dims=d, p=(2,), other={})
        add(f"pair {d} degree", pair, dims=d, p=(2,), other=dict(p=(3,)))
        add(f"pair {d} solver", pair, dims=d, p=(1,), other=dict(riemann_solver="hllc", gamma=2))
        add(f"pair {d} dirichlet", pair, dims=d, p=(1,), other={}, bcs={d: ("dirichlet", "ic")})
        add(f"pair {d} limited", pair, dims=d, p=(1,), other=dict(convex=True), **L)
    add("pair xy", pair, dims="xy", p=(1, 0), other={}, bcs={"x": ("dirichlet", "free"), "y": ("periodic", "periodic")})
    if tier == "thorough":
        add("pure xyz p=1", pure, dims="xyz", p=(1, 1, 1))
        add("pure xy p=3", pure, dims="xy", p=(3, 3))
        add("pure xz limited p=1", pure, dims="xz", p=(1, 1), **L)
    return out
