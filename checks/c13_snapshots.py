"""C13: snapshots record the state of their moment and never change afterwards."""
from fractions import Fraction as Fr

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "snapshots"
TECHNIQUE = "abstract interpretation to a value graph with heap/alias tracking; snapshot rows compared with the reference averages by value numbering, before and after every later write"
EXPLANATION = (
    "snapshot() is interpreted on arbitrary states and times for averages and centre values, in every dimension, with periodic, free, reflective, outflow and "
    "time-dependent prescribed boundaries and with passive scalars: its rows must value-number to the primitive averages (centre values) of that state with the "
    "ghost values of that time, its time, coordinates and diagnostics must be those of the moment, and taking it must leave state, time, counters and the "
    "right-hand side unchanged. Afterwards every working array is overwritten, the right-hand side re-evaluated, steps and further snapshots taken: every entry "
    "of the earlier snapshots must still be the same node, so no storage is shared."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents large compared with the stencils", "equality of value graphs is decided by 96-lane random fingerprints"]


def bfun(nv):
    def f(x, y, z, t):
        return A.from_fn((nv,) + tuple(x.shape), lambda i: N.uf(("bc", i[0]), *[q.elem(tuple(i[1:])) for q in (x, y, z)], A.to_node(t), pos=1 if i[0] in (0, 4) else None), "f")

    return I.Native("bf", f)


def mk(c, dims, p, bcs, nv, fv, opts):
    it = c.interp()
    H.assume_any(it, True)
    kw = dict(opts)
    if bcs:
        B = c.get("boundary_conditions", "BoundaryCondition")
        b = {}
        for d, t in bcs.items():
            b[d] = t
            if "dirichlet" in t:
                b[d + "_value"] = tuple(bfun(nv) if q == "dirichlet" else None for q in t)
        kw["bc"] = c.call(B, **b)
    g = N.add(N.ONE, N.leaf("gm1", 1))
    return H.solver(c, dims, dict(zip(dims, p)), ic="leaf", riemann_solver="llf", passives=tuple(f"s{j}" for j in range(nv - 5)), gamma=g,
                    snapshots_as_fv_averages=fv, **kw), g


def reference(u, dims, p, g, bcs, nv, fv, t):
    n = H.sizes(dims)

    def ghost(v, d, side, idx):
        q = [N.div(N.add(A.to_node(idx[a]), N.const(Fr(1, 2))), A.to_node(n[a])) if e in dims else N.const(Fr(1, 2)) for a, e in enumerate("xyz")]
        return N.uf(("bc", v), *q, t, pos=1 if v in (0, 4) else None)

    ub = S.ghosted(u, dims, n, bcs or {d: ("periodic", "periodic") for d in dims}, ghost, nv)
    p3 = [dict(zip(dims, p)).get(d, 0) for d in "xyz"]
    uc = S.centers(ub, p3)
    wc = S.Fld(lambda v, *i: S.prim([uc(k, *i) for k in range(nv)], g, nv)[v])
    return S.averages(wc, p3) if fv else wc


DIAG = ("trouble", "NAD violation magnitude", "PAD violation magnitude")
NAMES = ("mean trouble", "mean NAD mag", "mean PAD mag")


def record(snap, dims, nv, lim):
    """all observable entries of a snapshot as nodes"""
    out = {("t",): A.to_node(snap["t"])}
    for cell in H.cells(dims, 1):
        for v in range(nv):
            out[("w", v) + cell] = snap["w"].elem((v,) + cell)
        if lim:
            for k in DIAG:
                out[(k,) + cell] = snap[k].elem(cell)
        for a, d in enumerate("xyz"):
            out[(d, cell[a])] = snap[d].elem((cell[a],))
    return out


def check_same(c, snap, rec, dims, nv, lim, when):
    now = record(snap, dims, nv, lim)
    for k, v in rec.items():
        c.same(now[k], v, "snapshot-frozen", f"snapshot entry {k} {when}", key="snapshot-frozen")


def moment(c, dims, p, bcs=None, nv=5, fv=True, **opts):
    lim = bool(opts.get("a_posteriori_slope_limiting"))
    s, g = mk(c, dims, p, bcs, nv, fv, opts)
    n = H.sizes(dims)
    am = c.attr(s, "am")
    lf = H.uleaf()
    U = c.call(am, "u")
    full = (slice(None),) * 4
    U.setitem(full, A.from_fn((nv,) + n, lf, "f"))
    t = N.leaf("tnow")
    s.attrs["t"] = t
    for k in NAMES:
        c.call(am, k).setitem((slice(None),) * 3, A.from_fn(n, (lambda k: lambda i: N.leaf((k,) + tuple(i)))(k), "f"))
    before = dict(sc=c.attr(s, "step_count"), fc=c.attr(s, "f_evaluation_count"), n=len(c.attr(s, "snapshots")), ts=len(c.attr(s, "timestamps")))
    c.method(s, "snapshot")
    snaps = c.attr(s, "snapshots")
    c.ok(len(snaps) == before["n"] + 1 and len(c.attr(s, "snapshot_times")) == before["n"] + 1, "one-snapshot", "one snapshot and one time appended", key="one-snapshot")
    sn = snaps[-1]
    c.same(sn["t"], t, "snapshot-time", "time recorded in the snapshot", key="snapshot-time")
    c.same(c.attr(s, "snapshot_times")[-1], t, "snapshot-time", "entry in the list of snapshot times", key="snapshot-time")
    c.ok(tuple(sn["w"].shape) == (nv,) + n, "snapshot-shape", f"shape {sn['w'].shape}", key="snapshot-shape")
    R = reference(lf, dims, p, g, bcs, nv, fv, t)
    for cell in H.cells(dims, 1):
        for v in range(nv):
            c.same(sn["w"].elem((v,) + cell), R(v, *cell), "snapshot-state", f"snapshot[{v}] at {cell}, {dims} p={p} {bcs or 'periodic'} averages={fv}", key="snapshot-state")
        if lim:
            for k, name in zip(DIAG, NAMES):
                c.same(sn[k].elem(cell), N.leaf((name,) + cell), "snapshot-diagnostics", f"{k} at {cell}", key="snapshot-diagnostics")
    for a, d in enumerate("xyz"):
        for i in ((sym("i" + d), 0, n[a] - 1) if d in dims else (0,)):
            want = N.div(N.add(A.to_node(i), N.const(Fr(1, 2))), A.to_node(n[a]))
            c.same(sn[d].elem((i,)), want, "snapshot-coordinates", f"{d} coordinate {i}", key="snapshot-coordinates")
    # the simulation is untouched
    for cell in H.cells(dims, 1):
        for v in range(nv):
            c.same(U.elem((v,) + cell), lf((v,) + cell), "state-untouched", f"state[{v}] at {cell} after the snapshot", key="state-untouched")
            c.same(c.call(am, "u").elem((v,) + cell), lf((v,) + cell), "state-untouched", f"state[{v}] at {cell} after the snapshot", key="state-untouched")
        for name in NAMES:
            c.same(c.call(am, name).elem(cell), N.leaf((name,) + cell), "state-untouched", f"{name} at {cell} after the snapshot", key="state-untouched")
    c.same(c.attr(s, "t"), t, "state-untouched", "time after the snapshot", key="state-untouched")
    c.ok(c.attr(s, "step_count") == before["sc"] and c.attr(s, "f_evaluation_count") == before["fc"] and len(c.attr(s, "timestamps")) == before["ts"], "state-untouched", "counters after the snapshot", key="state-untouched")
    # later history
    rec = record(sn, dims, nv, lim)
    arrays = c.attr(am, "arrays")
    for k in list(arrays):
        a = arrays[k]
        a.setitem((slice(None),) * len(a.shape), A.from_fn(tuple(a.shape), (lambda k: lambda i: N.leaf(("later", k) + tuple(i), 1 if i and i[0] == 0 else None))(k), "f"))
    check_same(c, sn, rec, dims, nv, lim, "after the solver's arrays were overwritten")
    H.rhs(c, s, U)
    c.method(s, "snapshot")
    sn2 = c.attr(s, "snapshots")[-1]
    check_same(c, sn, rec, dims, nv, lim, "after an evaluation and a further snapshot")
    rec2 = record(sn2, dims, nv, lim)
    # two snapshots share nothing that can be written
    sn2["w"].setitem(full, N.leaf("junk"))
    if lim:
        for k in DIAG:
            sn2[k].setitem((slice(None),) * 3, N.leaf("junk"))
    check_same(c, sn, rec, dims, nv, lim, "after the next snapshot was overwritten")
    sn["w"].setitem(full, N.leaf("junk3"))
    for k in NAMES:
        x = c.call(am, k).elem(H.gidx(dims))
        c.ok(not any(lf.args[0] == "junk" for lf in N.leaves(x).values()), "state-untouched", f"{k} after a snapshot was overwritten", key="state-untouched")
    for cell in H.cells(dims, 1):
        x = U.elem((0,) + cell)
        c.ok(not any(lf.args[0] in ("junk", "junk3") for lf in N.leaves(x).values()), "state-untouched", "state after a snapshot was overwritten", key="state-untouched")


def history(c, p, lim, method="run"):
    """a short run: each snapshot belongs to its own state"""
    opts = dict(H.LIM, SED=False, NAD_mode="local") if lim else {}
    s, g = mk(c, "x", (p,), None, 5, True, opts)
    am = c.attr(s, "am")
    lf = H.uleaf()
    n = H.sizes("x")
    U = c.call(am, "u")
    U.setitem((slice(None),) * 4, A.from_fn((5,) + n, lf, "f"))
    c.method(s, method, n=1)
    sn = c.attr(s, "snapshots")
    c.ok(len(sn) == 2, "one-snapshot", f"snapshots before and after: {len(sn)}", key="one-snapshot")
    R0 = reference(lf, "x", (p,), g, None, 5, True, None)
    R1 = reference(lambda i: U.elem(tuple(i)), "x", (p,), g, None, 5, True, None)
    c.same(sn[0]["t"], N.ZERO, "snapshot-time", "time of the first snapshot", key="snapshot-time")
    c.same(sn[1]["t"], c.attr(s, "t"), "snapshot-time", "time of the second snapshot", key="snapshot-time")
    for cell in H.cells("x", 1):
        for v in range(5):
            c.same(sn[0]["w"].elem((v,) + cell), R0(v, *cell), "snapshot-frozen", f"initial snapshot[{v}] at {cell} after a step, p={p}", key="snapshot-frozen")
            c.same(sn[1]["w"].elem((v,) + cell), R1(v, *cell), "snapshot-state", f"final snapshot[{v}] at {cell}, p={p}", key="snapshot-state")
        if lim:
            c.same(sn[0]["trouble"].elem(cell), N.ZERO, "snapshot-diagnostics", f"no trouble recorded before the first step at {cell}", key="snapshot-diagnostics")
            for k, name in zip(DIAG, NAMES):
                c.same(sn[1][k].elem(cell), c.call(am, name).elem(cell), "snapshot-diagnostics", f"{k} of the step at {cell}", key="snapshot-diagnostics")


def helper(c):
    """the helper runs once per snapshot, after it was recorded"""
    seen = []
    it = c.interp()

    def hf(s):
        seen.append((len(s.attrs["snapshots"]), len(s.attrs["snapshot_times"]), s))

    s = H.solver(c, "x", 0, ic="leaf", riemann_solver="llf", snapshot_helper_function=I.Native("helper", hf))
    c.method(s, "snapshot")
    c.method(s, "snapshot")
    c.ok([x[:2] for x in seen] == [(1, 1), (2, 2)] and all(x[2] is s for x in seen), "helper", f"snapshot helper calls: {[x[:2] for x in seen]}", key="helper")


def cases(tier):
    out = []

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    for fv in (True, False):
        for p in (0, 1, 2, 3, 4):
            add(f"moment x p={p} averages={fv}", moment, dims="x", p=(p,), fv=fv, nv=6)
        for d in "yz":
            add(f"moment {d} p=3 averages={fv}", moment, dims=d, p=(3,), fv=fv)
        for dims in ("xy", "yz", "xz"):
            add(f"moment {dims} p=(1,2) averages={fv}", moment, dims=dims, p=(1, 2), fv=fv)
        add(f"moment xyz p=(1,0,1) averages={fv}", moment, dims="xyz", p=(1, 0, 1), fv=fv)
        for b in (("free", "reflective"), ("outflow", "dirichlet"), ("dirichlet", "free"), ("dirichlet", "dirichlet")):
            for d in "xyz":
                add(f"moment {d} p=2 {b} averages={fv}", moment, dims=d, p=(2,), bcs={d: b}, fv=fv, nv=6)
        add(f"moment x p=2 limited averages={fv}", moment, dims="x", p=(2,), fv=fv, SED=False, **H.LIM)
        add(f"moment yz p=(1,0) limited averages={fv}", moment, dims="yz", p=(1, 0), fv=fv, SED=False, slope_limiter=None, **H.LIM)
    add("moment xy p=(1,1) dirichlet", moment, dims="xy", p=(1, 1), bcs={"x": ("dirichlet", "free"), "y": ("periodic", "periodic")})
    for p in (0, 1):
        add(f"history p={p}", history, p=p, lim=False)
    add("history p=0 limited", history, p=0, lim=True)
    add("history p=1 limited euler", history, p=1, lim=True, method="euler")
    add("helper", helper)
    if tier == "thorough":
        add("moment xyz p=(2,2,2)", moment, dims="xyz", p=(2, 2, 2))
        add("history p=2", history, p=2, lim=False)
    return out
