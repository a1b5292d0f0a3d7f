"""C08: Riemann solvers."""
import numpy as np

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S

TITLE = "Riemann solvers"
TECHNIQUE = "abstract interpretation to value graphs; identity with the reference two-state fluxes and with the consistency, supersonic, contact and rotation identities by value numbering under all orderings of the wave speeds"
EXPLANATION = (
    "Each Riemann solver is interpreted on arbitrary left and right states (positive density and pressure, arbitrary velocities and passive scalars, "
    "arbitrary gamma and sound-speed floor), in each direction and with 0, 1 and 2 passive scalars. Its flux must value-number to the reference flux, "
    "to the physical flux when both states agree, to the upwind physical flux when all waves run one way, and to the pure pressure flux at a stationary "
    "contact; left and right inputs must not be written to. The solver's option table must map each name to the flux of that name."
)
ASSUMPTIONS = [
    "real arithmetic (no rounding)",
    "comparison outcomes are abstracted to sign vectors; the wave speeds are constrained to their possible orders left <= contact <= right",
    "exact ties (zero speed) only where the clause says so",
    "equality of value graphs is decided by 96-lane random fingerprints",
]
RS = ("llf", "hllc", "advection_upwind")


def setup(c, nv):
    c.interp()
    HS = c.get("hydro", "HydroState")
    hs = c.call(HS, passive_scalars=tuple(f"s{k}" for k in range(nv - 5)))
    return hs, N.add(N.ONE, N.leaf("gm1", 1)), N.leaf("floor", 1)


def states(nv, names="lr"):
    return [[N.leaf((s, v), 1 if v in (0, 4) else None) for v in range(nv)] for s in names]


def arr(w, n=3):
    """a row of n interfaces; the interface index is part of nothing: same problem everywhere"""
    return A.from_fn((len(w), n, 1, 2), lambda i: w[i[0]], "f")


def flux(c, rs, hs, wl, wr, g, fl, d):
    f = c.get("riemann_solvers", rs)
    L, R = arr(wl), arr(wr)
    F = c.call(f, hs=hs, riemann_problem=(L, R), gamma=g, dim=d, csq_floor=fl)
    c.ok(tuple(F.shape) == tuple(L.shape), "flux-shape", f"{rs}: flux shape {F.shape}", key="flux-shape")
    for v in range(len(wl)):
        c.same(L.elem((v, 1, 0, 1)), wl[v], "input-unchanged", f"{rs}: left state after the call", key="input-unchanged")
        c.same(R.elem((v, 1, 0, 1)), wr[v], "input-unchanged", f"{rs}: right state after the call", key="input-unchanged")
    return [F.elem((v, 1, 0, 1)) for v in range(len(wl))]


def reference(c, rs, d, nv):
    hs, g, fl = setup(c, nv)
    wl, wr = states(nv)
    a = "xyz".index(d)
    if rs == "advection_upwind":
        wr[1 + a] = wl[1 + a]
    if rs == "hllc":
        N.assume_ordered(S.hllc_speeds(wl, wr, g, a, fl))
    F = flux(c, rs, hs, wl, wr, g, fl, d)
    R = S.RIEMANN[rs](wl, wr, g, a, fl)
    for v in range(nv):
        c.same(F[v], R[v], "two-state-flux", f"{rs} {d}-flux[{v}]", key="two-state-flux")


def consistency(c, rs, d, nv):
    hs, g, fl = setup(c, nv)
    (w,) = states(nv, "l")
    a = "xyz".index(d)
    F = flux(c, rs, hs, w, list(w), g, fl, d)
    P = S.flux(w, g, a, rs != "advection_upwind")
    for v in range(nv):
        c.same(F[v], P[v], "consistency", f"{rs} {d}-flux[{v}] of equal states vs the physical flux", key="consistency")


def supersonic(c, rs, d, nv, way):
    """all waves run to one side"""
    hs, g, fl = setup(c, nv)
    wl, wr = states(nv)
    a = "xyz".index(d)
    cm = N.nary("max", (S.sound(wl, g, fl), S.sound(wr, g, fl)))
    e = N.leaf("excess", 1)
    f2 = N.leaf("excess2", 1)
    for w, x in ((wl, e), (wr, f2)):
        v = N.add(cm, x)
        w[1 + a] = v if way == "right" else N.neg(v)
    if rs == "advection_upwind":
        wr[1 + a] = wl[1 + a]
    if rs == "hllc":
        sp = S.hllc_speeds(wl, wr, g, a, fl)
        one = 1 if way == "right" else -1
        for x in sp:
            N.set_sign(x, np.full(N.L, one))
    F = flux(c, rs, hs, wl, wr, g, fl, d)
    P = S.flux(wl if way == "right" else wr, g, a, rs != "advection_upwind")
    for v in range(nv):
        c.same(F[v], P[v], "supersonic", f"{rs} {d}-flux[{v}], all waves running {way}", key="supersonic")


def contact(c, d, nv):
    """a stationary contact is exactly steady"""
    hs, g, fl = setup(c, nv)
    wl, wr = states(nv)
    a = "xyz".index(d)
    wr[4] = wl[4]
    wl[1 + a] = wr[1 + a] = N.ZERO
    F = flux(c, "hllc", hs, wl, wr, g, fl, d)
    for v in range(nv):
        c.same(F[v], wl[4] if v == 1 + a else N.ZERO, "contact", f"hllc {d}-flux[{v}] at a stationary contact", key="contact")


def moving_contact(c, d, nv, way):
    """equal normal velocity and pressure: the contact moves with the flow, fluxes come from its upwind side"""
    hs, g, fl = setup(c, nv)
    wl, wr = states(nv)
    a = "xyz".index(d)
    wr[4] = wl[4]
    s = N.leaf("speed", 1)
    v0 = s if way == "right" else N.neg(s)
    wl[1 + a] = wr[1 + a] = v0
    # the outer wave on the upwind side keeps its free sign: subsonic and supersonic motion
    F = flux(c, "hllc", hs, wl, wr, g, fl, d)
    P = S.flux(wl if way == "right" else wr, g, a)
    for v in range(nv):
        c.same(F[v], P[v], "moving-contact", f"hllc {d}-flux[{v}] at a contact moving {way}", key="moving-contact")


def rest(c, rs, d, nv):
    """equal states at rest: only pressure acts"""
    hs, g, fl = setup(c, nv)
    (w,) = states(nv, "l")
    a = "xyz".index(d)
    w[1 + a] = N.ZERO
    F = flux(c, rs, hs, w, list(w), g, fl, d)
    for v in range(nv):
        want = w[4] if v == 1 + a and rs != "advection_upwind" else N.ZERO
        c.same(F[v], want, "rest", f"{rs} {d}-flux[{v}] of gas at rest", key="rest")


def selected(c, rs, d):
    """the option picks the flux of that name"""
    c.interp()
    E = H.solver(c, d, 0, riemann_solver=rs, gamma=N.add(N.ONE, N.leaf("gm1", 1)), csq_floor=N.leaf("floor", 1))
    n = H.sizes(d)
    lf = H.uleaf()
    _, du = H.rhs(c, E, A.from_fn((5,) + n, lf, "f"))
    g = N.add(N.ONE, N.leaf("gm1", 1))
    F = S.faces(S.periodic(lf, d, n), d, [0, 0, 0], g, rs, N.leaf("floor", 1))
    R = S.divergence(F, S.spacing(n))
    cell = H.gidx(d)
    for v in range(5):
        c.same(du.elem((v,) + cell), R(v, *cell), "option", f"du/dt[{v}] with riemann_solver={rs!r}, p=0", key="option")


def cases(tier):
    out = []
    for rs in RS:
        for d in "xyz":
            for nv in (5, 6, 7):
                out.append((f"reference {rs} {d} nv={nv}", reference, dict(rs=rs, d=d, nv=nv)))
                out.append((f"consistency {rs} {d} nv={nv}", consistency, dict(rs=rs, d=d, nv=nv)))
            out.append((f"rest {rs} {d}", rest, dict(rs=rs, d=d, nv=6)))
            out.append((f"option {rs} {d}", selected, dict(rs=rs, d=d)))
    for d in "xyz":
        for way in ("right", "left"):
            for rs in ("hllc", "advection_upwind"):
                out.append((f"supersonic {rs} {d} {way}", supersonic, dict(rs=rs, d=d, nv=6, way=way)))
            out.append((f"moving contact {d} {way}", moving_contact, dict(d=d, nv=7, way=way)))
        out.append((f"contact {d}", contact, dict(d=d, nv=7)))
    return out
