"""C27: the one-dimensional reference solver is a consistent, conservative, limited scheme."""
from fractions import Fraction as Fr

import numpy as np

from checks.c15_trouble import _rnd0 as rnd
from checks.c16_fallback import reals
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym
from fvsa.libmods import node_trig

TITLE = "one-dimensional reference solver"
TECHNIQUE = "abstract interpretation to a value graph; conversions, fluxes, ghost cells, reconstructions and Runge-Kutta steps value-numbered against their definitions, limiter bounds in sampled ordered models"
EXPLANATION = (
    "Every function of the reference solver is interpreted on arbitrary arrays: conversions must be the ideal-gas formulas and inverse to each other, the physical and the LLF/HLLC "
    "fluxes those of the Euler equations, ghost cells the periodic image or the nearest cell, unlimited face values exact for polynomials of degree below the order, limited ones between the "
    "neighbouring cells and the mirror image for mirrored data, the flux through the first and last face of a periodic grid the same, and one step of each order the Runge-Kutta step of that "
    "order with the CFL time step. Initial states are evaluated at points on both sides of every documented discontinuity."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "comparisons of limiter and detector are interpreted in 96 sampled models per case"]
MOD = "romain_solver"


class Spread:
    def __init__(self, salt):
        self.salt = salt

    def __call__(self, n):
        if n.op == "leaf":
            r = rnd(self.salt, n.args[0])
            return r.random(N.L) + 0.5 if n.pos == 1 else 2 * r.random(N.L) - 1
        return None


def gam(c):
    return A.to_node(c.get(MOD, "gamma"))


def cells(n, tag="w"):
    pos = {0: 1, 2: 1}
    return A.from_fn((3, n), lambda i: N.leaf((tag,) + tuple(i), pos.get(i[0])), "f")


def w5(x):
    return [x[0], x[1], N.ZERO, N.ZERO, x[2]]


def convert(c):
    c.interp()
    n = sym("n")
    g = gam(c)
    W = cells(n)
    before = [W.elem((v, sym("i"))) for v in range(3)]
    U = c.call(c.get(MOD, "prim_to_cons"), W)
    F = c.call(c.get(MOD, "prim_to_flux"), W)
    back = c.call(c.get(MOD, "cons_to_prim"), U)
    X = cells(n, "u")
    P = c.call(c.get(MOD, "cons_to_prim"), X)
    again = c.call(c.get(MOD, "prim_to_cons"), P)
    w = w5(before)
    u, f = S.cons(w, g), S.flux(w, g, 0)
    i = sym("i")
    for v, k in enumerate((0, 1, 4)):
        c.same(U.elem((v, i)), u[k], "conserved", f"conserved variable {v}", key="conserved")
        c.same(F.elem((v, i)), f[k], "flux", f"physical flux {v}", key="flux")
        c.same(back.elem((v, i)), before[v], "inverse", f"primitive {v} after conversion and back", key="inverse")
        c.same(again.elem((v, i)), X.elem((v, i)), "inverse", f"conserved variable {v} after conversion and back", key="inverse")
        c.same(W.elem((v, i)), before[v], "input", f"input row {v} after conversion", key="input")


def riemann(c, rs):
    c.interp()
    g = gam(c)
    f = c.get(MOD, rs)
    n = sym("n")
    L, R = cells(n, "l"), cells(n, "r")
    i = sym("i")
    l, r = [w5([X.elem((v, i)) for v in range(3)]) for X in (L, R)]
    floor = N.ZERO
    got = c.call(f, L, R)
    req = S.RIEMANN[rs](l, r, g, 0, floor)
    same = c.call(f, L, cells(n, "l"))
    phys = S.flux(l, g, 0)
    for v, k in enumerate((0, 1, 4)):
        c.same(got.elem((v, i)), req[k], "two-state-flux", f"{rs} flux {v}", key="two-state-flux")
        c.same(same.elem((v, i)), phys[k], "consistency", f"{rs} flux {v} of equal states", key="consistency")


def ghosts(c, kind):
    c.interp()
    n = sym("n")
    U = cells(n, "u")
    lf = lambda v, i: N.leaf(("u", v, i), {0: 1, 2: 1}.get(v))
    c.call(c.get(MOD, "set_bc"), U, kind)
    for v in range(3):
        c.same(U.elem((v, sym("i"))), lf(v, sym("i")), "interior", f"{kind}: interior cell", key="interior")
        for k in range(4):
            lo = lf(v, n - 8 + k) if kind == "periodic" else lf(v, 4)
            hi = lf(v, 4 + k) if kind == "periodic" else lf(v, n - 5)
            c.same(U.elem((v, k)), lo, "ghost", f"{kind}: left ghost cell {k}", key="ghost")
            c.same(U.elem((v, n - 4 + k)), hi, "ghost", f"{kind}: right ghost cell {k}", key="ghost")


def exact(c, space):
    """unlimited face values of the averages of a polynomial of degree < space"""
    c.interp()
    m = 11
    mid = 5
    co = [N.leaf(("c", k)) for k in range(space)]

    def avg(j):
        t = N.ZERO
        for k, a in enumerate(co):
            t = N.add(t, N.mul(a, N.const(S.cell_moment(j - mid, k))))
        return t

    def val(x):
        t = N.ZERO
        for k, a in enumerate(co):
            t = N.add(t, N.mul(a, N.const(Fr(x) ** k)))
        return t

    U = A.from_fn((3, m), lambda i: avg(i[1]), "f")
    one = A.from_fn((3, m), lambda i: N.ONE, "f")
    hi, lo = c.call(c.get(MOD, "trace"), U, one, space=space)
    c.ok(tuple(lo.shape) == tuple(hi.shape) == (3, m - 6), "shape", f"order {space}: shapes {lo.shape}, {hi.shape}", key="shape")
    for v in range(3):
        for j in range(m - 6):
            x = j + 3 - mid
            c.same(hi.elem((v, j)), val(x + Fr(1, 2)), "exact-face", f"order {space}: right face of cell {j + 3}", key="exact-face")
            c.same(lo.elem((v, j)), val(x - Fr(1, 2)), "exact-face", f"order {space}: left face of cell {j + 3}", key="exact-face")


def limited(c, space, smooth):
    """limited face values: bounds, mirror image, and untouched smooth extrema"""
    c.interp()
    N.set_model(Spread((space, smooth)))
    f = c.get(MOD, "trace")
    m = 11
    U = A.from_fn((3, m), lambda i: N.leaf(("q",) + tuple(i)), "f")
    V = A.from_fn((3, m), lambda i: N.leaf(("q", i[0], m - 1 - i[1])), "f")
    # smooth = position (relative) of the only cell where the detector is below one
    al = lambda flip: A.from_fn((3, m), lambda i: N.leaf(("a", i[0]), 1) if (m - 1 - i[1] if flip else i[1]) == 5 + smooth else N.ONE, "f")
    half = N.const(Fr(1, 2))
    al2 = lambda flip: A.from_fn((3, m), lambda i: half if (m - 1 - i[1] if flip else i[1]) == 5 + smooth else N.ONE, "f")
    hi, lo = c.call(f, U, al2(False), space=space)
    hi2, lo2 = c.call(f, V, al2(True), space=space)
    fh, fl = c.call(f, U, A.from_fn((3, m), lambda i: N.ONE, "f"), space=space)
    for v in range(3):
        for j in range(m - 6):
            k = m - 7 - j
            c.same(lo2.elem((v, k)), hi.elem((v, j)), "mirror", f"order {space}: left face of the mirrored cell {j + 3}", key="mirror")
            c.same(hi2.elem((v, k)), lo.elem((v, j)), "mirror", f"order {space}: right face of the mirrored cell {j + 3}", key="mirror")
            if abs(j + 3 - 5 - smooth) > 1 or space == 1:
                c.same(hi.elem((v, j)), fh.elem((v, j)), "smooth", f"order {space}: right face of cell {j + 3} next to smooth cells only", key="smooth")
                c.same(lo.elem((v, j)), fl.elem((v, j)), "smooth", f"order {space}: left face of cell {j + 3} next to smooth cells only", key="smooth")
            else:
                q = [reals(U.elem((v, j + 3 + e))) for e in (-1, 0, 1)]
                top, bot = np.max(q, axis=0), np.min(q, axis=0)
                dh, dl = reals(fh.elem((v, j))) - q[1], reals(fl.elem((v, j))) - q[1]
                for what, o, d in (("right", hi, dh), ("left", lo, dl)):
                    x = reals(o.elem((v, j)))
                    bad = np.nonzero((x > top + 1e-12) | (x < bot - 1e-12))[0]
                    c.ok(not len(bad), "no-new-extrema", f"order {space}: limited {what} face of cell {j + 3} leaves the range of its neighbours", o.elem((v, j)).site, "no-new-extrema")
                    th = (x - q[1]) / np.where(d == 0, 1, d)
                    bad = np.nonzero((d != 0) & ((th < -1e-12) | (th > 1 + 1e-12)))[0]
                    c.ok(not len(bad), "limited-part", f"order {space}: limited {what} face of cell {j + 3} is not between the cell value and the unlimited face value", o.elem((v, j)).site, "limited-part")
                a, b = reals(hi.elem((v, j))) - q[1], reals(lo.elem((v, j))) - q[1]
                bad = np.nonzero(np.abs(a * dl - b * dh) > 1e-12)[0]
                c.ok(not len(bad), "one-factor", f"order {space}: the faces of cell {j + 3} are limited by different factors", hi.elem((v, j)).site, "one-factor")
                # the factor is the largest that keeps the reconstructed values (faces, and the centre from order three on) in range
                pts = [dh, dl]
                if space > 2:
                    wt = S.interp_weights(2 if space < 5 else 4, "c")
                    pts.append(sum(float(x) * reals(U.elem((v, j + 3 + e))) for e, x in wt.items()) - q[1])
                with np.errstate(divide="ignore"):
                    th = np.minimum(1, np.minimum((top - q[1]) / np.max(pts, axis=0), (q[1] - bot) / -np.min(pts, axis=0)))
                bad = np.nonzero(np.abs(a - th * dh) + np.abs(b - th * dl) > 1e-9)[0]
                c.ok(not len(bad), "limiter", f"order {space}: the limiting factor of cell {j + 3} is not the largest one that keeps its values in range", hi.elem((v, j)).site, "limiter")


def detector(c, kind):
    c.interp()
    N.set_model(Spread(("sed", kind)))
    f = c.get(MOD, "smooth_extrema")
    m = 18
    q = lambda v, i: N.leaf(("q", v, i))
    U = A.from_fn((3, m), lambda i: q(*i), "f")
    al = c.call(f, U, kind)
    c.ok(tuple(al.shape) == (3, m), "shape", f"detector shape {al.shape}", key="shape")
    for v in range(3):
        r = lambda i: reals(q(v, i))
        d = {i: 0.5 * (r(i + 1) - r(i - 1)) for i in range(4, m - 4)}
        # the slopes of the ghost cells are those of the boundary condition
        d[3], d[m - 4] = (d[m - 5], d[4]) if kind == "periodic" else (d[4], d[m - 5])
        for i in range(4, m - 4):
            l, h = d[i] - d[i - 1], d[i + 1] - d[i]
            mid = 0.5 * (l + h)
            want = np.minimum(np.minimum(1, np.maximum(0, 2 * l / mid)), np.minimum(1, np.maximum(0, 2 * h / mid)))
            got = reals(al.elem((v, i)))
            bad = np.nonzero(np.abs(got - want) > 1e-9)[0]
            c.ok(not len(bad), "detector", f"smooth-extremum marker of cell {i}: {got[bad[0]] if len(bad) else ''} instead of {want[bad[0]] if len(bad) else ''}", al.elem((v, i)).site, "detector")
        for k in range(4):
            c.same(al.elem((v, k)), al.elem((v, m - 8 + k if kind == "periodic" else 4)), "detector-ghost", f"marker of left ghost cell {k}", key="detector-ghost")
            c.same(al.elem((v, m - 4 + k)), al.elem((v, 4 + k if kind == "periodic" else m - 5)), "detector-ghost", f"marker of right ghost cell {k}", key="detector-ghost")
    # data of one sign of curvature, and linear data, are smooth
    lin = A.from_fn((3, m), lambda i: N.add(N.leaf("a"), N.mul(N.leaf("b"), N.const(i[1] if kind == "free" else 0))), "f")
    al = c.call(f, lin, kind)
    for i in range(6, m - 6):
        c.same(al.elem((0, i)), N.ONE, "linear", f"marker of linear data in cell {i}", key="linear")
    a = N.leaf("a"), N.leaf("b"), N.leaf("c")
    P = A.from_fn((3, m), lambda i: N.add(a[0], N.add(N.mul(a[1], N.const(i[1])), N.mul(a[2], N.const(i[1] ** 2)))), "f")
    if kind == "free":
        al = c.call(f, P, kind)
        for i in range(6, m - 6):
            got = reals(al.elem((0, i)))
            c.ok(bool(np.all(got >= 1 - 1e-9)), "parabola", f"a parabola is not recognised as smooth in cell {i}", al.elem((0, i)).site, "parabola")


def flux(c, kind, rs, space):
    c.interp()
    N.set_model(Spread((kind, rs, space)))
    g = gam(c)
    m = 16
    W0 = cells(m, "w")
    wl = lambda i: w5([W0.elem((v, i)) for v in range(3)])
    cons = lambda v, i: S.cons(wl(i), g)[(0, 1, 4)[v]]
    U = A.from_fn((3, m), lambda i: cons(*i), "f")
    f, w, cs = c.call(c.get(MOD, "cmp_flux"), U, bc_type=kind, riemann_solver=rs, space=space)
    c.ok(tuple(f.shape) == (3, m - 7), "shape", f"flux shape {f.shape}", key="shape")
    for v in range(3):
        if kind == "periodic":
            c.same(f.elem((v, 0)), f.elem((v, m - 8)), "seam", f"{rs} order {space}: flux {v} through the first and the last face", key="seam")
        for i in range(4, m - 4):
            c.same(U.elem((v, i)), cons(v, i), "interior", f"state after the flux evaluation, cell {i}", key="interior")
    if space == 1:
        for j in range(1, m - 8):
            l, r = wl(j + 3), wl(j + 4)
            req = S.RIEMANN[rs](l, r, g, 0, N.ZERO)
            for v, k in enumerate((0, 1, 4)):
                c.same(f.elem((v, j)), req[k], "face-flux", f"{rs}: first-order flux {v} through face {j}", key="face-flux")
    for i in range(4, m - 4):
        p = wl(i)
        c.same(cs.elem((i,)), S.sound(p, g, N.ZERO), "sound", f"sound speed of cell {i}", key="sound")
        for v, k in enumerate((0, 1, 4)):
            c.same(w.elem((v, i)), p[k], "primitive", f"primitive {v} of cell {i}", key="primitive")
    # uniform flow
    X = [N.leaf("r", 1), N.leaf("v"), N.leaf("p", 1)]
    u0 = S.cons(w5(X), g)
    ph = S.flux(w5(X), g, 0)
    u3 = [u0[0], u0[1], u0[4]]
    f, _, _ = c.call(c.get(MOD, "cmp_flux"), A.from_fn((3, m), lambda i: u3[i[0]], "f"), bc_type=kind, riemann_solver=rs, space=space)
    for v, k in enumerate((0, 1, 4)):
        for j in (0, 4, m - 8):
            c.same(f.elem((v, j)), ph[k], "uniform", f"{rs} order {space}: flux {v} of a uniform flow", key="uniform")


TAB = {
    1: ([], [1]),
    2: ([[Fr(1, 2)]], [0, 1]),
    3: ([[Fr(1, 3)], [0, Fr(2, 3)]], [Fr(1, 4), 0, Fr(3, 4)]),
    4: ([[Fr(1, 2)], [0, Fr(1, 2)], [0, 0, 1]], [Fr(1, 6), Fr(1, 3), Fr(1, 3), Fr(1, 6)]),
}


def order(a, b, q):
    """Runge-Kutta order conditions of an autonomous system up to q"""
    s = len(b)
    A_ = [[Fr(x) for x in row] + [Fr(0)] * (s - len(row)) for row in [[]] + a]
    cc = [sum(r) for r in A_]
    dot = lambda x: sum(p * y for p, y in zip(b, x))
    mv = lambda x: [sum(p * y for p, y in zip(r, x)) for r in A_]
    conds = [(1, dot([1] * s), 1), (2, dot(cc), Fr(1, 2)), (3, dot([x * x for x in cc]), Fr(1, 3)), (3, dot(mv(cc)), Fr(1, 6)),
             (4, dot([x ** 3 for x in cc]), Fr(1, 4)), (4, dot([x * y for x, y in zip(cc, mv(cc))]), Fr(1, 8)), (4, dot(mv([x * x for x in cc])), Fr(1, 12)), (4, dot(mv(mv(cc))), Fr(1, 24))]
    return [(k, got, want) for k, got, want in conds if k <= q and got != want]


def step(c, time):
    """one step with an opaque flux: the Butcher tableau is read off the value graph"""
    it = c.interp()
    mod = c.mod(MOD)
    n = 5
    h = Fr(1, n)
    calls = []
    u0 = lambda v, i: N.leaf(("u0", v, i))
    mesh = []

    def set_ic(x, ic_type=None):
        mesh.append(([x.elem((i,)) for i in range(n)], ic_type))
        return A.from_fn((3, n), lambda i: u0(*i), "f")

    mod.ns["set_ic"] = I.Native("set_ic", set_ic)

    def cmp_flux(u, bc_type=None, riemann_solver=None, space=None):
        k = len(calls)
        calls.append(([[u.elem((v, 4 + i)) for i in range(n)] for v in range(3)], bc_type, riemann_solver, space))
        W = A.from_fn((3, n + 8), lambda i: N.leaf(("w", k) + tuple(i)), "f")
        C = A.from_fn((n + 8,), lambda i: N.leaf(("c", k) + tuple(i), 1), "f")
        F = A.from_fn((3, n + 1), lambda i: N.leaf(("F", k) + tuple(i)), "f")
        return F, W, C

    mod.ns["cmp_flux"] = I.Native("cmp_flux", cmp_flux)
    first = []

    def oracle(x):
        first.append(x)
        return len(first) == 1 and not calls

    it.oracle = oracle
    cfl, tend = N.leaf("cfl", 1), N.leaf("tend", 1)
    out = c.call(c.get(MOD, "weno"), tend=tend, n=n, cfl=cfl, ic_type="sod test", bc_type="free", riemann_solver="hllc", time=time, space=3)
    c.ok(tuple(out.shape) == (2, 3, n), "history", f"order {time}: one step returns shape {out.shape}", key="history")
    c.ok(len(mesh) == 1 and mesh[0][1] == "sod test", "initial-call", f"order {time}: initial state requested {[q[1] for q in mesh]}", key="initial-call")
    for i in range(n):
        c.same(mesh[0][0][i], N.const(Fr(2 * i + 1, 2 * n)), "centres", f"order {time}: position of cell {i}", key="centres")
    c.ok(len(calls) == time, "stages", f"order {time}: {len(calls)} flux evaluations", key="stages")
    c.ok(all(x[1:] == ("free", "hllc", 3) for x in calls), "options", f"order {time}: flux evaluated with {[x[1:] for x in calls]}", key="options")
    mx = N.nary("max", tuple(N.add(N.absolute(N.leaf(("w", 0, 1, i))), N.leaf(("c", 0, i), 1)) for i in range(n + 8)))
    dt = N.div(N.mul(cfl, N.const(h)), mx)
    k = lambda s, v, i: N.div(N.sub(N.leaf(("F", s, v, i)), N.leaf(("F", s, v, i + 1))), N.const(h))
    a, b = TAB[time]
    c.ok(not order(a, b, time), "order-conditions", f"order {time}: tableau violates {order(a, b, time)}", key="order")

    def comb(row, v, i):
        t = u0(v, i)
        for s, x in enumerate(row):
            t = N.add(t, N.mul(N.mul(N.const(Fr(x)), dt), k(s, v, i)))
        return t

    for v in range(3):
        for i in range(n):
            c.same(out.elem((0, v, i)), u0(v, i), "history", f"order {time}: stored initial state", key="history")
            for s, (args, *_r) in enumerate(calls):
                c.same(args[v][i], comb(a[s - 1] if s else [], v, i), "stage", f"order {time}: state of stage {s + 1}, variable {v}, cell {i}", key="stage")
            c.same(out.elem((1, v, i)), comb(b, v, i), "step", f"order {time}: new state, variable {v}, cell {i}", key="step")


STATES = {
    # documented shock tubes: position of the discontinuity, left and right state
    "sod test": (Fr(1, 2), (1, 0, 1), (Fr(1, 8), 0, Fr(1, 10))),
    "toro test1": (Fr(3, 10), (1, Fr(3, 4), 1), (Fr(1, 8), 0, Fr(1, 10))),
    "toro test2": (Fr(1, 2), (1, -2, Fr(2, 5)), (1, 2, Fr(2, 5))),
    "toro test3": (Fr(1, 2), (1, 0, 1000), (1, 0, Fr(1, 100))),
}


def initial(c, kind):
    c.interp()
    g = gam(c)
    x0, L, R = STATES[kind]
    xs = [Fr(1, 100), x0 - Fr(1, 1000), x0 + Fr(1, 1000), Fr(99, 100)]
    U = c.call(c.get(MOD, "set_ic"), A.from_fn((len(xs),), lambda i: N.const(xs[i[0]]), "f"), kind)
    for j, x in enumerate(xs):
        w = [N.const(Fr(q)) for q in (L if x < x0 else R)]
        u = S.cons(w5(w), g)
        for v, k in enumerate((0, 1, 4)):
            c.same(U.elem((v, j)), u[k], "initial", f"{kind}: variable {v} at x = {x}", key="initial")


def blast(c, n):
    """one unit of energy in two neighbouring cells at the middle, background elsewhere"""
    c.interp()
    g = gam(c)
    U = c.call(c.get(MOD, "set_ic"), A.from_fn((n,), lambda i: N.const(Fr(2 * i[0] + 1, 2 * n)), "f"), "sedov")
    bg, hot = (S.cons(w5([N.ONE, N.ZERO, p]), g) for p in (N.const(Fr(1, 100000)), N.mul(N.const(Fr(n, 2)), N.sub(g, N.ONE))))
    at = []
    for i in range(n):
        u = [U.elem((v, i)) for v in range(3)]
        ins = N.equal(u[2], hot[4]) if hasattr(N, "equal") else u[2].id == hot[4].id or bool((u[2].fp == hot[4].fp).all())
        if ins:
            at.append(i)
        for v, k in enumerate((0, 1, 4)):
            c.same(u[v], (hot if ins else bg)[k], "initial", f"sedov: variable {v} of cell {i} of {n}", key="initial")
    c.ok(len(at) == 2 and at[1] == at[0] + 1 and n // 2 in at, "initial", f"sedov: energy deposited in cells {at} of {n}", key="initial")


def regions(c, kind):
    c.interp()
    g = gam(c)
    xs = [Fr(1, 20), Fr(9, 100), Fr(11, 100), Fr(39, 100), Fr(41, 100), Fr(1, 2), Fr(59, 100), Fr(61, 100), Fr(19, 20)]
    U = c.call(c.get(MOD, "set_ic"), A.from_fn((len(xs),), lambda i: N.const(xs[i[0]]), "f"), kind)
    K = lambda *q: [N.const(Fr(str(x))) for x in q]
    for j, x in enumerate(xs):
        if kind == "shu osher":
            if x < Fr(1, 10):
                w = K("3.857143", "2.629369", "10.33333")
            else:
                w = [N.add(N.ONE, N.mul(N.const(Fr(1, 5)), node_trig("sin")(N.const(5 * (10 * x - 5))))), N.ZERO, N.ONE]
        else:
            inside = Fr(2, 5) < x < Fr(3, 5)
            w = [N.const(10), N.mul(N.const(3), N.sqrt(N.const(Fr(50, 3)))), N.ONE] if inside else K("0.1", 0, 1)
        u = S.cons(w5(w), g)
        for v, k in enumerate((0, 1, 4)):
            c.same(U.elem((v, j)), u[k], "initial", f"{kind}: variable {v} at x = {x}", key="initial")


def cases(tier):
    out = [("conversions", convert, {})]
    for rs in ("llf", "hllc"):
        out.append((f"riemann {rs}", riemann, dict(rs=rs)))
    for kind in ("periodic", "free"):
        out.append((f"ghosts {kind}", ghosts, dict(kind=kind)))
        out.append((f"detector {kind}", detector, dict(kind=kind)))
        for rs in ("llf", "hllc"):
            for space in range(1, 6):
                out.append((f"flux {kind} {rs} order {space}", flux, dict(kind=kind, rs=rs, space=space)))
    for space in range(1, 6):
        out.append((f"exact order {space}", exact, dict(space=space)))
        for smooth in (-1, 0, 1):
            out.append((f"limited order {space} at {smooth}", limited, dict(space=space, smooth=smooth)))
    for time in range(1, 5):
        out.append((f"step order {time}", step, dict(time=time)))
    for kind in STATES:
        out.append((f"initial {kind}", initial, dict(kind=kind)))
    for n in (8, 9, 10):
        out.append((f"initial sedov {n} cells", blast, dict(n=n)))
    for kind in ("shu osher", "supersonic blob"):
        out.append((f"initial {kind}", regions, dict(kind=kind)))
    return out
