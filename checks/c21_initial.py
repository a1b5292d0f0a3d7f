"""C21: library initial conditions are the documented states."""
from itertools import combinations, product

import numpy as np

from checks.c15_trouble import _rnd0 as rnd
from checks.c16_fallback import reals
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa.aff import sym

TITLE = "library initial conditions"
TECHNIQUE = "abstract interpretation to a value graph with symbolic coordinates and parameters; resulting terms compared with the documented formulas in sampled real models concentrated at the region boundaries; alias/written-to analysis of the arguments"
EXPLANATION = (
    "Each library initial condition is interpreted on a mesh with arbitrary coordinates and symbolic parameters, for every direction and combination of directions: the term of each primitive variable must agree with the "
    "documented formula in all sampled models of coordinates and parameters (half of the points close to region boundaries), and be positive for density and pressure. Coordinates must stay unmodified, results of two calls must not share storage, "
    "passive scalars must occupy their own rows, and unknown directions or modes, centres of the wrong length and empty cubes must be rejected. Default parameters are those of the documented test problems."
)
ASSUMPTIONS = ["equality of terms is decided at 96 sampled points per case and salt, to 1e-9 relative", "points exactly on a region boundary are not constrained"]
DIMS = ["x", "y", "z", "xy", "yz", "xz", "xyz"]


class Real:
    """sampled coordinates and parameters"""

    def __init__(self, salt, crit, extra=None):
        self.salt, self.crit, self.extra = salt, crit, extra or {}

    def __call__(self, n):
        if n.op != "leaf":
            return None
        nm = n.args[0]
        if nm == "pi":
            return np.pi + np.zeros(N.L)
        r = rnd(self.salt, nm)
        if isinstance(nm, tuple) and nm[0] == "X":
            d = nm[1]
            u = self.extra.get("lo", -0.5) + (self.extra.get("hi", 1.5) - self.extra.get("lo", -0.5)) * r.random(N.L)
            cs = self.crit.get(d) or self.crit.get("*")
            if cs is not None:
                pick = np.choose(r.integers(0, len(cs), N.L), cs)
                u = np.where(r.random(N.L) < 0.5, u, pick + 0.03 * (r.random(N.L) - 0.5))
            return u
        if n.pos == 1:
            return 0.2 + r.random(N.L)
        return 2 * r.random(N.L) - 1


def call(c, cls, params, shape=None, coords=None, **kw):
    C = c.get("initial_conditions", cls)
    o = c.it.instantiate(C, [], params)
    hs = c.call(c.get("hydro", "HydroState"), **kw.get("hs", {}))
    f = c.method(o, "build_ic", hs, *kw.get("more", []))
    shape = shape or tuple(sym("n" + d) for d in "xyz")
    X = coords or [A.from_fn(shape, (lambda d: lambda i: N.leaf(("X", d) + tuple(i)))(d), "f") for d in "xyz"]
    return f, X, c.it.call(f, [], dict(x=X[0], y=X[1], z=X[2]))


def state(c, out, want, cell, what, nv=5):
    for v in range(nv):
        n = out.elem((v,) + cell)
        got = reals(n)
        w = want[v] + np.zeros(N.L)
        bad = np.nonzero(~(np.abs(got - w) <= 1e-9 * np.maximum(np.abs(w), 1e-2)))[0]
        c.ok(not len(bad), "documented-state", f"{what}: variable {('rho', 'vx', 'vy', 'vz', 'P')[v] if v < 5 else v} is {[(float(got[k]), float(w[k])) for k in bad[:1]]} (computed, documented)", n.site, "documented-state")
        if v in (0, 4):
            c.ok((got > 0).all(), "positive", f"{what}: positive {'density' if v == 0 else 'pressure'}", n.site, "positive")


def check(c, cls, params, spec, crit, what, salts=3, extra=None):
    for salt in range(salts):
        c.interp()
        N.reset()
        A._affnode.clear()
        P = params()
        cr = crit(P) if callable(crit) else crit
        m = Real(salt, {}, extra)
        N.set_model(m)
        m.crit = {k: [(float(q) + np.zeros(N.L)) if isinstance(q, (int, float)) else reals(A.to_node(q)) for q in v] for k, v in cr.items()}
        shape = tuple(sym("n" + d) for d in "xyz")
        f, X, out = call(c, cls, P)
        c.ok(tuple(out.shape) == (5,) + shape, "shape", f"{what}: shape {out.shape}", key="shape")
        cell = H.gidx("xyz")
        xyz = [reals(x.elem(cell)) for x in X]
        want = spec(P, *xyz)
        state(c, out, want, cell, what)
        keep = [out.elem((v,) + cell) for v in range(5)]
        for a, d in enumerate("xyz"):
            c.same(X[a].elem(cell), N.leaf(("X", d) + cell), "coordinates-untouched", f"{what}: {d} after evaluation", key="coordinates-untouched")
        out2 = c.it.call(f, [], dict(x=X[0], y=X[1], z=X[2]))
        for v in range(5):
            c.same(out2.elem((v,) + cell), keep[v], "repeatable", f"{what}: second evaluation", key="repeatable")
        out2.setitem((slice(None),) * 4, N.leaf("junk"))
        for v in range(5):
            c.same(out.elem((v,) + cell), keep[v], "own-storage", f"{what}: earlier result after overwriting a later one", key="own-storage")


def L(name, pos=1):
    return N.leaf(name, pos)


def r_(x):
    return reals(A.to_node(x))


def sel(dims, xyz):
    return [q for d, q in zip("xyz", xyz) if d in dims]


# ------------------------------------------------------------------ the documented states
def sinus(c, dims):
    P = lambda: dict(dims=dims, rho_min_max=(L("r0"), N.add(L("r0"), L("dr"))), P=L("P"), vx=L("vx", None), vy=L("vy", None), vz=L("vz", None))

    def spec(p, *xyz):
        lo, hi = (r_(q) for q in p["rho_min_max"])
        s = sum(sel(dims, xyz))
        return [lo + (hi - lo) * (0.5 + 0.5 * np.sin(2 * np.pi * s)), r_(p["vx"]), r_(p["vy"]), r_(p["vz"]), r_(p["P"])]

    check(c, "Sinus", P, spec, {}, f"sinusoidal wave {dims}")


def square(c, dims):
    P = lambda: dict(dims=dims, rho_min_max=(L("r0"), N.add(L("r0"), L("dr"))), P=L("P"), vx=L("vx", None), vy=L("vy", None), vz=L("vz", None))

    def spec(p, *xyz):
        ins = np.all([(q > 0.25) & (q < 0.75) for q in sel(dims, xyz)], axis=0)
        lo, hi = (r_(q) for q in p["rho_min_max"])
        return [np.where(ins, hi, lo), r_(p["vx"]), r_(p["vy"]), r_(p["vz"]), r_(p["P"])]

    check(c, "Square", P, spec, {"*": [0.25, 0.75, 0.5]}, f"square wave {dims}", salts=4)


def disk(c):
    P = lambda: dict(rho_min_max=(L("r0"), N.add(L("r0"), L("dr"))), P=L("P"))

    def spec(p, x, y, z):
        ins = ((x - 0.5) ** 2 + (y - 0.75) ** 2 < 0.15**2) & ~((abs(x - 0.5) < 0.025) & (y < 0.85))
        lo, hi = (r_(q) for q in p["rho_min_max"])
        return [np.where(ins, hi, lo), 0.5 - y, x - 0.5, 0, r_(p["P"])]

    check(c, "SlottedDisk", P, spec, {"x": [0.475, 0.525, 0.5, 0.4, 0.6, 0.35, 0.65], "y": [0.85, 0.6, 0.9, 0.75, 0.7, 0.84]}, "slotted disk", salts=10)


def shock(c, dim, default=False):
    if default:
        P = lambda: dict(dim=dim)
        vals = dict(position=0.5, rho_left_right=(1, 0.125), P_left_right=(1, 0.1), v_left_right=(0, 0))
    else:
        P = lambda: dict(dim=dim, position=L("pos"), rho_left_right=(L("rl"), L("rr")), P_left_right=(L("Pl"), L("Pr")), v_left_right=(L("vl", None), L("vr", None)))
        vals = {}

    def spec(p, *xyz):
        g = lambda k: [r_(q) if not isinstance(q, (int, float)) else q for q in p[k]] if k in p else vals[k]
        r = sel(dim, xyz)[0]
        left = r < (r_(p["position"]) if "position" in p else vals["position"])
        v = np.where(left, *g("v_left_right"))
        return [np.where(left, *g("rho_left_right"))] + [v if d == dim else 0 for d in "xyz"] + [np.where(left, *g("P_left_right"))]

    check(c, "Shock1D", P, spec, (lambda p: {dim: [p["position"]]}) if not default else {dim: [0.5]}, f"shock tube {dim} default={default}")


def double(c, dim, default=False):
    if default:
        P = lambda: dict(dim=dim)
        vals = dict(positions=(0.1, 0.9), rhos=(1, 1, 1), vs=(0, 0, 0), Ps=(1e3, 1e-2, 1e2))
    else:
        P = lambda: dict(dim=dim, positions=(L("p0"), N.add(L("p0"), L("dp"))), rhos=tuple(L(("rho", k)) for k in range(3)), vs=tuple(L(("v", k), None) for k in range(3)), Ps=tuple(L(("P", k)) for k in range(3)))
        vals = {}

    def spec(p, *xyz):
        g = lambda k: [r_(q) for q in p[k]] if k in p else vals[k]
        r = sel(dim, xyz)[0]
        a, b = g("positions")
        put = lambda q: np.where(r < a, q[0], np.where(r < b, q[1], q[2]))
        v = put(g("vs"))
        return [put(g("rhos"))] + [v if d == dim else 0 for d in "xyz"] + [put(g("Ps"))]

    check(c, "DoubleShock1D", P, spec, (lambda p: {dim: list(p["positions"])}) if not default else {dim: [0.1, 0.9]}, f"double shock {dim} default={default}", salts=4)


def shuosher(c, dim):
    def spec(p, *xyz):
        r = sel(dim, xyz)[0] - 5
        left = r < -4
        v = np.where(left, 2.629369, 0)
        return [np.where(left, 3.857143, 1 + 0.2 * np.sin(5 * r))] + [v if d == dim else 0 for d in "xyz"] + [np.where(left, 10.33333, 1)]

    check(c, "ShuOsher1D", lambda: dict(dim=dim), spec, {dim: [1.0, 5.0]}, f"Shu-Osher {dim}", extra=dict(lo=0, hi=10))


def kh(c, default=False):
    P = (lambda: {}) if default else (lambda: dict(sigma=L("sigma"), w0=L("w0", None)))

    def spec(p, x, y, z):
        s, w = (0.05 * np.sqrt(2), 0.1) if default else (r_(p["sigma"]), r_(p["w0"]))
        ins = (y > 0.25) & (y < 0.75)
        vy = w * np.sin(4 * np.pi * x) * (np.exp(-((y - 0.25) ** 2) / (2 * s * s)) + np.exp(-((y - 0.75) ** 2) / (2 * s * s)))
        return [np.where(ins, 2, 1), np.where(ins, 0.5, -0.5), vy, 0, 2.5]

    check(c, "KelvinHelmholtz2D", P, spec, {"y": [0.25, 0.75, 0.5]}, f"Kelvin-Helmholtz default={default}", salts=4)


def dmr(c, default=False):
    P = (lambda: {}) if default else (lambda: dict(gamma=N.add(N.ONE, L("gm1"))))

    def spec(p, x, y, z):
        g = 1.4 if default else r_(p["gamma"])
        post = x < 1 / 6 + y / np.sqrt(3)
        return [np.where(post, 8, g), np.where(post, 7.145, 0), np.where(post, -8.25 / 2, 0), 0, np.where(post, 116.5, 1)]

    check(c, "DoubleMachReflection2D", P, spec, {"x": [1 / 6, 0.4], "y": [0.05, 0.3]}, f"double Mach reflection default={default}", salts=5, extra=dict(lo=-0.2, hi=1.0))


def tube(c, dims, kind):
    inout = lambda k, pos=None: (L((k, "in"), pos), L((k, "out"), pos))

    def P():
        p = dict(rho_in_out=inout("rho", 1), P_in_out=inout("P", 1), vx_in_out=inout("vx"), vy_in_out=inout("vy"), vz_in_out=inout("vz"))
        if kind == "tube":
            p.update(dims=dims, center=tuple(L(("c", d), None) for d in dims), radius=L("radius"))
        elif kind == "scalar":
            p.update(dims=dims, center=L(("c", dims), None), radius=L("radius"))
        else:
            p.update(mode="cube")
            for d in dims:
                lo = L(("lo", d), None)
                p[d + "_cube"] = (lo, N.add(lo, L(("w", d))))
        return p

    def spec(p, *xyz):
        if kind == "cube":
            ins = np.all([(q >= r_(p[d + "_cube"][0])) & (q <= r_(p[d + "_cube"][1])) for d, q in zip("xyz", xyz) if d in dims], axis=0)
        else:
            cs = p["center"] if kind == "tube" else (p["center"],)
            # centre coordinates are given in the order of dims
            ins = sum((xyz["xyz".index(d)] - r_(q)) ** 2 for d, q in zip(dims, cs)) <= r_(p["radius"]) ** 2
        g = lambda k: np.where(ins, *[r_(q) for q in p[k]])
        return [g("rho_in_out"), g("vx_in_out"), g("vy_in_out"), g("vz_in_out"), g("P_in_out")]

    def crit(p):
        if kind == "cube":
            return {d: list(p[d + "_cube"]) for d in dims}
        cs = p["center"] if kind == "tube" else (p["center"],)
        return {d: [q, N.add(q, N.mul(N.const(__import__("fractions").Fraction(7, 10)), p["radius"])), N.sub(q, p["radius"])] for d, q in zip(dims, cs)}

    check(c, "ShockTube", P, spec, crit, f"shock tube {kind} {dims}", salts=6, extra=dict(lo=-1.5, hi=1.5))


def athena(c):
    def spec(p, x, y, z):
        return [1, 0, 0, 0, np.where(x * x + y * y < 0.01, 10, 0.1)]

    check(c, "AthenaBlast", lambda: {}, spec, {"x": [0, 0.07, -0.1, 0.05], "y": [0, 0.07, -0.07, 0.1]}, "blast", salts=5, extra=dict(lo=-0.5, hi=0.5))


def defaults(c, cls):
    """no parameters given"""
    bump = lambda x, y, z: [1.5 + 0.5 * np.sin(2 * np.pi * x), 1, 0, 0, 1]
    box = lambda x, y, z: [np.where((x > 0.25) & (x < 0.75), 2, 1), 1, 0, 0, 1]

    def slot(x, y, z):
        ins = ((x - 0.5) ** 2 + (y - 0.75) ** 2 < 0.15**2) & ~((abs(x - 0.5) < 0.025) & (y < 0.85))
        return [np.where(ins, 2, 1), 0.5 - y, x - 0.5, 0, 1]

    ball = lambda x, y, z: [np.where(abs(x) <= 0.5, 1, 0.125), 0, 0, 0, np.where(abs(x) <= 0.5, 1, 0.1)]
    spec, crit = {"Sinus": (bump, {}), "Square": (box, {"x": [0.25, 0.75]}), "SlottedDisk": (slot, {"x": [0.5, 0.4, 0.6], "y": [0.85, 0.75, 0.7]}), "ShockTube": (ball, {"x": [-0.5, 0.5]})}[cls]
    check(c, cls, lambda: {}, lambda p, *xyz: spec(*xyz), crit, f"{cls} with default parameters", salts=4, extra=dict(lo=-1, hi=1.5))


def sedov(c, mode, dims, n):
    """concrete small meshes: position and amount of the deposited energy"""
    c.interp()
    N.set_model(Real(1, {}))
    h = {d: L(("h", d)) for d in "xyz"}
    lo = {d: L(("lo", d), None) for d in "xyz"}
    half = N.const(__import__("fractions").Fraction(1, 2))
    X = [A.from_fn(n, (lambda a, d: lambda i: N.add(lo[d], N.mul(N.add(A.to_node(i[a]), half), h[d])))(a, d), "f") for a, d in enumerate("xyz")]
    p = dict(mode=mode, dims=dims, rho0=L("rho0"), E0=L("E0"), E1=L("E1"))
    f, X, out = call(c, "SedovBlast", p, shape=n, coords=X)
    peak = r_(p["E1"])
    for d in dims:
        peak = peak / (2 * r_(h[d]))
    for cell in product(*[range(k) for k in n]):
        if mode == "corner":
            ins = all(i == 0 for i in cell)
        else:
            ins = all(d not in dims or cell[a] in (n[a] // 2 - 1, n[a] // 2) for a, d in enumerate("xyz"))
        want = [r_(p["rho0"]), 0, 0, 0, peak if ins else r_(p["E0"])]
        state(c, out, want, cell, f"Sedov {mode} {dims} cell {cell} of {n}")


def passives(c):
    """rows of passive scalars, own storage, missing definitions"""
    c.interp()
    HS = c.get("hydro", "HydroState")
    for names in ((), ("dye",), ("dye", "ash")):
        hs = c.call(HS, passive_scalars=names)
        o = c.it.instantiate(c.get("initial_conditions", "Square"), [], {})
        fs = {q: H.passive_ic(q) for q in reversed(names)}
        f = c.method(o, "build_ic", hs, fs) if names else c.method(o, "build_ic", hs)
        shape = tuple(sym("n" + d) for d in "xyz")
        X = [A.from_fn(shape, (lambda d: lambda i: N.leaf(("X", d) + tuple(i)))(d), "f") for d in "xyz"]
        out = c.it.call(f, [], dict(x=X[0], y=X[1], z=X[2]))
        cell = H.gidx("xyz")
        c.ok(tuple(out.shape) == (5 + len(names),) + shape, "passive-rows", f"shape {out.shape} with {names}", key="passive-rows")
        for k, q in enumerate(names):
            want = N.uf(("pic", q), *[x.elem(cell) for x in X])
            row = out.getitem(c.call(hs, q))
            c.same(row.elem(cell), want, "passive-rows", f"scalar {q} in the row of its name", key="passive-rows")
            c.same(out.elem((5 + k,) + cell), want, "passive-rows", f"scalar {q} in row {5 + k}", key="passive-rows")
    hs = c.call(HS, passive_scalars=("dye", "ash"))
    o = c.it.instantiate(c.get("initial_conditions", "Sinus"), [], {})
    c.raises(None, lambda: c.method(o, "build_ic", hs, {"dye": H.passive_ic("dye")}), "rejected", "missing definition of a passive scalar", key="rejected")


def alone(c, cls, params):
    """one coordinate is enough for a state along x"""
    c.interp()
    C = c.get("initial_conditions", cls)
    o = c.it.instantiate(C, [], params)
    f = c.method(o, "base_ic", **params)
    X = A.from_fn((sym("nx"), 1, 1), lambda i: N.leaf(("X", "x") + tuple(i)), "f")
    out = c.it.call(f, [], dict(x=X))
    c.ok(tuple(out.shape) == (5, sym("nx"), 1, 1), "x-alone", f"{cls} evaluated at x alone: shape {out.shape}", key="x-alone")


def rejected(c, cls, params):
    c.interp()
    c.raises(None, lambda: call(c, cls, params), "rejected", f"{cls} {params}", key="rejected")


def cases(tier):
    out = []

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    for d in DIMS:
        add(f"Sinus {d}", sinus, dims=d)
        add(f"Square {d}", square, dims=d)
        add(f"ShockTube {d}", tube, dims=d, kind="tube")
        add(f"ShockTube cube {d}", tube, dims=d, kind="cube")
    for d in ("yx", "zy", "zxy"):
        add(f"ShockTube {d}", tube, dims=d, kind="tube")
    add("SlottedDisk", disk)
    for d in "xyz":
        add(f"ShockTube scalar {d}", tube, dims=d, kind="scalar")
        for df in (False, True):
            add(f"Shock1D {d} default={df}", shock, dim=d, default=df)
            add(f"DoubleShock1D {d} default={df}", double, dim=d, default=df)
        add(f"ShuOsher1D {d}", shuosher, dim=d)
    for df in (False, True):
        add(f"KelvinHelmholtz2D default={df}", kh, default=df)
        add(f"DoubleMachReflection2D default={df}", dmr, default=df)
    for cls in ("Sinus", "Square", "SlottedDisk", "ShockTube"):
        add(f"defaults {cls}", defaults, cls=cls)
    add("AthenaBlast", athena)
    for mode in ("corner", "center"):
        for dims, n in (("x", (4, 1, 1)), ("y", (1, 6, 1)), ("z", (1, 1, 4)), ("xy", (4, 6, 1)), ("yz", (1, 4, 6)), ("xz", (6, 1, 4)), ("xyz", (4, 2, 6))):
            add(f"Sedov {mode} {dims}", sedov, mode=mode, dims=dims, n=n)
    add("passives", passives)
    for cls, p in (("Sinus", {}), ("Square", {}), ("Square", dict(dims="x")), ("Shock1D", {}), ("DoubleShock1D", {}), ("ShuOsher1D", {}), ("ShockTube", {}), ("ShockTube", dict(mode="cube", x_cube=(0, 1)))):
        add(f"x alone {cls} {p}", alone, cls=cls, params=p)
    for cls, p in (
        ("Shock1D", dict(dim="w")), ("Shock1D", dict(dim="xy")), ("DoubleShock1D", dict(dim="w")), ("ShuOsher1D", dict(dim="w")),
        ("ShockTube", dict(dims="xy", center=0)), ("ShockTube", dict(dims="x", center=(0, 0))), ("ShockTube", dict(dims="xyz", center=(0, 0))),
        ("ShockTube", dict(mode="cube")), ("ShockTube", dict(mode="sphere")), ("SedovBlast", dict(mode="edge")),
    ):
        add(f"rejects {cls} {p}", rejected, cls=cls, params=p)
    return out
