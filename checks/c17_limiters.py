"""C17: slope limiters never create new extrema."""
from fractions import Fraction as Fr

import numpy as np

from checks.c15_trouble import _rnd0 as rnd
from checks.c16_fallback import LIMITERS, reals, moncen
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "slope limiters"
TECHNIQUE = "abstract interpretation to a value graph; limited faces value-numbered against the limiter definitions on a partition of the sign/size regimes of the differences; interval bounds in sampled ordered models including sub-threshold differences"
EXPLANATION = (
    "The reconstruction is interpreted on arbitrary arrays for each limiter and axis: both faces of a generic cell must be the cell value minus/plus half the limited slope, the slope "
    "being the smaller difference (minmod), the smallest of twice either difference and the central one (moncen), zero at extrema and flat sides, the central slope without limiter. "
    "Sign and size regimes (both signs, either side larger, one side zero, equal sides, ratios around 2 and 3, differences below 1e-16) are covered separately, and in sampled models "
    "both faces must lie between the neighbouring cell values. Unknown limiters must be rejected and the input left untouched."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "comparisons are interpreted in 96 sampled models per case, magnitudes over twelve decades"]


class Log:
    """cells around one: model with differences of both signs over many decades"""

    def __init__(self, lo, hi, salt, tie=False):
        self.lo, self.hi, self.salt = lo, hi, salt

    def __call__(self, n):
        if n.op == "leaf":
            r = rnd(self.salt, n.args[0])
            if n.pos == 1:
                return 10 ** (self.lo + (self.hi - self.lo) * r.random(N.L))
            return r.choice([-1.0, 1.0], N.L) * 10 ** (self.lo + (self.hi - self.lo) * r.random(N.L))
        return None


def fn(c):
    return c.get("slope_limiting", "MUSCL_interpolations")


def generic(c, name, axis, salt):
    """generic array, every axis and variable"""
    c.interp()
    N.set_model(Log(-1, 1, salt))
    f = fn(c)
    nd = 4
    shape = (3,) + tuple(sym("n" + d) for d in "xyz")
    lf = lambda i: N.leaf(("u",) + tuple(i))
    U = A.from_fn(shape, lf, "f")
    lo, hi = c.call(f, U, axis=axis, limiter=name)
    want = list(shape)
    want[axis] = want[axis] - 2
    c.ok(tuple(lo.shape) == tuple(want) == tuple(hi.shape), "shape", f"{name} axis {axis}: shapes {lo.shape} {hi.shape}", key="shape")
    g = [sym("ix"), sym("iy"), sym("iz")]
    L = LIMITERS[name]
    half = N.const(Fr(1, 2))
    n = shape
    pts = [tuple(g)]
    for e in ("first", "last"):
        q = list(g)
        q[axis - 1] = 0 if e == "first" else n[axis] - 3
        pts.append(tuple(q))
    for v in range(3):
        for q in pts:
            o = list(q)

            def at(k):
                i = list(o)
                i[axis - 1] = i[axis - 1] + k
                return lf((v,) + tuple(i))

            m, l, r = at(1), at(0), at(2)
            s = L(N.sub(m, l), N.sub(r, m))
            a, b = lo.elem((v,) + q), hi.elem((v,) + q)
            c.same(a, N.sub(m, N.mul(half, s)), "limited-slope", f"{name} axis {axis} left face of variable {v} at {q}", key="limited-slope")
            c.same(b, N.add(m, N.mul(half, s)), "limited-slope", f"{name} axis {axis} right face of variable {v} at {q}", key="limited-slope")
            if name is not None:
                between(c, reals(a), reals(l), reals(m), reals(r), f"{name} axis {axis} left face", a.site)
                between(c, reals(b), reals(l), reals(m), reals(r), f"{name} axis {axis} right face", b.site)
            c.same(U.elem((v,) + q), lf((v,) + q), "pure", "input untouched", key="pure")


def between(c, x, l, m, r, what, site):
    lo = np.minimum(np.minimum(l, m), r)
    hi = np.maximum(np.maximum(l, m), r)
    tol = 1e-12 * np.maximum(np.abs(lo), np.abs(hi))
    bad = np.nonzero((x < lo - tol) | (x > hi + tol))[0]
    c.ok(not len(bad), "no-new-extrema", f"{what}: value {x[bad[0]] if len(bad) else ''} outside neighbours {[y[bad[0]] for y in (l, m, r)] if len(bad) else ''}", site, "no-new-extrema")


def regimes(c, name):
    """explicit partition: signs x which side is larger x ties x zeros, independent of sampled orders"""
    c.interp()
    f = fn(c)
    tiny = N.const(Fr(1, 10 ** 12))
    a = N.add(tiny, N.leaf("a", 1))
    d = N.leaf("d", 1)
    sizes = {
        "equal": (a, a),
        "left zero": (N.ZERO, a),
        "right zero": (a, N.ZERO),
        "both zero": (N.ZERO, N.ZERO),
        "left larger": (N.add(a, d), a),
        "right larger": (a, N.add(a, d)),
        "left > 3 right": (N.add(N.mul(N.const(3), a), d), a),
        "right > 3 left": (a, N.add(N.mul(N.const(3), a), d)),
        "left = 3 right": (N.mul(N.const(3), a), a),
        "right = 3 left": (a, N.mul(N.const(3), a)),
        "left = 2 right": (N.mul(N.const(2), a), a),
        "right = 5/2 left": (a, N.mul(N.const(Fr(5, 2)), a)),
    }
    half = N.const(Fr(1, 2))
    for what, (x, y) in sizes.items():
        for sl in (1, -1):
            for sr in (1, -1):
                dl, dr = N.mul(N.const(sl), x), N.mul(N.const(sr), y)
                u1 = N.leaf("u1")
                q = [N.sub(u1, dl), u1, N.add(u1, dr)]
                X = A.from_fn((1, 3), lambda i: q[i[1]], "f")
                lo, hi = c.call(f, X, axis=1, limiter=name)
                if name is None:
                    s = N.mul(half, N.add(dl, dr))
                elif sl != sr or "zero" in what:
                    s = N.ZERO
                else:
                    small = {"left zero": N.ZERO, "right zero": N.ZERO, "both zero": N.ZERO}.get(what)
                    if small is None:
                        small = x if what.startswith("right") or what == "equal" else y
                    if name == "minmod":
                        s = N.mul(N.const(sl), small)
                    elif what in ("left > 3 right", "right > 3 left"):
                        s = N.mul(N.const(2 * sl), small)
                    elif what in ("left larger", "right larger"):
                        # ratio undetermined: the smaller of twice the smaller difference and the central one
                        s = N.mul(N.const(sl), N.nary("min", (N.mul(N.const(2), small), N.mul(half, N.add(x, y)))))
                    else:
                        s = N.mul(N.const(sl), N.mul(half, N.add(x, y)))
                for face, sg, o in (("left", -1, lo), ("right", 1, hi)):
                    c.same(o.elem((0, 0)), N.add(u1, N.mul(N.const(Fr(sg, 2)), s)), "regime", f"{name}: {face} face, {what}, signs ({sl},{sr})", key="regime")


def tiny(c, name, lo, hi):
    """differences below the division threshold: bounds only"""
    c.interp()
    N.set_model(Log(lo, hi, ("tiny", name)))
    f = fn(c)
    dl, dr = N.leaf("dl"), N.leaf("dr")
    q = [N.neg(dl), N.ZERO, dr]
    X = A.from_fn((1, 3), lambda i: q[i[1]], "f")
    a, b = c.call(f, X, axis=1, limiter=name)
    x, y = reals(dl), reals(dr)
    s = reals(b.elem((0, 0))) - reals(a.elem((0, 0)))
    site = b.elem((0, 0)).site
    e = 1 + 1e-9
    bnd = np.minimum(abs(x), abs(y)) if name == "minmod" else np.minimum(2 * np.minimum(abs(x), abs(y)), abs(x + y) / 2)
    bad = np.nonzero(np.abs(s) > bnd * e)[0]
    c.ok(not len(bad), "bounded-slope", f"{name}: slope too steep for differences {[(x[k], y[k], s[k]) for k in bad[:1]]}", site, "bounded-slope")
    bad = np.nonzero((x * y <= 0) & (s != 0))[0]
    c.ok(not len(bad), "extremum", f"{name}: nonzero slope at an extremum {[(x[k], y[k], s[k]) for k in bad[:1]]}", site, "extremum")
    bad = np.nonzero((s * x < 0) | (s * y < 0))[0]
    c.ok(not len(bad), "sign", f"{name}: slope against the differences {[(x[k], y[k], s[k]) for k in bad[:1]]}", site, "sign")
    between(c, reals(a.elem((0, 0))), -x, 0 * x, y, f"{name} left face", site)
    between(c, reals(b.elem((0, 0))), -x, 0 * x, y, f"{name} right face", site)


def rejects(c):
    c.interp()
    f = fn(c)
    X = A.from_fn((1, 3), lambda i: N.leaf(("u",) + tuple(i)), "f")
    for bad in ("superbee", "", "min mod", "vanleer", 2):
        c.raises(None, lambda: c.call(f, X, axis=1, limiter=bad), "rejects", f"limiter {bad!r}", key="rejects")


def default(c):
    """default limiter of the reconstruction is minmod"""
    c.interp()
    N.set_model(Log(-1, 1, "default"))
    f = fn(c)
    X = A.from_fn((1, 3), lambda i: N.leaf(("u",) + tuple(i)), "f")
    a, b = c.call(f, X, axis=1)
    a2, b2 = c.call(f, X, axis=1, limiter="minmod")
    c.same(a.elem((0, 0)), a2.elem((0, 0)), "default", "default limiter", key="default")
    c.same(b.elem((0, 0)), b2.elem((0, 0)), "default", "default limiter", key="default")


def in_solver(c, dims, p, lim):
    """unknown limiter configured in a solver is rejected when it is needed"""
    it = c.interp()
    H.assume_any(it, True)

    def go():
        s = H.solver(c, dims, dict(zip(dims, p)), ic="leaf", slope_limiter=lim, force_trouble=True, riemann_solver="llf", **H.LIM)
        H.rhs(c, s, H.state(dims))

    c.raises(None, go, "rejects", f"solver limiter {lim!r} {dims}", key="rejects")


def cases(tier):
    out = []
    for name in ("minmod", "moncen", None):
        for ax in (1, 2, 3):
            for salt in range(6 if tier == "thorough" else 2):
                out.append((f"{name} axis {ax} model {salt}", generic, dict(name=name, axis=ax, salt=salt)))
        out.append((f"{name} regimes", regimes, dict(name=name)))
        if name:
            for lo, hi in ((-20, -12), (-16.5, -15.5), (-16, -2), (-25, -17), (-6, 6)):
                out.append((f"{name} magnitudes {lo}..{hi}", tiny, dict(name=name, lo=lo, hi=hi)))
    out.append(("rejects", rejects, {}))
    out.append(("default", default, {}))
    for d in "xyz":
        out.append((f"solver rejects {d}", in_solver, dict(dims=d, p=(2,), lim="superbee")))
    return out
