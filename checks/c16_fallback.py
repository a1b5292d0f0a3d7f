"""C16: fallback fluxes replace exactly the fluxes around troubled cells."""
from fractions import Fraction as Fr
from itertools import product

import numpy as np

from checks.c15_trouble import _rnd0 as rnd
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import Aff, sym

TITLE = "fallback fluxes"
TECHNIQUE = "abstract interpretation to a value graph; limited rates value-numbered against the flux-blending specification under sampled trouble patterns; range analysis of the blending weights; typestate of the substep average"
EXPLANATION = (
    "The solver is interpreted with limiting on arbitrary states whose troubled cells are chosen freely (by a physical bound on one variable). Its rate of change must be the "
    "divergence of high-order fluxes with the second-order limited flux at each face of a troubled cell, including across periodic seams; in convex mode every face weight, "
    "recovered from the rates, must lie in [0,1], be 1 at faces of troubled cells and 0 at faces more than three cells away. No trouble must give the unlimited scheme, forced trouble "
    "the second-order limited scheme. Interface weights are also analysed at each face for every pattern of nearby trouble in 1D and for single, sparse and dense patterns in 2D. "
    "The trouble recorded for a step must be the mean of the flags of that step's own evaluations."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "comparisons are interpreted in 96 sampled models per case; 1D interface patterns are enumerated completely"]


class Pattern:
    """state model: vz marks the troubled cells"""

    def __init__(self, named, dens=None):
        self.named = named
        r = rnd("dens")
        self.dens = np.choose(np.arange(N.L) % 6, [0.0, 0.06, 0.15, 0.3, 0.6, 1.0]) if dens is None else dens

    def bit(self, idx):
        return (rnd("bit", idx).random(N.L) < self.dens).astype(float)

    def __call__(self, n):
        if n.op == "red":
            k = repr(n.fp.tobytes())
            r = rnd("red", k).random(N.L)
            kind = n.args[0][0]
            if kind in ("max", "min"):
                return (2.0 + r) if kind == "max" else -(2.0 + r)
            return None
        if n.op != "leaf":
            return None
        nm = n.args[0]
        if nm in self.named:
            return self.named[nm] + np.zeros(N.L)
        if isinstance(nm, tuple) and nm[0] == "u":
            x = rnd("u", nm).random(N.L)
            v = nm[1]
            if v == 3:
                return self.bit(tuple(nm[2:])) + 0.02 * x
            return 1.0 + 0.1 * x if v == 0 else 6.0 + x if v == 4 else 0.8 * (x - 0.5)
        if n.pos == 1:
            return 1.0 + rnd("pos", nm).random(N.L)
        return rnd("any", nm).random(N.L) - 0.5


def moncen(a, b):
    cen = S.central(a, b)
    two = N.const(2)
    lim = N.nary("min", (N.absolute(N.mul(two, a)), N.absolute(N.mul(two, b)), N.absolute(cen)))
    up = N.land(S.gt0(a), S.gt0(b))
    dn = N.land(S.gt0(N.neg(a)), S.gt0(N.neg(b)))
    return N.where(up, lim, N.where(dn, N.neg(lim), N.ZERO))


LIMITERS = {"minmod": S.minmod2, "moncen": moncen, None: S.central}


def setup(c, dims, p, bcs, nv, lim, rs="llf", **o):
    it = c.interp()
    H.assume_any(it, True)
    named = {"dt": 1e-9, "eps": 1e6, "gm1": 0.4, "floor": 1e-6}
    for d in "xyz":
        named["n" + d] = 12.0
    N.set_model(Pattern(named))
    g = N.add(N.ONE, N.leaf("gm1", 1))
    kw = dict(riemann_solver=rs, gamma=g, passives=tuple(f"s{j}" for j in range(nv - 5)))
    if bcs:
        kw["bc"] = c.call(c.get("boundary_conditions", "BoundaryCondition"), **bcs)
    ps = dict(zip(dims, p))
    free = H.solver(c, dims, ps, ic="leaf", **kw)
    base = dict(H.LIM, NAD=N.leaf("eps", 1), SED=False, PAD={"vz": (N.inf(-1), N.const(Fr(1, 2)))}, slope_limiter=lim)
    ls = H.solver(c, dims, ps, ic="leaf", **dict(kw, **dict(base, **o)))
    return free, ls, g, ps


def low_order(c, solver, dims, ps, bcs, g, rs, nv, lim):
    n = H.sizes(dims)
    lf = H.uleaf()
    b3 = dict({d: ("periodic", "periodic") for d in dims}, **(bcs or {}))
    ub = S.ghosted(lf, dims, n, b3, nvars=nv)
    p1 = [min(1, ps.get(d, 0)) for d in "xyz"]
    floor = A.to_node(c.attr(solver, "csq_floor"))
    return S.faces(ub, dims, p1, g, rs, floor, limiter=LIMITERS[lim], nv=nv), ub, floor, b3


def const_of(x):
    return x if isinstance(x, int) else (x.c if not x.s else None)


def tau(cell, dims, n, b3):
    """troubled? per the bound on vz (cells outside the domain: the periodic image, else none)"""
    i = list(cell)
    for a, d in enumerate("xyz"):
        if d not in dims:
            continue
        x = i[a]
        out = None
        k = const_of(x)
        if k is not None and k < 0:
            out = "lo"
        k = const_of(x - n[a])
        if k is not None and k >= 0:
            out = "hi"
        if out:
            if b3[d] == ("periodic", "periodic"):
                i[a] = S.wrap(x, n[a])
            else:
                return N.ZERO
    lf = H.uleaf()
    return N.cmp("gt", lf((3,) + tuple(i)), N.const(Fr(1, 2)))


def shift(cell, a, k):
    i = list(cell)
    i[a] = i[a] + k
    return tuple(i)


def replaced(c, dims, p, lim="minmod", bcs=None, nv=5, rs="llf", ends=True, force=False, none=False):
    o = dict(force_trouble=True) if force else {}
    free, ls, g, ps = setup(c, dims, p, bcs, nv, lim, rs, **o)
    n = H.sizes(dims)
    lf = H.uleaf()
    U = lambda: A.from_fn((nv,) + n, lf, "f")
    if none:
        H.assume_any(c.it, False)
        _, k0 = H.rhs(c, free, U())
        _, k1 = H.rhs(c, ls, U())
        for cell in H.cells(dims, 1):
            for v in range(nv):
                c.same(k1.elem((v,) + cell), k0.elem((v,) + cell), "untroubled", f"rate {v} at {cell} without trouble = unlimited scheme, {dims} p={p} {lim}", key="untroubled")
        return
    _, k1 = H.rhs(c, ls, U())
    lo, ub, floor, b3 = low_order(c, ls, dims, ps, bcs, g, rs, nv, lim)
    p3 = [ps.get(d, 0) for d in "xyz"]
    hi = S.faces(ub, dims, p3, g, rs, floor, nv=nv)
    h = S.spacing(n)

    def mixed(d):
        a = "xyz".index(d)

        def f(v, *i):
            if force:
                return lo[d](v, *i)
            t = N.lor(tau(shift(i, a, -1), dims, n, b3), tau(i, dims, n, b3))
            return N.where(t, lo[d](v, *i), hi[d](v, *i))

        return S.Fld(f)

    D = S.divergence({d: mixed(d) for d in dims}, h)
    cl = H.cells(dims, 1, corners=len(dims) < 2) if ends else [H.gidx(dims)]
    for cell in cl:
        for v in range(nv):
            c.same(k1.elem((v,) + cell), D(v, *cell), "forced" if force else "replaced", f"rate {v} at {cell}, {dims} p={p} limiter {lim} {bcs or 'periodic'} {rs}", key="forced" if force else "replaced")


def reals(n):
    r = N.realval(n)
    if r is None:
        u = H.has_undef(n)
        if u:
            raise H.Garbage(f"the value is made from memory that was never written: {u}", n.site)
        if any(True for _ in N.find_ops(n, lambda y: y.op == "uf" and y.args[0] == "div0")):
            raise H.Garbage("the value is the result of a division by zero", n.site)
        raise H.Stop(f"no model value for {N.pretty(n)[:80]}")
    return r + np.zeros(N.L)


def blended(c, dims, p, lim="minmod", bcs=None, nv=5, ends=True):
    """convex mode: weights recovered from the rates"""
    free, ls, g, ps = setup(c, dims, p, bcs, nv, lim, convex=True)
    n = H.sizes(dims)
    lf = H.uleaf()
    U = lambda: A.from_fn((nv,) + n, lf, "f")
    _, k1 = H.rhs(c, ls, U())
    lo, ub, floor, b3 = low_order(c, ls, dims, ps, bcs, g, "llf", nv, lim)
    p3 = [ps.get(d, 0) for d in "xyz"]
    hi = S.faces(ub, dims, p3, g, "llf", floor, nv=nv)
    h = S.spacing(n)
    D = S.divergence(hi, h)
    cl = H.cells(dims, 1, corners=len(dims) < 2) if ends else [H.gidx(dims)]
    for cell in cl:
        rhs_, cols, faces = [], [], []
        for d in dims:
            a = "xyz".index(d)
            for e in (0, 1):
                faces.append((d, a, shift(cell, a, e), 1 if e == 0 else -1))
        for v in range(nv):
            rhs_.append(reals(k1.elem((v,) + cell)) - reals(D(v, *cell)))
            cols.append([s / reals(h[a]) * (reals(lo[d](v, *i)) - reals(hi[d](v, *i))) for d, a, i, s in faces])
        M = np.array(cols).transpose(2, 0, 1)
        R = np.array(rhs_).T
        sc = np.abs(M).max(axis=(1, 2))
        okl = sc > 1e-6
        near, far = [], []
        for d, a, i, s in faces:
            near.append(np.maximum(reals(tau(shift(i, a, -1), dims, n, b3)), reals(tau(i, dims, n, b3))) > 0)
            acc = np.zeros(N.L)
            rng = [range(-3, 3) if b == a else (range(-3, 4) if "xyz"[b] in dims else (0,)) for b in range(3)]
            for o in product(*rng):
                acc = np.maximum(acc, reals(tau(tuple(i[b] + o[b] for b in range(3)), dims, n, b3)))
            far.append(acc == 0)
        bad = []
        used = 0
        for q in range(N.L):
            if not okl[q]:
                continue
            if np.linalg.matrix_rank(M[q], tol=1e-7 * sc[q]) < len(faces):
                continue
            used += 1
            th, *_ = np.linalg.lstsq(M[q], R[q], rcond=None)
            res = np.abs(M[q] @ th - R[q]).max() / sc[q]
            why = None
            if res > 1e-6:
                why = ("not a per-face blend of the two fluxes (one weight for all variables)", res)
            elif (th < -1e-5).any() or (th > 1 + 1e-5).any():
                why = ("weight outside [0,1]", list(np.round(th, 4)))
            else:
                for k, (d, a, i, s) in enumerate(faces):
                    if near[k][q] and abs(th[k] - 1) > 1e-5:
                        why = (f"{d} face {i} of a troubled cell has weight", round(th[k], 4))
                    if far[k][q] and abs(th[k]) > 1e-5:
                        why = (f"{d} face {i} with no trouble within three cells has weight", round(th[k], 4))
            if why:
                bad.append(why)
        c.ok(not bad, "blend", f"{dims} p={p} {lim} {bcs or 'periodic'} cell {cell}: {bad[:1]}", k1.elem((0,) + cell).site, "blend")


class Bits:
    """trouble patterns around one face"""

    def __init__(self, pats):
        self.pats = pats  # {position tuple (as given): lanes}

    def __call__(self, n):
        if n.op == "leaf":
            nm = n.args[0]
            if isinstance(nm, tuple) and nm[0] == "tr":
                r = self.pats.get(tuple(nm[1:]))
                if r is None:
                    r = (rnd("tr", nm).random(N.L) < 0.1).astype(float)
                return r - 0.5
            if n.pos == 1:
                return 20.0 + np.zeros(N.L)
        return None


def weights(c, dims, convex, per, rnds, at):
    """interface weights for patterns of nearby trouble"""
    c.interp()
    n = H.sizes(dims)
    f = c.get("slope_limiting", "broadcast_to_troubled_interfaces")
    base = {"generic": H.gidx(dims), "first": tuple(0 for _ in "xyz"), "last": tuple(n[a] - 1 if d in dims else 0 for a, d in enumerate("xyz"))}[at]

    def wrapc(i):
        i = list(i)
        for a, d in enumerate("xyz"):
            if d not in dims:
                continue
            x = i[a]
            k = const_of(x)
            low = k is not None and k < 0
            k = const_of(x - n[a])
            high = k is not None and k >= 0
            if low or high:
                if d not in per:
                    return None
                i[a] = S.wrap(x, n[a])
        return tuple(i)

    for d in dims:
        a = "xyz".index(d)
        for e in (0, 1):
            face = shift(base, a, e)
            rng = [range(-3, 3) if b == a else (range(-3, 4) if "xyz"[b] in dims else (0,)) for b in range(3)]
            offs = list(product(*rng))
            pos = [wrapc(tuple(face[b] + o[b] for b in range(3))) for o in offs]
            real = [(o, q) for o, q in zip(offs, pos) if q is not None]
            m = len(real)
            todo = []
            if m <= 6:
                allp = np.array(list(product((0.0, 1.0), repeat=m)))
                todo.append(np.resize(allp, (N.L, m)))
                if len(allp) > N.L:
                    todo.append(np.resize(allp[N.L:], (N.L, m)))
            else:
                single = np.eye(m)
                rest = (rnd("pat", dims, d, e, m).random((rnds * N.L, m)) < np.choose(np.arange(rnds * N.L) % 4, [0.03, 0.08, 0.2, 0.5])[:, None]).astype(float)
                allp = np.concatenate([np.zeros((1, m)), single, rest])
                for s0 in range(0, len(allp), N.L):
                    todo.append(np.resize(allp[s0:s0 + N.L], (N.L, m)))
            for X in todo:
                N.reset()
                A._affnode.clear()
                N.set_model(Bits({q: X[:, k] for k, (o, q) in enumerate(real)}))
                tr = A.from_fn(n, lambda i: N.cmp("gt", N.leaf(("tr",) + tuple(i)), N.ZERO), "b")
                kw = {f"periodic_{q}": q in per for q in "xyz"}
                out = c.call(f, tr, dims=dims, convex=convex, **kw)
                w = reals(out[a].elem((0,) + face))
                adj = np.zeros(N.L)
                for k, (o, q) in enumerate(real):
                    if o[a] in (-1, 0) and all(o[b] == 0 for b in range(3) if b != a):
                        adj = np.maximum(adj, X[:, k])
                anyt = X.max(axis=1)
                what = f"{dims} convex={convex} periodic={per or 'none'} {d} face {face}"
                site = out[a].elem((0,) + face).site
                bad = np.nonzero((w < 0) | (w > 1))[0]
                c.ok(not len(bad), "weight-range", f"{what}: weight {w[bad[0]] if len(bad) else 0} for trouble at {[o for k, (o, q) in enumerate(real) if len(bad) and X[bad[0], k]]}", site, "weight-range")
                bad = np.nonzero((adj > 0) & (w != 1))[0]
                c.ok(not len(bad), "weight-troubled", f"{what}: weight {w[bad[0]] if len(bad) else 0} at a face of a troubled cell, trouble at {[o for k, (o, q) in enumerate(real) if len(bad) and X[bad[0], k]]}", site, "weight-troubled")
                zero = (anyt == 0) if convex else (adj == 0)
                bad = np.nonzero(zero & (w != 0))[0]
                c.ok(not len(bad), "weight-local", f"{what}: weight {w[bad[0]] if len(bad) else 0} away from trouble, trouble at {[o for k, (o, q) in enumerate(real) if len(bad) and X[bad[0], k]]}", site, "weight-local")
                # single troubled cell: never heavier further away
                if convex:
                    one = {}
                    for q in range(N.L):
                        if X[q].sum() == 1:
                            o = real[int(np.argmax(X[q]))][0]
                            one[o] = w[q]
                    for o1, w1 in one.items():
                        d1 = tuple(max(-1 - x, x) if b == a else abs(x) for b, x in enumerate(o1))
                        for o2, w2 in one.items():
                            d2 = tuple(max(-1 - x, x) if b == a else abs(x) for b, x in enumerate(o2))
                            if all(x <= y for x, y in zip(d1, d2)):
                                c.ok(w2 <= w1, "weight-graded", f"{what}: trouble at offset {o2} weighs {w2}, nearer trouble at {o1} weighs {w1}", site, "weight-graded")


def no3d(c):
    """blending in 3D is refused, not approximated"""
    c.interp()
    f = c.get("slope_limiting", "broadcast_to_troubled_interfaces")
    n = H.sizes("xyz")
    tr = A.from_fn(n, lambda i: N.cmp("gt", N.leaf(("tr",) + tuple(i)), N.ZERO), "b")
    try:
        out = c.call(f, tr, dims="xyz", convex=True)
    except Exception:
        c.count("weight-range")
        return
    for a in range(3):
        w = out[a].elem((0,) + shift(H.gidx("xyz"), a, 0))
        c.ok(w.const is None, "weight-troubled", "3D convex weights depend on the trouble", key="weight-troubled")


def steps(c, method, p, lim, runs, dims="x"):
    """mean trouble of a step = mean over its own evaluations"""
    it = c.interp()
    H.assume_any(it, True)
    named = {"dt": 0.03, "eps": 0.2, "gm1": 0.4, "nx": 12.0, "ny": 12.0, "nz": 12.0}
    N.set_model(Pattern(named, dens=np.full(N.L, 0.5)))
    g = N.add(N.ONE, N.leaf("gm1", 1))
    kw = dict(riemann_solver="llf", gamma=g, a_posteriori_slope_limiting=True, NAD=N.leaf("eps", 1), NAD_mode="local", SED=False, PAD={"vz": (N.const(Fr(1, 4)), N.const(Fr(3, 4)))}, slope_limiter=None)
    ps = {d: p for d in dims}
    s = H.solver(c, dims, ps, ic="leaf", **kw)
    n = H.sizes(dims)
    lf = H.uleaf()
    am = c.attr(s, "am")
    c.call(am, "u").setitem((slice(None),) * 4, A.from_fn((5,) + n, lf, "f"))
    orig = c.attr(s, "f")
    log = []

    def rec(t, u):
        log.append((t, u.copy()))
        return c.it.call(orig, [t, u], {})

    s.attrs["f"] = I.Native("f", rec)
    names = ("mean trouble", "mean NAD mag", "mean PAD mag")
    keys = ("trouble", "NAD violation magnitude", "PAD violation magnitude")
    cell = H.gidx(dims)
    done = 0
    for r in range(runs):
        c.method(s, method, n=r + 1)
        new = log[done:]
        snap = c.attr(s, "snapshots")[-1]
        # evaluations of the last step only
        per = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}[method]
        last = new[-per:]
        probe_vals = {k: N.ZERO for k in names}
        for t, u in last:
            q = H.solver(c, dims, ps, ic="leaf", **kw)
            c.method(q, "f", t, u.copy())
            for k in names:
                probe_vals[k] = N.add(probe_vals[k], c.call(c.attr(q, "am"), k).elem(cell))
        for k, kk in zip(names, keys):
            want = N.div(probe_vals[k], N.const(per))
            c.same(snap[kk].elem(cell), want, "step-mean", f"{method} run {r}: {kk} of the last step = mean over its {per} evaluations", key="step-mean")
        done = len(log)


def cases(tier):
    out = []

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    deep = tier == "thorough"
    for d in "xyz":
        for p in (1, 2, 3):
            add(f"replace {d} p={p}", replaced, dims=d, p=(p,))
        add(f"replace {d} p=0", replaced, dims=d, p=(0,))
        add(f"replace {d} p=2 moncen hllc", replaced, dims=d, p=(2,), lim="moncen", rs="hllc")
        add(f"replace {d} p=2 None", replaced, dims=d, p=(2,), lim=None, nv=6)
        for b in (("free", "reflective"), ("outflow", "free"), ("reflective", "outflow")):
            add(f"replace {d} p=2 {b}", replaced, dims=d, p=(2,), bcs={d: b})
            add(f"blend {d} p=2 {b}", blended, dims=d, p=(2,), bcs={d: b})
        add(f"blend {d} p=1", blended, dims=d, p=(1,))
        add(f"blend {d} p=3 moncen", blended, dims=d, p=(3,), lim="moncen", nv=6)
        for lim in ("minmod", "moncen", None):
            for p in (0, 1, 2, 3):
                add(f"forced {d} p={p} {lim}", replaced, dims=d, p=(p,), lim=lim, force=True, nv=6)
            add(f"forced {d} p=3 {lim} walls", replaced, dims=d, p=(3,), lim=lim, force=True, bcs={d: ("reflective", "free")})
        for p in (0, 2, 3):
            add(f"none {d} p={p}", replaced, dims=d, p=(p,), none=True)
    for dims in ("xy", "yz", "xz"):
        add(f"replace {dims} p=(1,1)", replaced, dims=dims, p=(1, 1))
        add(f"replace {dims} p=(0,1) moncen walls", replaced, dims=dims, p=(0, 1), lim="moncen", bcs={dims[1]: ("free", "reflective")})
        add(f"blend {dims} p=(1,1)", blended, dims=dims, p=(1, 1))
        add(f"blend {dims} p=(1,1) walls", blended, dims=dims, p=(1, 1), bcs={dims[0]: ("free", "reflective")})
        add(f"forced {dims} p=(2,1)", replaced, dims=dims, p=(2, 1), force=True, lim="minmod")
        add(f"forced {dims} p=(1,3) moncen", replaced, dims=dims, p=(1, 3), force=True, lim="moncen", ends=False)
        add(f"none {dims} p=(1,2)", replaced, dims=dims, p=(1, 2), none=True)
    add("replace xyz p=(1,0,1)", replaced, dims="xyz", p=(1, 0, 1), ends=False)
    add("replace xyz p=(0,1,0)", replaced, dims="xyz", p=(0, 1, 0), ends=False)
    add("forced xyz p=1", replaced, dims="xyz", p=(1, 1, 1), force=True, ends=False)
    add("none xyz p=1", replaced, dims="xyz", p=(1, 1, 1), none=True)
    for dims in ("x", "y", "z", "xy", "yz", "xz", "xyz"):
        for cv in (False, True):
            if cv and len(dims) == 3:
                continue
            for per in ([""] + ([dims] if len(dims) == 1 else [dims, dims[0], dims[1]] if len(dims) == 2 else [dims, "y"])):
                for at in ("generic", "first", "last"):
                    add(f"weights {dims} convex={cv} periodic={per} {at}", weights, dims=dims, convex=cv, per=per, rnds=(8 if deep else 2) if cv else 1, at=at)
    add("convex 3D", no3d)
    for m in ("euler", "ssprk2", "ssprk3", "rk4"):
        add(f"steps {m}", steps, method=m, p=0, lim="minmod", runs=1)
    add("steps ssprk2 repeated", steps, method="ssprk2", p=0, lim="minmod", runs=2)
    if deep:
        add("replace xy p=(2,2)", replaced, dims="xy", p=(2, 2), ends=False)
        add("blend xy p=(2,2)", blended, dims="xy", p=(2, 2), ends=False)
        add("replace xyz p=1", replaced, dims="xyz", p=(1, 1, 1), ends=False)
        add("forced xyz p=(2,1,2)", replaced, dims="xyz", p=(2, 1, 2), force=True, ends=False)
        add("steps ssprk3 repeated", steps, method="ssprk3", p=0, lim="minmod", runs=2)
    return out
