"""C15: troubled cells are exactly the cells the criteria name."""
import hashlib
from fractions import Fraction as Fr
from itertools import product

import numpy as np

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import Aff, sym

TITLE = "troubled-cell detection"
TECHNIQUE = "abstract interpretation to a value graph; detector flags value-numbered against the criteria in an ordered-field model of the comparisons, with range analysis of the global extrema"
EXPLANATION = (
    "The detector is interpreted on arbitrary previous and candidate states in every dimension and for every combination of mode, range type, variable selection, "
    "bounds and smooth-extremum detection: at a generic interior cell the flag must be the same value as the written-out criteria (neighbourhood of all adjacent cells, "
    "including diagonals; threshold of the configured range; one-sided slopes of the smooth-extremum detector; bounds), comparisons being interpreted in a consistent "
    "ordered model including ties, and the global extrema must range over the whole array of that variable. Magnitudes must be positive exactly where their criterion "
    "fires. At solver level the recorded trouble of one evaluation must be those criteria applied to the primitive averages of the state and of the candidate update."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "comparisons are interpreted in 96 sampled total orders (with ties) of the operands"]
VARS = ("rho", "vx", "vy", "vz", "P")
SEEDS = {}


def rnd(*key):
    h = int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "little")
    return np.random.default_rng(h % (1 << 32) + N.SEED * 7919)


class Dyadic:
    """generator of multiples of 2**-12: sums and products with powers of two are exact, so ties are ties"""

    def __init__(self, r):
        self.r = r

    def random(self, n):
        return np.floor(self.r.random(n) * 4096 + 0.5) / 4096

    def __getattr__(self, k):
        return getattr(self.r, k)


_rnd0 = rnd


def rnd(*key):
    return Dyadic(_rnd0(*key))


def off(x, c):
    d = x - c
    if isinstance(d, Aff):
        return d.c if not d.s else None
    return d


class Model:
    """ordered model of one neighbourhood: previous values w, candidate values s, bounds, tolerances"""

    def __init__(self, dims, cell, eps, sed_eps, lead, names=None):
        self.dims, self.cell = dims, cell
        self.cache = {}
        self.lead = lead
        self.named = {"eps": eps, "sed": sed_eps}
        self.kind = {v: rnd("kind", v, dims).integers(0, 5, N.L) for v in range(5)}
        # most lanes: few variables are out of range, so that every single variable decides somewhere
        self.act = {v: rnd("act", v, dims).random(N.L) < (0.25 if names is None else 0.9 / len(names)) for v in range(5)}
        for v in range(5):
            self.build(v)

    def build(self, v):
        dims = self.dims
        W = {}
        r = rnd("w", v, dims)
        for o in product(*[((-1, 0, 1) if d in dims else (0,)) for d in "xyz"]):
            W[o] = r.random(N.L)
        M = np.maximum.reduce(list(W.values()))
        m = np.minimum.reduce(list(W.values()))
        self.w = getattr(self, "w", {})
        self.w[v] = W
        g = rnd("range", v, dims).random(N.L)
        gM, gm = M + 0.25 * g, m - 0.25 * (1 - g) - 1 / 64
        self.glob = getattr(self, "glob", {})
        self.glob[v] = (gM, gm)
        # centre candidate: inside, slightly outside, or far outside the ranges
        r = rnd("s", v, dims)
        inside = m + (M - m) * (1 / 16 + 7 / 8 * r.random(N.L))
        e = 0.25
        edges = [M + e * (M - m), m - e * (M - m), M + e * (gM - gm), m - e * (gM - gm), (1 + e) * M, (1 - e) * m, (1 + e) * gM, (1 - e) * gm, (1 + e) * gM + 1 / 32, (1 - e) * gm - 1 / 32, M, m]
        pick = r.integers(0, len(edges), N.L)
        base = np.choose(pick, edges)
        jit = np.choose(r.integers(0, 3, N.L), [np.zeros(N.L), 1 / 64 + 0 * M, -1 / 64 + 0 * M])
        self.c = getattr(self, "c", {})
        self.c[v] = np.where(self.act[v], base + jit, inside)
        # profile along each axis
        self.prof = getattr(self, "prof", {})
        for d in dims:
            q = rnd("prof", v, d, dims)
            c2 = q.choice([-1.0, 1.0], N.L) * (0.2 + q.random(N.L))
            self.prof[v, d] = (0.3 * (q.random(N.L) - 0.5) * c2, c2, q)

    def s(self, v, o):
        k = (v, o)
        if k in self.cache:
            return self.cache[k]
        if all(x == 0 for x in o):
            r = self.c[v]
        else:
            r = self.c[v].copy()
            for a, d in enumerate("xyz"):
                if d in self.dims and o[a]:
                    b, c2, _ = self.prof[v, d]
                    r = r + b * o[a] + c2 * o[a] ** 2
            noise = rnd("noise", v, o).random(N.L) - 0.5
            lin_ = self.c[v].copy()
            for a in range(3):
                lin_ = lin_ + 0.1 * o[a]
            rough = self.c[v] + noise * 2
            semi = r + 0.9 * noise
            r = np.choose(self.kind[v], [r, lin_, rough, semi, r + 0.05 * noise])
        self.cache[k] = r
        return r

    def __call__(self, n):
        if n.op == "leaf":
            nm = n.args[0]
            if nm in self.named:
                return self.named[nm] + np.zeros(N.L)
            if isinstance(nm, tuple) and nm[0] in ("w", "s"):
                o = tuple(off(x, y) for x, y in zip(nm[2:], self.cell))
                if any(x is None for x in o):
                    return None
                if nm[0] == "s":
                    return self.s(nm[1], o)
                if o in self.w[nm[1]]:
                    return self.w[nm[1]][o]
                lo, hi = self.glob[nm[1]][1], self.glob[nm[1]][0]
                return lo + (hi - lo) * rnd("far", nm[1], o).random(N.L)
            if isinstance(nm, tuple) and nm[0] == "bound":
                v, side = nm[1], nm[2]
                c = self.c[v]
                r = rnd("bound", v, side, self.dims)
                far = 5.0
                t = r.integers(0, 12, N.L)
                x = np.where(t == 0, 0.0, np.where(t == 1, -1 / 8, np.where(t == 2, 1 / 8, far)))
                return c - x if side == 0 else c + x
            return None
        if n.op == "red":
            kind, b = n.args[0][0], n.args[1]
            sgn = 1
            if b.op == "neg":
                b, sgn = b.args[0], -1
            if b.op == "leaf" and isinstance(b.args[0], tuple) and b.args[0][0] == "w":
                hi = (kind == "max") == (sgn == 1)
                return sgn * self.glob[b.args[0][1]][0 if hi else 1]
        return None


def sed_ok(s, v, cell, dims, eps):
    """smooth extremum (or no curvature) at the cell along every axis"""
    ok = N.ONE

    def at(a, k):
        i = list(cell)
        i[a] = i[a] + k
        return s(v, *i)

    half = N.const(Fr(1, 2))
    for d in dims:
        a = "xyz".index(d)
        D = {k: N.mul(half, N.sub(at(a, k + 1), at(a, k - 1))) for k in range(-3 + 1, 3)}
        for k in (-1, 0, 1):
            dv = N.mul(N.const(Fr(1, 4)), N.sub(D[k + 1], D[k - 1]))
            ql, qr = N.sub(D[k], D[k - 1]), N.sub(D[k + 1], D[k])
            flat = N.cmp("le", N.absolute(dv), eps)
            up = N.land(N.cmp("gt", dv, N.ZERO), N.land(N.cmp("ge", ql, dv), N.cmp("ge", qr, dv)))
            dn = N.land(N.cmp("lt", dv, N.ZERO), N.land(N.cmp("le", ql, dv), N.cmp("le", qr, dv)))
            ok = N.land(ok, N.lor(flat, N.lor(up, dn)))
    return ok


def criteria(w, s, cell, dims, eps, mode, rng, glob, names, pad, sed, sed_eps):
    """(nad, pad) flags of a cell"""
    nad = N.ZERO
    for v in range(5):
        if names is not None and VARS[v] not in names:
            continue
        nb = [w(v, *[cell[a] + o[a] for a in range(3)]) for o in product(*[((-1, 0, 1) if d in dims else (0,)) for d in "xyz"])]
        M, m = N.nary("max", nb), N.nary("min", nb)
        GM, Gm = glob(v) if mode == "global" else (M, m)
        x = s(v, *cell)
        if rng == "relative":
            t = N.mul(eps, N.sub(GM, Gm))
            lo, hi = N.sub(m, t), N.add(M, t)
        else:
            lo, hi = N.sub(Gm, N.mul(eps, N.absolute(Gm))), N.add(GM, N.mul(eps, N.absolute(GM)))
        f = N.lor(N.cmp("lt", x, lo), N.cmp("gt", x, hi))
        if sed:
            f = N.land(f, N.lnot(sed_ok(s, v, cell, dims, sed_eps)))
        nad = N.lor(nad, f)
    p = N.ZERO
    for k, (lo, hi) in (pad or {}).items():
        x = s(VARS.index(k), *cell)
        p = N.lor(p, N.lor(N.cmp("lt", x, A.to_node(lo)), N.cmp("gt", x, A.to_node(hi))))
    return nad, p


def verdict(c, got, nmag, pmag, nad, pad, what):
    c.same(N.truthy(A.to_node(got)), N.lor(nad, pad), "flag", f"{what}: trouble flag", key="flag")
    for mag, f, nm in ((nmag, nad, "NAD"), (pmag, pad, "PAD")):
        sg = N.signfp(A.to_node(mag))
        bits = f.fp if f.const is None else np.full(N.L, int(f.const))
        c.ok(bool((sg == bits).all()), "magnitude", f"{what}: {nm} magnitude is positive exactly where the criterion fires ({int((sg != bits).sum())} lanes differ): {N.pretty(A.to_node(mag), 3)[:200]}", A.to_node(mag).site, "magnitude")


def var_fields(c, f, base):
    pass


def detect(c, dims, mode, rng, names, padk, sed, at="generic"):
    it = c.interp()
    f = c.get("slope_limiting", "detect_troubled_cells")
    n = H.sizes(dims)
    ext = tuple(n[a] + 6 if d in dims else 1 for a, d in enumerate("xyz"))
    cell = {"generic": H.gidx(dims), "first": (0, 0, 0), "last": tuple(n[a] - 1 if d in dims else 0 for a, d in enumerate("xyz"))}[at]
    full = tuple(cell[a] + 3 if d in dims else 0 for a, d in enumerate("xyz"))
    lw = lambda v, *i: N.leaf(("w", v) + tuple(i))
    ls = lambda v, *i: N.leaf(("s", v) + tuple(i))
    N.set_model(Model(dims, full, 0.25, 0.01, None, names))
    eps, se = N.leaf("eps", 1), N.leaf("sed", 1)
    W = A.from_fn((5,) + ext, lambda i: lw(*i), "f")
    X = A.from_fn((5,) + ext, lambda i: ls(*i), "f")
    pad = None
    if padk is not None:
        pad = {}
        for k in padk:
            if k.endswith("+"):
                pad[k[:-1]] = (N.leaf(("bound", VARS.index(k[:-1]), 0)), N.inf(1))
            elif k.endswith("-"):
                pad[k[:-1]] = (N.inf(-1), N.leaf(("bound", VARS.index(k[:-1]), 1)))
            else:
                pad[k] = tuple(N.leaf(("bound", VARS.index(k), j)) for j in (0, 1))
    A.red_log.clear()
    kw = dict(u=W, u_candidate=X, dims=dims, NAD_eps=eps, mode=mode, range_type=rng, PAD_bounds=pad, SED=sed, SED_eps=se, xp="numpy")
    if names is not None:
        kw["NAD_vars"] = names
    out = c.call(f, **kw)
    T, nm, pm = out
    for q in (T, nm, pm):
        c.ok(tuple(q.shape) == n, "shape", f"flags have one entry per cell, got {q.shape}", key="shape")
    Wr = A.from_fn((5,) + ext, lambda i: lw(*i), "f")
    gM = A.reduce("max", Wr, axis=(1, 2, 3), keepdims=True)
    gm = A.reduce("min", Wr, axis=(1, 2, 3), keepdims=True)
    glob = lambda v: (gM.elem((v, 0, 0, 0)), gm.elem((v, 0, 0, 0)))
    nad, pd = criteria(lw, ls, full, dims, eps, mode, rng, glob, names, pad, sed, se)
    what = f"{dims} {mode} {rng} vars={names} bounds={padk} SED={sed} cell {at}"
    t = A.to_node(T.elem(cell))
    verdict(c, t, nm.elem(cell), pm.elem(cell), nad, pd, what)
    # the global extrema cover the whole array
    seen = set()
    for r in N.find_ops(t, lambda y: y.op == "red"):
        seen.add(r.id)
        for kind, shp, symb, base, body, rd in A.red_log.get(r.id, []):
            lfs = [x for x in N.leaves(body).values() if isinstance(x.args[0], tuple) and x.args[0][0] == "w"]
            if not lfs:
                continue
            v = lfs[0].args[0][1]
            sa = [a for a, d in enumerate("xyz") if d in dims]
            for k, a in zip(sorted(symb), sa):
                for e, want in ((0, 0), (shp[k] - 1, ext[a] - 1)):
                    b = list(base)
                    for kk in symb:
                        b[kk] = sym(f"iz{kk}")
                    b[k] = e
                    g = A.to_node(rd(tuple(b)))
                    l2 = [x for x in N.leaves(g).values() if isinstance(x.args[0], tuple) and x.args[0][0] == "w"]
                    c.ok(len(l2) == 1 and l2[0].args[0][1] == v and l2[0].args[0][2 + a] == want, "global-range", f"{what}: extremum of variable {v} runs over the whole array (axis {a}, end {want}), reads {l2}", t.site, "global-range")
    # arguments untouched
    g0 = (2,) + tuple(full)
    c.same(W.elem(g0), lw(*g0), "pure", "previous state unchanged", key="pure")
    c.same(X.elem(g0), ls(*g0), "pure", "candidate unchanged", key="pure")


class Field:
    """ordered model at solver level: every state leaf gets its own value"""

    def __init__(self, named):
        self.named = named
        self.cache = {}

    def __call__(self, n):
        if n.op != "leaf":
            if n.op == "red":
                k = repr(n.fp.tobytes())
                r = rnd("red", k).random(N.L)
                kind, b = n.args[0][0], n.args[1]
                if kind in ("max", "min"):
                    return (2.0 + r) if kind == "max" else -(2.0 + r)
            return None
        nm = n.args[0]
        if nm in self.named:
            return self.named[nm] + np.zeros(N.L)
        if isinstance(nm, tuple) and nm[0] == "u":
            r = rnd("u", nm)
            v = nm[1]
            x = r.random(N.L)
            return 1.0 + 0.5 * x if v == 0 else 2.0 + x if v == 4 else 0.4 * (x - 0.5)
        if n.pos == 1:
            return 1.0 + rnd("pos", nm).random(N.L)
        return rnd("any", nm).random(N.L) - 0.5


def solver_level(c, dims, p, bcs=None, nv=5, **opts):
    """recorded trouble = criteria on the averages of state and candidate"""
    it = c.interp()
    H.assume_any(it, True)
    named = {"dt": 0.02, "eps": 0.05, "sed": 0.02, "plo": 0.9, "phi": 1.6, "vlo": -0.1, "gm1": 0.4}
    for d in "xyz":
        named["n" + d] = 12.0
    N.set_model(Field(named))
    g = N.add(N.ONE, N.leaf("gm1", 1))
    eps, se = N.leaf("eps", 1), N.leaf("sed", 1)
    kw = dict(riemann_solver="llf", gamma=g, passives=tuple(f"s{j}" for j in range(nv - 5)))
    if bcs:
        B = c.get("boundary_conditions", "BoundaryCondition")
        kw["bc"] = c.call(B, **bcs)
    o = dict(opts)
    pad = o.pop("pad", None)
    P = None
    if pad == "custom":
        P = {"P": (N.leaf("plo", 1), N.inf(1)), "vx": (N.leaf("vlo"), N.leaf("phi", 1))}
    elif pad == "none":
        P = {}
    if P is not None:
        o["PAD"] = P
    names = o.get("NAD_vars")
    ps = dict(zip(dims, p))
    free = H.solver(c, dims, ps, ic="leaf", **kw)
    lim = H.solver(c, dims, ps, ic="leaf", NAD=eps, SED_tolerance=se, **dict(kw, **dict(H.LIM, **o)))
    lf = H.uleaf()
    n = H.sizes(dims)
    U = lambda: A.from_fn((nv,) + n, lf, "f")
    _, k = H.rhs(c, free, U())
    A.red_log.clear()
    H.rhs(c, lim, U())
    dt = N.leaf("dt", 1)
    p3 = [ps.get(d, 0) for d in "xyz"]
    b3 = bcs or {d: ("periodic", "periodic") for d in dims}

    def prim_of(u):
        ub = S.ghosted(u, dims, n, b3, nvars=nv)
        uc = S.centers(ub, p3)
        return S.averages(S.Fld(lambda v, *i: S.prim([uc(j, *i) for j in range(5)], g)[v]), p3)

    memo = {}

    def star(i):
        i = tuple(i)
        if i not in memo:
            memo[i] = N.add(lf(i), N.mul(dt, k.elem(i)))
        return memo[i]

    w, s = prim_of(lf), prim_of(star)
    mode, rng, sed = o.get("NAD_mode", "global"), o.get("NAD_range", "relative"), o.get("SED", True)
    pads = {"rho": (0, N.inf(1)), "P": (0, N.inf(1))} if P is None else P
    am = c.attr(lim, "am")
    cells = [H.gidx(dims)]
    if not bcs:
        cells.append(tuple(0 for _ in "xyz"))
    for cell in cells:
        if mode == "global":
            ext = tuple(n[a] + 6 if d in dims else 1 for a, d in enumerate("xyz"))
            sh = tuple(3 if d in dims else 0 for d in "xyz")
            Wr = A.from_fn((5,) + ext, lambda i: w(i[0], *[i[1 + a] - sh[a] for a in range(3)]), "f")
            gM = A.reduce("max", Wr, axis=(1, 2, 3), keepdims=True)
            gm = A.reduce("min", Wr, axis=(1, 2, 3), keepdims=True)
            glob = lambda v: (gM.elem((v, 0, 0, 0)), gm.elem((v, 0, 0, 0)))
        else:
            glob = None
        nad, pd = criteria(w, s, cell, dims, eps, mode, rng, glob, names, pads, sed, se)
        verdict(c, c.call(am, "mean trouble").elem(cell), c.call(am, "mean NAD mag").elem(cell), c.call(am, "mean PAD mag").elem(cell), nad, pd, f"solver {dims} p={p} {opts} at {cell}")


def rejects(c):
    f = c.get("slope_limiting", "detect_troubled_cells")
    W = A.from_fn((5, sym("nx") + 6, 1, 1), lambda i: N.leaf(("w",) + tuple(i)), "f")
    for kw in (dict(mode="everywhere"), dict(range_type="percent"), dict(mode="x", range_type="absolute"), dict(NAD_vars=("speed",)), dict(PAD_bounds={"temperature": (0, 1)}, SED=False)):
        c.raises(None, lambda: c.call(f, u=W, u_candidate=W.copy(), dims="x", **kw), "rejects", f"detector option {kw}", key="rejects")


def cases(tier):
    out = []

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    vs = [None, ("rho",), ("P",), ("vx", "vz"), ("rho", "vx", "vy", "vz", "P")]
    pads = [None, ("rho", "P"), ("vy+",), ("vx", "vz-", "rho+")]
    for dims in ("x", "y", "z", "xy", "yz", "xz", "xyz"):
        for mode in ("global", "local"):
            for rng in ("relative", "absolute"):
                for sed in (False, True):
                    for i, names in enumerate(vs):
                        for j, pk in enumerate(pads):
                            if tier != "thorough":
                                if len(dims) == 3 and (i + j) % 3:
                                    continue
                                if len(dims) == 2 and (i + j) % 2:
                                    continue
                            add(f"detect {dims} {mode} {rng} SED={sed} {names} {pk}", detect, dims=dims, mode=mode, rng=rng, names=names, padk=pk, sed=sed)
                    for at in ("first", "last"):
                        add(f"detect {dims} {mode} {rng} SED={sed} {at}", detect, dims=dims, mode=mode, rng=rng, names=None, padk=("rho", "P"), sed=sed, at=at)
    L = dict(SED=False)
    for d in "xyz":
        add(f"solver {d} p=0", solver_level, dims=d, p=(0,), NAD_mode="local", pad="custom", SED=False)
        add(f"solver {d} p=0 sed", solver_level, dims=d, p=(0,), NAD_mode="local", pad="custom", SED=True)
        add(f"solver {d} p=1 global", solver_level, dims=d, p=(1,), SED=False)
    add("solver x p=2 local absolute", solver_level, dims="x", p=(2,), NAD_mode="local", NAD_range="absolute", SED=False, NAD_vars=("rho", "P"))
    add("solver x p=0 global absolute", solver_level, dims="x", p=(0,), NAD_range="absolute", SED=False, pad="none")
    add("solver x p=0 NAD_vars sed", solver_level, dims="x", p=(0,), NAD_mode="local", NAD_vars=("vx",), pad="none")
    add("solver x p=0 passives", solver_level, dims="x", p=(0,), NAD_mode="local", nv=6, SED=False)
    for dims in ("xy", "yz", "xz"):
        add(f"solver {dims} p=0", solver_level, dims=dims, p=(0, 0), NAD_mode="local", pad="custom", SED=False)
    add("solver x free", solver_level, dims="x", p=(1,), bcs={"x": ("free", "reflective")}, NAD_mode="local", SED=False)
    if tier == "thorough":
        add("solver xyz p=0", solver_level, dims="xyz", p=(0, 0, 0), NAD_mode="local", SED=False)
        add("solver x p=3", solver_level, dims="x", p=(3,), NAD_mode="local", SED=True)
    add("rejects", rejects)
    return out
