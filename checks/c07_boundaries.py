"""C07: ghost cells hold what the boundary type promises."""
from fractions import Fraction as Fr

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "ghost cells"
TECHNIQUE = "abstract interpretation of the padding code on a symbolic-size grid; every ghost entry must value-number to the reference ghost value, write-effect analysis for the input"
EXPLANATION = (
    "Boundary padding is abstractly interpreted for every boundary type on every axis and side, alone and in combination, for several ghost widths; "
    "every ghost cell (each distance from the wall, edges and corners) and interior cells must equal the reference: x then y then z sides filled from "
    "the already padded array. Prescribed functions are opaque symbols, so that the coordinates and the time they receive are part of the value; the "
    "same is done for the ghost values that enter du/dt at a stage time different from the solver's time. Malformed specifications must raise."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents larger than the ghost width", "equality of value graphs is decided by 96-lane random fingerprints"]


def points(dims, gw, n):
    """indices in cell coordinates (negative / >= n are ghosts)"""
    per = []
    for a, d in enumerate("xyz"):
        if d not in dims:
            per.append([0])
            continue
        g = gw[a]
        if isinstance(n[a], int):
            per.append(list(range(-g, n[a] + g)))
            continue
        per.append([sym("i" + d)] + sorted({-g, -1}) + [n[a] + j for j in sorted({0, g - 1})] + [0, n[a] - 1] + ([-2, n[a] + 1] if g > 2 else []))
    k = [i for i, q in enumerate(per) if len(q) > 1]
    out = set()
    for i in per[0]:
        for j in per[1]:
            for l in per[2]:
                out.add((i, j, l))
    if len(k) == 3:  # thin out
        out = {q for q in out if sum(1 for a in range(3) if q[a] is not per[a][0] and q[a] != per[a][0]) in (0, 1, 3) or hash(str(q)) % 1 == 0}
    return sorted(out, key=str)


def coords(lo, hi, n, i):
    h = N.div(N.sub(hi, lo), A.to_node(n))
    return N.add(lo, N.mul(N.add(A.to_node(i), N.const(Fr(1, 2))), h))


def dirichlet(tag, nv):
    def f(x, y, z, t=None):
        def el(i):
            q = [a.elem(tuple(i[1:])) for a in (x, y, z)]
            return N.uf((tag, i[0]), *q, A.to_node(t)) if t is not None else N.uf((tag, i[0]), *q)

        return A.from_fn((nv,) + tuple(x.shape), el, "f")

    return I.Native("value_" + tag, f)


def pad(c, dims, gw, bcs, nv=5, via="solver", swap=()):
    """apply the boundary condition and compare every ghost cell"""
    c.interp()
    n = H.sizes(dims)
    B = c.get("boundary_conditions", "BoundaryCondition")
    g3 = tuple(gw[dims.index(d)] if d in dims else 0 for d in "xyz")
    kw = dict(bcs)
    vals = {}
    dom = {d: (N.leaf("lo" + d), N.add(N.leaf("lo" + d), N.leaf("len" + d, 1))) for d in "xyz"}
    for d in dims:
        b = bcs.get(d, ("periodic", "periodic"))
        b = b if isinstance(b, tuple) else (b, b)
        vs = []
        for side, t in zip("lr", b):
            if t == "dirichlet":
                vals[d, side] = "f"
                vs.append(dirichlet(d + side, nv))
            elif t == "dirichlet-const":
                vals[d, side] = "c"
                vs.append(A.from_fn((nv,), (lambda tag: lambda i: N.leaf((tag, i[0])))("c" + d + side), "f"))
            else:
                vs.append(None)
        kw[d] = tuple("dirichlet" if t == "dirichlet-const" else t for t in b)
        if any(v is not None for v in vs):
            kw[d + "_value"] = tuple(vs)
    if via == "solver":
        bc = c.call(B, **kw)
        s = H.solver(c, dims, 1, bc=bc, ic="leaf", passives=tuple(f"s{k}" for k in range(nv - 5)), gamma=N.add(N.ONE, N.leaf("gm1", 1)), **{d: dom[d] for d in dims})
        bc = c.attr(s, "bc")
    else:
        s = None
        bc = c.call(B, **kw)
    lf = lambda i: N.leaf(("u",) + tuple(i), 1 if i[0] == 0 else None)
    U = A.from_fn((nv,) + n, lf, "f")
    t = N.leaf("t")
    out = c.method(bc, "apply", U, gw=g3, t=t)
    want = (nv,) + tuple(m + 2 * g for m, g in zip(n, g3))
    c.ok(tuple(out.shape) == want, "padded-shape", f"shape of the padded array: {out.shape}, required {want}", key="padded-shape")

    def ghost(v, d, side, idx):
        if vals.get((d, side)) == "c":
            return N.leaf(("c" + d + side, v))
        q = [coords(*dom[e], n[a], idx[a]) if e in dims else N.const(Fr(1, 2)) for a, e in enumerate("xyz")]
        if bcs[d if isinstance(bcs[d], str) else d] and (bcs[d][0 if side == "l" else 1] == "ic"):
            g = N.add(N.ONE, N.leaf("gm1", 1))
            w = [N.uf(("ic", k), *q, pos=1 if k in (0, 4) else None) for k in range(5)]
            w += [N.uf(("pic", f"s{k}"), *q) for k in range(nv - 5)]
            return S.cons(w, g)[v]
        return N.uf((d + side, v), *q, t)

    rb = {}
    for d in dims:
        b = bcs.get(d, ("periodic", "periodic"))
        b = b if isinstance(b, tuple) else (b, b)
        rb[d] = tuple("dirichlet" if x == "dirichlet-const" else x for x in b)
    dmr = "special-case-double-mach-reflection-y=0"
    if any(x == dmr for b in rb.values() for x in b):
        free = {k: tuple("free" if x == dmr else x for x in b) for k, b in rb.items()}
        refl = {k: tuple("reflective" if x == dmr else x for x in b) for k, b in rb.items()}
        R1, R2 = S.ghosted(lf, dims, n, free, ghost, nv), S.ghosted(lf, dims, n, refl, ghost, nv)

        def R(v, *q):
            x = coords(*dom["x"], n[0], q[0])
            return N.where(N.cmp("lt", x, N.const(Fr(1, 6))), R1(v, *q), R2(v, *q))
    else:
        R = S.ghosted(lf, dims, n, rb, ghost, nv)
    for q in points(dims, g3, n):
        for v in range(nv):
            i = (v,) + tuple(x + g for x, g in zip(q, g3))
            ghosty = any(x < 0 or x >= m for x, m, d in zip(q, n, "xyz") if d in dims)
            c.same(out.elem(i), R(v, *q), "ghost" if ghosty else "interior", f"variable {v} at cell {q} with {bcs}, width {gw}", key="ghost" if ghosty else "interior")
    # the input is untouched
    for cell in H.cells(dims, 2):
        for v in range(nv):
            c.same(U.elem((v,) + cell), lf((v,) + cell), "input-unchanged", f"input cell {cell} after padding", key="input-unchanged")
            before = out.elem((v,) + tuple(x + g for x, g in zip(cell, g3)))
            c.same(before, lf((v,) + cell), "interior", f"interior cell {cell}", key="interior")
    out.setitem((slice(None),) * 4, N.leaf("other"))
    for cell in H.cells(dims, 1):
        c.same(U.elem((0,) + cell), lf((0,) + cell), "no-alias", f"input cell {cell} after the padded array is overwritten", key="no-alias")


def rhs(c, dims, p, bcs, rs="llf", nv=5):
    """ghost values that enter du/dt: at their coordinates and at the time of the evaluation"""
    c.interp()
    n = H.sizes(dims)
    B = c.get("boundary_conditions", "BoundaryCondition")
    dom = {d: (N.leaf("lo" + d), N.add(N.leaf("lo" + d), N.leaf("len" + d, 1))) for d in "xyz"}
    kw = {d: b for d, b in bcs.items()}
    for d, b in bcs.items():
        if "dirichlet" in b:
            kw[d + "_value"] = tuple(dirichlet(d + e, nv) for e in "lr")
    s = H.solver(c, dims, dict(zip(dims, p)), bc=c.call(B, **kw), ic="leaf", riemann_solver=rs, gamma=N.add(N.ONE, N.leaf("gm1", 1)), csq_floor=N.leaf("floor", 1), **{d: dom[d] for d in dims})
    g = N.add(N.ONE, N.leaf("gm1", 1))
    t = N.leaf("stage time")
    lf = H.uleaf()
    _, du = H.rhs(c, s, A.from_fn((nv,) + n, lf, "f"), t)

    def ghost(v, d, side, idx):
        q = [coords(*dom[e], n[a], idx[a]) if e in dims else N.const(Fr(1, 2)) for a, e in enumerate("xyz")]
        if bcs[d][0 if side == "l" else 1] == "ic":
            return S.cons([N.uf(("ic", k), *q, pos=1 if k in (0, 4) else None) for k in range(5)], g)[v]
        return N.uf((d + side, v), *q, t)

    p3 = [p[dims.index(d)] if d in dims else 0 for d in "xyz"]
    full = {d: bcs.get(d, ("periodic", "periodic")) for d in dims}
    u = S.ghosted(lf, dims, n, full, ghost, nv)
    F = S.faces(u, dims, p3, g, rs, N.leaf("floor", 1), nv=nv)
    h = [N.div(N.sub(dom[d][1], dom[d][0]), A.to_node(m)) if d in dims else N.ONE for d, m in zip("xyz", n)]
    R = S.divergence(F, h)
    for cell in H.cells(dims, 2 if len(dims) == 1 else 1):
        for v in range(nv):
            c.same(du.elem((v,) + cell), R(v, *cell), "ghost-in-rhs", f"du/dt[{v}] at {cell} with {bcs}", key="ghost-in-rhs")


def mirrored(c, d, n, t, side):
    """a mirror image of more cells than there are is rejected, not invented"""
    c.interp()
    b = ["free", "free"]
    b[side] = t
    a = "xyz".index(d)
    U = A.from_fn((5,) + tuple(n if k == a else 1 for k in range(3)), lambda i: N.leaf(("u",) + tuple(i), 1 if i[0] == 0 else None), "f")
    B = c.call(c.get("boundary_conditions", "BoundaryCondition"), **{d: tuple(b)})
    go = lambda g: c.method(B, "apply", U, gw=tuple(g if e == d else 0 for e in "xyz"), t=0.0)
    c.guard(lambda: go(n), "mirror", f"{d} {t}: as many ghost cells as cells")
    c.raises(None, lambda: go(n + 1), "mirror", f"{d} {t}: {n + 1} ghost cells mirrored from {n} cells", key="mirror")


def reject(c, what):
    c.interp()
    B = c.get("boundary_conditions", "BoundaryCondition")
    U = H.state("x")
    if what == "unknown type":
        for d in "xyz":
            for b in (("periodc", "periodic"), ("free", "perodic"), "nonsense"):
                dm = d
                c.raises(None, lambda: c.method(c.call(B, **{d: b}), "apply", H.state(dm), gw=tuple(2 if e == d else 0 for e in "xyz"), t=0.0), "rejected", f"{d}={b!r}", key="rejected")
    elif what == "wrong length":
        for d in "xyz":
            c.raises(None, lambda: c.call(B, **{d: ("free",)}), "rejected", f"{d}=('free',)", key="rejected")
            c.raises(None, lambda: c.call(B, **{d: ("free", "free", "free")}), "rejected", f"{d}= three types", key="rejected")
            c.raises(None, lambda: c.call(B, **{d: ["free", "free"]}), "rejected", f"{d}= list", key="rejected")
    elif what == "wrong value":
        for d in "xyz":
            for val in (None, 1.0, "rho"):
                def go():
                    s = H.solver(c, d, 1, bc=c.call(B, **{d: "dirichlet", d + "_value": val}))
                    return H.rhs(c, s, H.state(d))

                c.raises(("ValueError",), go, "rejected", f"{d} dirichlet value {val!r}", key="rejected")
    elif what == "thick":
        for d in "xyz":
            def go():
                s = H.solver(c, d, 1, bc=c.call(B, **{d: "dirichlet", d + "_value": dirichlet("q", 5)}), slab_buffer_size=3)
                return c.method(c.attr(s, "bc"), "apply", H.state(d), gw=tuple(4 if e == d else 0 for e in "xyz"), t=0.0)

            c.raises(("ValueError",), go, "rejected", f"{d}: ghost region wider than the prepared coordinates", key="rejected")


def cases(tier):
    out = []

    def add(name, **kw):
        out.append((name, pad, kw))

    T = ("periodic", "free", "outflow", "reflective")
    for d in "xyz":
        for w in (1, 2, 3, 5):
            for t in T:
                if w in (1, 3, 5) or t == "periodic":
                    add(f"{d} {t} width {w}", dims=d, gw=(w,), bcs={d: t}, via="bare", nv=6)
        for l in T + ("dirichlet", "dirichlet-const", "ic"):
            for r in T + ("dirichlet", "dirichlet-const", "ic"):
                add(f"{d} {l}|{r}", dims=d, gw=(3,), bcs={d: (l, r)}, nv=6)
    add("default is periodic", dims="x", gw=(2,), bcs={}, via="bare")
    for dims in ("xy", "yz", "xz"):
        a, b = dims
        add(f"{dims} periodic", dims=dims, gw=(2, 3), bcs={a: ("periodic", "periodic"), b: ("periodic", "periodic")})
        for l, r in ((("free", "reflective"), ("outflow", "periodic")), (("reflective", "dirichlet"), ("dirichlet", "reflective")), (("dirichlet", "ic"), ("free", "dirichlet-const"))):
            m = r
            add(f"{dims} {l} x {m}", dims=dims, gw=(2, 3), bcs={a: l, b: m})
            add(f"{dims} {m} x {l}", dims=dims, gw=(3, 1), bcs={a: m, b: l})
    add("xyz mixed", dims="xyz", gw=(1, 2, 3), bcs={"x": ("free", "reflective"), "y": ("dirichlet", "outflow"), "z": ("periodic", "periodic")})
    add("xyz walls", dims="xyz", gw=(2, 2, 1), bcs={"x": ("reflective", "reflective"), "y": ("reflective", "reflective"), "z": ("reflective", "free")})
    add("xyz dirichlet", dims="xyz", gw=(2, 1, 2), bcs={"x": ("dirichlet", "free"), "y": ("ic", "dirichlet"), "z": ("dirichlet", "dirichlet-const")})
    add("double Mach wall", dims="xy", gw=(2, 3), bcs={"x": ("free", "free"), "y": ("special-case-double-mach-reflection-y=0", "free")})
    add("double Mach wall with function", dims="xy", gw=(1, 1), bcs={"x": ("ic", "free"), "y": ("special-case-double-mach-reflection-y=0", "dirichlet")})
    for d in "xyz":
        for p in (0, 1, 2, 3):
            out.append((f"rhs {d} p={p} dirichlet", rhs, dict(dims=d, p=(p,), bcs={d: ("dirichlet", "dirichlet")})))
        out.append((f"rhs {d} p=1 ic|free", rhs, dict(dims=d, p=(1,), bcs={d: ("ic", "free")})))
        out.append((f"rhs {d} p=2 reflective|dirichlet", rhs, dict(dims=d, p=(2,), bcs={d: ("reflective", "dirichlet")})))
    out.append(("rhs xy p=(1,0)", rhs, dict(dims="xy", p=(1, 0), bcs={"x": ("dirichlet", "free"), "y": ("reflective", "dirichlet")})))
    for d in "xyz":
        for n in (1, 2, 3):
            for w in (1, 2, 3, 4, 7):
                for t in T:
                    if w <= n or t in ("periodic", "free"):
                        out.append((f"{d} {t} width {w} on {n} cells", H.concrete, dict(fn=pad, n={d: n}, dims=d, gw=(w,), bcs={d: (t, t)}, via="bare", nv=6)))
            for w in (2, 5):
                for t in (("periodic", "free"), ("free", "periodic"), ("dirichlet", "free"), ("ic", "dirichlet-const")):
                    out.append((f"{d} {t} width {w} on {n} cells", H.concrete, dict(fn=pad, n={d: n}, dims=d, gw=(w,), bcs={d: t})))
            for t in ("outflow", "reflective"):
                for k in (0, 1):
                    out.append((f"mirror {d} {t} {'lr'[k]} of {n} cells", mirrored, dict(d=d, n=n, t=t, side=k)))
    out.append(("xy periodic wide on 2 x 3 cells", H.concrete, dict(fn=pad, n=dict(x=2, y=3), dims="xy", gw=(5, 4), bcs={"x": ("periodic", "periodic"), "y": ("periodic", "periodic")}, via="bare")))
    out.append(("yz mixed wide on 3 x 2 cells", H.concrete, dict(fn=pad, n=dict(y=3, z=2), dims="yz", gw=(4, 3), bcs={"y": ("periodic", "periodic"), "z": ("free", "free")}, via="bare")))
    for w in ("unknown type", "wrong length", "wrong value", "thick"):
        out.append((f"reject {w}", reject, dict(what=w)))
    if tier == "thorough":
        for w in (4, 7, 12):
            for d in "xyz":
                for t in T + ("dirichlet", "ic"):
                    add(f"{d} {t} width {w} (thorough)", dims=d, gw=(w,), bcs={d: (t, t)})
        out.append(("rhs xyz p=(1,1,1)", rhs, dict(dims="xyz", p=(1, 1, 1), bcs={"x": ("dirichlet", "free"), "y": ("reflective", "dirichlet"), "z": ("outflow", "ic")})))
    return out
