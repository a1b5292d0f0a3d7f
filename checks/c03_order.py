"""C03: the semi-discrete right-hand side is the degree-p finite-volume scheme."""
from fvsa import harness as H
from fvsa import nodes as N
from fvsa import arrays as A
from fvsa import spec as S
from fvsa.aff import sym
from fractions import Fraction as Fr

TITLE = "spatial design order"
TECHNIQUE = "abstract interpretation to a value graph; comparison with independently derived reference value graph (global value numbering); exact polynomial moment conditions"
EXPLANATION = (
    "The source is abstractly interpreted on a grid of symbolic size with one symbolic leaf per cell and variable; "
    "stencil weights are compared with weights solved from the polynomial moment conditions in exact rational arithmetic, "
    "and the value graph of du/dt at a generic cell and at boundary cells is compared with the reference (p+1)-order "
    "finite-volume value graph."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents large compared with the stencils", "equality of value graphs is decided by 96-lane random fingerprints"]


def weights(c, p):
    it = c.interp()
    ci = c.get("fv", "conservative_interpolation")
    tr = c.get("fv", "transverse_reconstruction")
    n = sym("nx")
    for ndim, axis in ((1, 0), (4, 1), (4, 2), (4, 3)):
        shape = tuple(n if k == axis else (2 if k == 0 else 1) for k in range(ndim))
        if ndim == 1:
            shape = (n,)
        U = A.from_fn(shape, lambda idx: N.leaf(("q",) + tuple(idx)), "f")
        for what in "lcrt":
            if what == "t":
                out = c.call(tr, u=U, p=p, axis=axis)
                w = S.average_weights(p)
            else:
                out = c.call(ci, u=U, p=p, axis=axis, pos=what)
                w = S.interp_weights(p, what)
            h = S.reach(p)
            c.ok(out.shape[axis] == n - 2 * h and all(a == b for k, (a, b) in enumerate(zip(out.shape, shape)) if k != axis),
                 "stencil-shape", f"p={p} {what} axis={axis}: shape {out.shape}", key=f"shape p={p} {what}")
            for i in (sym("i"), 0, n - 2 * h - 1):
                for v in range(shape[0] if ndim == 4 else 1):
                    idx = [0] * ndim
                    idx[axis] = i
                    if ndim == 4:
                        idx[0] = v
                    got = out.elem(tuple(idx))
                    acc = N.ZERO
                    for j, x in w.items():
                        k = list(idx)
                        k[axis] = i + h + j
                        acc = N.add(acc, N.mul(N.const(x), N.leaf(("q",) + tuple(k))))
                    c.same(got, acc, "stencil-moments", f"degree {p} stencil '{what}' along axis {axis}", key=f"stencil p={p} {what}")


def nested(c, p):
    """3-D centre interpolation and averaging apply the stencil along every axis"""
    c.interp()
    n = H.sizes("xyz")
    U = A.from_fn((2,) + n, lambda idx: N.leaf(("q",) + tuple(idx)), "f")
    f = S.Fld(lambda *idx: N.leaf(("q",) + tuple(idx)))
    for fn, sp in (("interpolate_cell_centers", S.centers), ("interpolate_fv_averages", S.averages)):
        out = c.call(c.get("fv", fn), U, p=p)
        ref = sp(f, p)
        hs = [S.reach(q) for q in p]
        c.ok(all(a == b - 2 * h for a, b, h in zip(out.shape[1:], n, hs)), "stencil-shape", f"{fn} {p}: {out.shape}")
        for i in (H.gidx("xyz"), (0, 0, 0), tuple(a - 2 * h - 1 for a, h in zip(n, hs))):
            c.same(out.elem((1,) + i), ref(1, *[a + h for a, h in zip(i, hs)]), "nested-interpolation", f"{fn} p={p}")


def scheme(c, dims, p, rs, nv=5, k=1, bc=None, L=None):
    """du/dt of the code equals the reference scheme for every cell-average field"""
    it = c.interp()
    ps = {d: q for d, q in zip(dims, p)}
    kw = {}
    L = L or (N.const(1),) * 3
    g = N.add(N.ONE, N.leaf("gm1", 1))
    fl = N.leaf("csqfloor", 1)
    x0 = [N.leaf("x0" + d) for d in "xyz"]
    ln = [N.leaf("L" + d, 1) for d in "xyz"]
    for d, a, l in zip("xyz", x0, ln):
        kw[d] = (a, N.add(a, l))
    s = H.solver(c, dims, ps, riemann_solver=rs, gamma=g, csq_floor=fl, ic="leaf",
                 passives=tuple(f"s{j}" for j in range(nv - 5)), **kw)
    U = H.state(dims, nv)
    dt, du = H.rhs(c, s, U)
    n = H.sizes(dims)
    c.ok(tuple(du.shape) == (nv,) + n, "rhs-shape", f"shape {du.shape}")
    u = S.periodic(H.uleaf(), dims, n)
    pt = tuple(ps.get(d, 0) for d in "xyz")
    F = S.faces(u, dims, pt, g, rs, fl, nv=nv)
    ref = S.divergence(F, S.spacing(n, ln))
    pts = H.cells(dims, k)
    if len(dims) > 1 and max(p) > 1:
        pts = [pts[0], pts[-1], pts[-2 ** len(dims)]]
    for cell in pts:
        for v in range(nv):
            c.same(du.elem((v,) + cell), ref(v, *cell), "scheme",
                   f"du/dt[{v}] at cell {cell}, dims={dims} p={p} {rs}", key="scheme")


def cases(tier):
    out = []
    for p in range(9):
        out.append((f"weights p={p}", weights, dict(p=p)))
    for p in [(1, 2, 3), (4, 0, 5), (2, 7, 1), (3, 3, 8)]:
        out.append((f"nested {p}", nested, dict(p=p)))
    for rs in ("hllc", "llf", "advection_upwind"):
        for p in (0, 1, 2, 3, 4):
            out.append((f"x p={p} {rs}", scheme, dict(dims="x", p=(p,), rs=rs)))
    for p in (5, 6, 7, 8):
        out.append((f"x p={p} llf", scheme, dict(dims="x", p=(p,), rs="llf")))
    out.append(("y p=3 hllc", scheme, dict(dims="y", p=(3,), rs="hllc")))
    out.append(("z p=2 hllc", scheme, dict(dims="z", p=(2,), rs="hllc")))
    out.append(("x p=3 hllc +2 passives", scheme, dict(dims="x", p=(3,), rs="hllc", nv=7)))
    for p in [(0, 0), (1, 1), (2, 2), (3, 3), (3, 1), (0, 2)]:
        out.append((f"xy p={p} llf", scheme, dict(dims="xy", p=p, rs="llf")))
    out.append(("xy p=(2,2) hllc", scheme, dict(dims="xy", p=(2, 2), rs="hllc")))
    out.append(("yz p=(2,3) llf", scheme, dict(dims="yz", p=(2, 3), rs="llf")))
    out.append(("xz p=(3,2) hllc", scheme, dict(dims="xz", p=(3, 2), rs="hllc")))
    out.append(("xyz p=(1,1,1) hllc", scheme, dict(dims="xyz", p=(1, 1, 1), rs="hllc")))
    out.append(("xyz p=(2,1,0) llf", scheme, dict(dims="xyz", p=(2, 1, 0), rs="llf")))
    for d, p, m in (("x", 1, 7), ("x", 1, 8), ("x", 2, 9), ("y", 2, 10), ("z", 1, 9), ("x", 0, 3), ("y", 0, 2), ("z", 0, 5), ("x", 2, 1), ("y", 3, 2), ("z", 4, 3), ("x", 8, 8)):
        out.append((f"{d} p={p} llf n={m}", H.concrete, dict(fn=scheme, n={d: m}, dims=d, p=(p,), rs="llf", k=m)))
    out.append(("xy p=(1,0) llf n=(7,4)", H.concrete, dict(fn=scheme, n=dict(x=7, y=4), dims="xy", p=(1, 0), rs="llf", k=2)))
    out.append(("yz p=(0,1) llf n=(3,8)", H.concrete, dict(fn=scheme, n=dict(y=3, z=8), dims="yz", p=(0, 1), rs="llf", k=2)))
    if tier == "thorough":
        for p in (5, 6, 7, 8):
            for rs in ("hllc", "advection_upwind"):
                out.append((f"x p={p} {rs}", scheme, dict(dims="x", p=(p,), rs=rs)))
        out.append(("xy p=(4,4) hllc", scheme, dict(dims="xy", p=(4, 4), rs="hllc")))
        out.append(("xy p=(5,3) llf", scheme, dict(dims="xy", p=(5, 3), rs="llf")))
        out.append(("xyz p=(2,2,2) hllc", scheme, dict(dims="xyz", p=(2, 2, 2), rs="hllc")))
        out.append(("xyz p=(3,2,1) llf", scheme, dict(dims="xyz", p=(3, 2, 1), rs="llf")))
    return out
