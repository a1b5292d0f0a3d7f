"""C01: with periodic boundaries the cell sum of du/dt vanishes for every conserved variable."""
from itertools import product

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "conservation under periodic boundaries"
TECHNIQUE = "abstract interpretation to a value graph; discrete-divergence certificate (telescoping face fluxes equal at the periodic seam) by value numbering"
EXPLANATION = (
    "For each configuration du/dt is computed as a value graph over a symbolic-size periodic grid with arbitrary cell values. "
    "A certificate is searched among the arrays the solver holds: per axis a face array Phi with du/dt = -sum_d (Phi[i+1]-Phi[i])/h at the "
    "generic cell and all boundary cells, and Phi[0] = Phi[n] on the seam; then the total telescopes to zero. Without a certificate, the "
    "window sum of du/dt over every cell a given cell can influence must not depend on that cell's value."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "grid extents large compared with the stencils", "equality of value graphs is decided by 96-lane random fingerprints"]


def total(c, dims, p, rs, nv=5, anyv=True, **opts):
    it = c.interp()
    H.assume_any(it, anyv)
    ps = dict(zip(dims, p))
    s = H.solver(c, dims, ps, riemann_solver=rs, ic="leaf", passives=tuple(f"s{j}" for j in range(nv - 5)), **opts)
    U = H.state(dims, nv)
    _, du = H.rhs(c, s, U)
    n = H.sizes(dims)
    h = S.spacing(n)
    cand = {}
    for d in dims:
        a = H.AX.index(d)
        shape = (nv,) + tuple(m + 1 if b == a else m for b, m in enumerate(n))
        cand[d] = [x for x in H.reachable_arrays(s) if tuple(x.shape) == shape]
    pts = H.cells(dims, 1)
    cert = None
    for combo in product(*[cand[d] for d in dims]):
        good = True
        for cell in pts:
            for v in range(nv):
                acc = N.ZERO
                for d, F in zip(dims, combo):
                    a = H.AX.index(d)
                    i = list(cell)
                    i[a] = i[a] + 1
                    acc = N.add(acc, N.div(N.sub(F.elem((v,) + cell), F.elem((v,) + tuple(i))), h[a]))
                if acc is not du.elem((v,) + cell):
                    good = False
                    break
            if not good:
                break
        if good:
            cert = combo
            break
    if cert is not None:
        for cell in pts:
            for v in range(nv):
                c.count("divergence-form")
        for d, F in zip(dims, cert):
            a = H.AX.index(d)
            others = [x for x in H.cells(dims, 1) if True]
            seen = set()
            for cell in others:
                lo, hi = list(cell), list(cell)
                lo[a], hi[a] = 0, n[a]
                if tuple(lo) in seen:
                    continue
                seen.add(tuple(lo))
                for v in range(nv):
                    c.same(F.elem((v,) + tuple(lo)), F.elem((v,) + tuple(hi)), "seam-flux",
                           f"{d}-flux of variable {v} through the periodic seam: face 0 vs face n{d} at {tuple(lo)}", key=f"seam-flux {d}")
        return
    window(c, dims, p, du, n, nv, opts)


def window(c, dims, p, du, n, nv, opts):
    r = 3 * S.reach(max(p)) + 3 + (8 if opts.get("a_posteriori_slope_limiting") else 0)
    cells = list(product(*[range(-r, r + 1) if d in dims else (0,) for d in H.AX]))
    if len(cells) > 700:
        raise A.Unsupported("no divergence certificate and the influence window is too large")
    bases = [H.gidx(dims), tuple(0 for _ in H.AX)]
    for base in bases:
        for v in range(nv):
            tot = N.ZERO
            for off in cells:
                idx = tuple(S.wrap(b + o, m) if d in dims else 0 for b, o, m, d in zip(base, off, n, H.AX))
                tot = N.add(tot, du.elem((v,) + idx))

            def lm(lf):
                nm = lf.args[0]
                if isinstance(nm, tuple) and nm[0] == "u" and tuple(nm[2:]) == tuple(base):
                    return N.leaf(("other", nm[1]), lf.pos)
                return None

            c.same(N.rebuild(tot, lm), tot, "window-sum", f"total of variable {v} changes with the value of cell {base}", key="window-sum")


def cases(tier):
    out = []

    def add(name, **kw):
        out.append((name, total, kw))

    for rs in ("hllc", "llf", "advection_upwind"):
        for p in (0, 1, 2, 3):
            add(f"x p={p} {rs}", dims="x", p=(p,), rs=rs)
    add("x p=3 hllc passives", dims="x", p=(3,), rs="hllc", nv=7)
    add("y p=2 llf", dims="y", p=(2,), rs="llf")
    add("z p=3 hllc", dims="z", p=(3,), rs="hllc")
    add("xy p=(1,2) hllc", dims="xy", p=(1, 2), rs="hllc")
    add("xz p=(2,2) llf", dims="xz", p=(2, 2), rs="llf")
    add("yz p=(1,3) llf passive", dims="yz", p=(1, 3), rs="llf", nv=6)
    add("xyz p=(1,1,1) llf", dims="xyz", p=(1, 1, 1), rs="llf")
    L = H.LIM
    for p in (1, 3):
        for cv in (False, True):
            add(f"x p={p} limited convex={cv}", dims="x", p=(p,), rs="hllc", convex=cv, **L)
            add(f"x p={p} limited convex={cv} local noSED moncen", dims="x", p=(p,), rs="llf", convex=cv, NAD_mode="local", SED=False, slope_limiter="moncen", nv=6, **L)
    add("x p=2 limited no trouble", dims="x", p=(2,), rs="llf", anyv=False, **L)
    add("x p=2 limited forced", dims="x", p=(2,), rs="llf", force_trouble=True, **L)
    add("y p=2 limited", dims="y", p=(2,), rs="llf", SED=False, **L)
    add("z p=1 limited convex", dims="z", p=(1,), rs="llf", SED=False, convex=True, **L)
    add("xy p=(1,1) limited", dims="xy", p=(1, 1), rs="llf", SED=False, NAD_mode="local", **L)
    add("xy p=(1,1) limited convex", dims="xy", p=(1, 1), rs="llf", SED=False, NAD_mode="local", convex=True, **L)
    for dims in ("xy", "xz", "yz"):
        for p in ((1, 0), (0, 1)):
            add(f"{dims} p={p} limited one variable", dims=dims, p=p, rs="llf", SED=False, NAD_vars=("rho",), slope_limiter="moncen", **L)
    add("yz p=(1,0) limited convex", dims="yz", p=(1, 0), rs="llf", SED=False, convex=True, **L)
    add("xz p=(0,1) limited", dims="xz", p=(0, 1), rs="llf", SED=False, **L)
    for d, p, m in (("x", 1, 5), ("y", 2, 3), ("z", 3, 4), ("x", 2, 8)):
        out.append((f"{d} p={p} on {m} cells", H.concrete, dict(fn=total, n={d: m}, dims=d, p=(p,), rs="hllc")))
    for d, p, m in (("x", 1, 5), ("y", 1, 2), ("z", 2, 7)):
        for cv in (False, True):
            out.append((f"{d} p={p} limited on {m} cells convex={cv}", H.concrete, dict(fn=total, n={d: m}, dims=d, p=(p,), rs="llf", convex=cv, **dict(L, SED=False, NAD_vars=("rho",)))))
    if tier == "thorough":
        add("xyz p=(2,2,2) llf", dims="xyz", p=(2, 2, 2), rs="llf")
        add("xy p=(2,2) limited SED", dims="xy", p=(2, 2), rs="hllc", **L)
        add("xy p=(2,2) limited SED convex", dims="xy", p=(2, 2), rs="llf", convex=True, **L)
        add("xyz p=(1,1,1) limited", dims="xyz", p=(1, 1, 1), rs="llf", SED=False, **L)
    return out
