"""C20: mesh and initial averages represent the requested domain."""
from fractions import Fraction as Fr
from itertools import product

import numpy as np

from checks.c15_trouble import _rnd0 as rnd
from checks.c16_fallback import reals
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "mesh and initial averages"
TECHNIQUE = "abstract interpretation to a value graph; lattice coordinates value-numbered for symbolic domains and extents; quadrature decided by moment conditions on monomials up to the configured degrees"
EXPLANATION = (
    "Mesh generation is interpreted for symbolic bounds and cell counts: every inner and ghost-region coordinate must be the lattice point lo + (i + 1/2) (hi - lo) / n continued outwards. "
    "The initial state is interpreted for initial conditions that are monomials up to the degree of each axis (per variable, in primitive, conserved and averaged form, with passive scalars): every entry "
    "must equal the exact cell average of the conserved variable, evaluated at sampled bounds and indices with Gauss nodes interpreted as the real ones. The active axes must follow cell counts and degrees."
)
ASSUMPTIONS = ["Gauss-Legendre nodes and weights of the numpy library are correct", "moment conditions are decided in 96 sampled real models to 1e-9 relative"]


def dom():
    return {d: (N.leaf("lo" + d), N.add(N.leaf("lo" + d), N.leaf("len" + d, 1))) for d in "xyz"}


def point(d, i, n, dm):
    h = N.div(N.sub(dm[d][1], dm[d][0]), A.to_node(n))
    return N.add(dm[d][0], N.mul(N.add(A.to_node(i), N.const(Fr(1, 2))), h))


def size(n, d):
    return sym("n" + d) if n == "n" else n


def idxs(n, d):
    if n == "n":
        m = sym("n" + d)
        return [sym("i" + d), 0, m - 1]
    return sorted({0, n - 1, n // 2})


def mesh(c, n, gw):
    """inner and slab coordinates"""
    c.interp()
    f = c.get("fv", "fv_uniform_meshgen")
    dm = dom()
    N3 = tuple(size(n[a], d) for a, d in enumerate("xyz"))
    ret = c.call(f, N3, x=dm["x"], y=dm["y"], z=dm["z"], slab_thickness=gw)
    if gw == (0, 0, 0):
        inner, slabs = ret, None
    else:
        inner, slabs = ret
    cells_ = list(product(*[idxs(n[a], d) for a, d in enumerate("xyz")]))
    for a, d in enumerate("xyz"):
        c.ok(tuple(inner[a].shape) == N3, "lattice", f"mesh shape {inner[a].shape}", key="lattice")
        for i in cells_:
            c.same(inner[a].elem(i), point(d, i[a], N3[a], dm), "lattice", f"{d} coordinate of cell {i}, n={n}", key="lattice")
    if slabs is None:
        return
    for b, e in enumerate("xyz"):
        for side in "lr":
            if gw[b] == 0:
                continue
            X = slabs[e + side]
            shp = tuple(gw[a] if a == b else N3[a] + 2 * gw[a] for a in range(3))
            for a, d in enumerate("xyz"):
                c.ok(tuple(X[a].shape) == shp, "ghost-lattice", f"shape of slab {e}{side}: {X[a].shape}", key="ghost-lattice")
                per = []
                for q in range(3):
                    if q == b:
                        per.append([(k, k - gw[b] if side == "l" else N3[b] + k) for k in sorted({0, gw[b] - 1})])
                    else:
                        g = [sym("i" + "xyz"[q])] if n[q] == "n" else []
                        per.append([(k + gw[q], k) for k in g + [-gw[q], N3[q] + gw[q] - 1]])
                for t in product(*per):
                    arr, lat = tuple(x[0] for x in t), tuple(x[1] for x in t)
                    c.same(X[a].elem(arr), point(d, lat[a], N3[a], dm), "ghost-lattice", f"{d} coordinate of {e}{side} slab entry {arr}, n={n}, thickness {gw}", key="ghost-lattice")


def attributes(c, n, p):
    """coordinates, spacing and active axes of a solver"""
    c.interp()
    dm = dom()
    kw = {}
    for a, d in enumerate("xyz"):
        kw["n" + d], kw["p" + d] = size(n[a], d), p[a]
    E = c.get("solver", "EulerSolver")
    s = c.it.call(E, [], dict(kw, w0=H.mk_ic(c), progress_bar=False, **dm))
    want = "".join(d for a, d in enumerate("xyz") if not (n[a] == 1 and p[a] == 0))
    c.ok(c.attr(s, "dims") == want and c.attr(s, "ndim") == len(want), "active-axes", f"n={n} p={p}: active axes {c.attr(s, 'dims')!r}, expected {want!r}", key="active-axes")
    for a, d in enumerate("xyz"):
        c.ok(bool(c.attr(s, d + "dim")) == (d in want), "active-axes", f"n={n} p={p}: {d}dim", key="active-axes")
        N1 = kw["n" + d]
        x = c.attr(s, d)
        c.ok(tuple(x.shape) == (N1,), "lattice", f"{d} has shape {x.shape}", key="lattice")
        for i in idxs(n[a], d):
            c.same(x.elem((i,)), point(d, i, N1, dm), "lattice", f"solver {d}[{i}], n={n}", key="lattice")
        c.same(c.attr(s, "h")[a], N.div(N.sub(dm[d][1], dm[d][0]), A.to_node(N1)), "spacing", f"cell size along {d}, n={n}", key="spacing")
        c.ok(tuple(c.attr(s, "n")) == tuple(kw["n" + e] for e in "xyz"), "spacing", "cell counts", key="spacing")


class Gauss:
    def __init__(self, salt=0):
        self.salt = salt

    def __call__(self, n):
        if n.op == "leaf":
            nm = n.args[0]
            if isinstance(nm, tuple) and nm[0] in ("GLx", "GLw"):
                x, w = np.polynomial.legendre.leggauss(nm[1])
                return (abs(x[nm[2]]) if nm[0] == "GLx" else w[nm[2]]) + np.zeros(N.L)
            r = rnd(self.salt, nm)
            if isinstance(nm, tuple) and nm[0] == "sym":
                return np.floor(8 + 20 * r.random(N.L)) if str(nm[1]).startswith("n") else np.floor(8 * r.random(N.L))
            if n.pos == 1:
                return 0.5 + r.random(N.L)
            return 2 * r.random(N.L) - 1
        return None


def power(x, k):
    r = N.ONE
    for _ in range(k):
        r = N.mul(r, x)
    return r


def moment(mono, cell, n3, dm):
    """exact cell average of x^a y^b z^c, as floats per lane"""
    out = np.ones(N.L)
    for a, d in enumerate("xyz"):
        lo, hi = reals(dm[d][0]), reals(dm[d][1])
        h = (hi - lo) / reals(A.to_node(n3[a]))
        x0 = lo + reals(A.to_node(cell[a])) * h
        k = mono[a]
        out = out * ((x0 + h) ** (k + 1) - x0 ** (k + 1)) / ((k + 1) * h)
    return out


def close(c, node, want, rule, what):
    got = reals(node)
    sc = np.maximum(np.abs(want), 1e-3)
    bad = np.nonzero(np.abs(got - want) > 1e-9 * sc)[0]
    c.ok(not len(bad), rule, f"{what}: {[(float(got[k]), float(want[k])) for k in bad[:1]]} (computed, exact average)", node.site, rule)


def averages(c, n, p, form, var, mono):
    """monomial initial data in one variable"""
    c.interp()
    N.set_model(Gauss())
    dm = dom()
    g = N.add(N.ONE, N.leaf("gm1", 1))
    C = [N.leaf(("C", v), 1) for v in range(5)]

    def mon(x, y, z):
        return N.mul(N.mul(power(x, mono[0]), power(y, mono[1])), power(z, mono[2]))

    def fn(v, x, y, z):
        if form in ("primitive",):
            # product structure keeps the conserved variables polynomial
            if var == "rho" and v == 0:
                return mon(x, y, z)
            if var == "v" and v in (1, 2, 3):
                return N.mul(C[v], mon(x, y, z))
            if var == "P" and v == 4:
                return mon(x, y, z)
            return C[v]
        return mon(x, y, z) if v == var else C[v]

    kw = {}
    for a, d in enumerate("xyz"):
        kw["n" + d], kw["p" + d] = size(n[a], d), p[a]
    n3 = tuple(kw["n" + d] for d in "xyz")
    if form == "conserved":
        kw["conservative_ic"] = True
    if form == "averaged":
        kw["conservative_ic"] = kw["fv_ic"] = True
    pas = {}
    if var == "s":
        def pf(x, y, z):
            return A.from_fn(tuple(x.shape), lambda i: mon(*[q.elem(tuple(i)) for q in (x, y, z)]), "f")

        pas = dict(w0_passives={"dye": I.Native("dye", pf)})
    E = c.get("solver", "EulerSolver")
    s = c.it.call(E, [], dict(kw, w0=H.mk_ic(c, fn=fn), gamma=g, progress_bar=False, **pas, **dm))
    u = c.call(c.attr(s, "am"), "u")
    nv = 6 if pas else 5
    c.ok(tuple(u.shape) == (nv,) + n3, "initial-shape", f"state shape {u.shape}", key="initial-shape")
    R = [reals(x) for x in C]
    gm = reals(g)
    for cell in product(*[idxs(n[a], d)[:2] for a, d in enumerate("xyz")]):
        m = moment(mono, cell, n3, dm)
        if form == "primitive":
            rho, vx, vy, vz, P = [R[0], R[1], R[2], R[3], R[4]]
            m2 = moment(tuple(2 * k for k in mono), cell, n3, dm)
            if var == "rho":
                want = [m, m * vx, m * vy, m * vz, P / (gm - 1) + 0.5 * m * (vx**2 + vy**2 + vz**2)]
            elif var == "v":
                want = [rho, rho * vx * m, rho * vy * m, rho * vz * m, P / (gm - 1) + 0.5 * rho * m2 * (vx**2 + vy**2 + vz**2)]
            elif var == "P":
                want = [rho, rho * vx, rho * vy, rho * vz, m / (gm - 1) + 0.5 * rho * (vx**2 + vy**2 + vz**2)]
            else:
                want = [rho, rho * vx, rho * vy, rho * vz, P / (gm - 1) + 0.5 * rho * (vx**2 + vy**2 + vz**2)]
        elif form == "conserved":
            want = [m if v == var else R[v] for v in range(5)]
        else:
            pt = np.ones(N.L)
            for a, d in enumerate("xyz"):
                pt = pt * reals(point(d, cell[a], n3[a], dm)) ** mono[a]
            want = [pt if v == var else R[v] for v in range(5)]
        if pas:
            want.append(R[0] * m if form == "primitive" else None)
        for v, x in enumerate(want):
            if x is not None:
                close(c, u.elem((v,) + cell), x, "initial-average", f"{form} form, {var} = monomial {mono}, conserved variable {v} in cell {cell}, n={n} p={p}")


def prepared(c, form):
    """opaque initial data: averaged form is taken as it is, the state is not shared with what the condition returned"""
    c.interp()
    dm = dom()
    kept = []
    base = c.get("initial_conditions", "InitialCondition")

    def icfun(x, y, z):
        X = A.from_fn((5,) + tuple(x.shape), lambda i: N.uf(("ic", i[0]), *[q.elem(tuple(i[1:])) for q in (x, y, z)], pos=1 if i[0] in (0, 4) else None), "f")
        kept.append((X, x, y, z))
        return X

    cls = I.AClass("CheckIC", [base], {"base_ic": I.StaticM(I.Native("base_ic", lambda *a, **k: I.Native("ic", icfun)))}, base.mod)
    w0 = c.it.instantiate(cls, [], {})
    kw = dict(conservative_ic=form != "primitive", fv_ic=form == "averaged")
    s = H.solver(c, "xy", 2, ic=w0, **kw, **dm)
    u = c.call(c.attr(s, "am"), "u")
    cell = H.gidx("xy")
    if form == "averaged":
        q = [point(d, cell[a], H.sizes("xy")[a], dm) for a, d in enumerate("xyz")]
        for v in range(5):
            c.same(u.elem((v,) + cell), N.uf(("ic", v), *q, pos=1 if v in (0, 4) else None), "taken-as-is", f"averaged data {v}", key="taken-as-is")
    before = [u.elem((v,) + cell) for v in range(5)]
    xs = [c.attr(s, d).elem((cell[a],)) for a, d in enumerate("xyz")]
    for X, *q in kept:
        for v in range(5):
            X.setitem((slice(None),) * 4, N.leaf("junk"))
    for v in range(5):
        c.same(u.elem((v,) + cell), before[v], "own-state", "state unaffected by arrays the condition keeps", key="own-state")
    for a, d in enumerate("xyz"):
        c.same(c.attr(s, d).elem((cell[a],)), xs[a], "own-state", f"{d} coordinates", key="own-state")


def cases(tier):
    out = []

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    ns = [("n", 1, 1), (1, "n", 1), (1, 1, "n"), ("n", "n", 1), (1, "n", "n"), ("n", 1, "n"), ("n", "n", "n"), (1, 1, 1), (5, 4, 3), (2, 1, 7)]
    for n in ns:
        for gw in ((0, 0, 0), (1, 2, 3), (4, 4, 4), (3, 0, 0), (0, 2, 0), (0, 0, 1), (0, 3, 2)):
            add(f"mesh n={n} slab={gw}", mesh, n=n, gw=gw)
        for p in ((0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 3), (1, 1, 1)):
            if n == (1, 1, 1) and p == (0, 0, 0):
                continue
            add(f"attributes n={n} p={p}", attributes, n=n, p=p)
    monos1 = lambda a, k: tuple(k if b == a else 0 for b in range(3))
    for a, d in enumerate("xyz"):
        n = tuple("n" if b == a else 1 for b in range(3))
        for p in range(0, 8 if tier == "thorough" else 6):
            P = tuple(p if b == a else 0 for b in range(3))
            for k in range(p + 1):
                add(f"average {d} p={p} conserved x^{k}", averages, n=n, p=P, form="conserved", var=k % 5, mono=monos1(a, k))
                add(f"average {d} p={p} primitive rho x^{k}", averages, n=n, p=P, form="primitive", var="rho", mono=monos1(a, k))
                if k in (0, p):
                    add(f"average {d} p={p} primitive P x^{k}", averages, n=n, p=P, form="primitive", var="P", mono=monos1(a, k))
                    add(f"average {d} p={p} passive x^{k}", averages, n=n, p=P, form="primitive", var="s", mono=monos1(a, k))
                    add(f"average {d} p={p} averaged x^{k}", averages, n=n, p=P, form="averaged", var=k % 5, mono=monos1(a, k))
                if 2 * k <= p:
                    add(f"average {d} p={p} primitive v x^{k}", averages, n=n, p=P, form="primitive", var="v", mono=monos1(a, k))
    for n, P in ((("n", "n", 1), (2, 3, 0)), ((1, "n", "n"), (0, 3, 1)), (("n", 1, "n"), (1, 0, 3)), (("n", "n", "n"), (1, 2, 3)), (("n", "n", "n"), (3, 1, 2)), ((3, 4, 5), (2, 2, 2))):
        for v in (0, 4):
            for mono in {P, tuple(max(0, q - 1) for q in P), (P[0], 0, 0), (0, P[1], 0), (0, 0, P[2])}:
                add(f"average n={n} p={P} conserved {v} {mono}", averages, n=n, p=P, form="conserved", var=v, mono=mono)
        add(f"average n={n} p={P} primitive", averages, n=n, p=P, form="primitive", var="rho", mono=P)
    for form in ("primitive", "conserved", "averaged"):
        add(f"prepared {form}", prepared, form=form)
    return out
