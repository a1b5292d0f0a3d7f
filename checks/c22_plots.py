"""C22: plots and samples show the data that was asked for."""
from fractions import Fraction
from itertools import product

import numpy as np

from checks.c15_trouble import _rnd0 as rnd
from checks.c16_fallback import reals
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N

TITLE = "plots and samples"
TECHNIQUE = "abstract interpretation with the plotting library as an opaque sink: the value graphs reaching plot/imshow/contour are read off and compared with the selected snapshot; trace partitioning over the order of coordinates and trouble patterns"
EXPLANATION = (
    "The plotting and sampling functions are interpreted on snapshots with symbolic data and coordinates for every nearest snapshot, nearest cell, free axis (pair) and variable. What reaches the plotting library is read as a display "
    "(position of each pixel from row, column, origin and extent; node positions for contours) and must show the selected variable of the selected cells at their coordinates, marked exactly where the criterion holds; "
    "shell averages must be the means over exactly the cells of each shell. Snapshots must stay unmodified, and requests that fix too many coordinates must be rejected."
)
ASSUMPTIONS = ["comparisons of coordinates and violation magnitudes are decided in sampled models, one per ordering class", "matplotlib's plot, imshow and contour behave as documented", "grids of 3 by 4 by 2 cells and four snapshots stand for all (the code does not branch on sizes)"]
SIZE = (3, 4, 2)
T = [0.0, 0.5, 0.125, 1.5]  # deliberately unsorted
NAN = 7.5e77
VARS = {"rho": 0, "vx": 1, "vy": 2, "vz": 3, "P": 4}


class M:
    """values of coordinates and magnitudes; data differ from lane to lane"""

    def __init__(self, fixed):
        self.fixed = fixed

    def __call__(self, n):
        if n.op != "leaf":
            return None
        nm = n.args[0]
        if nm == "nan":
            return NAN + np.zeros(N.L)
        if nm == "pi":
            return np.pi + np.zeros(N.L)
        if nm in self.fixed:
            return self.fixed[nm] + np.zeros(N.L)
        return 0.2 + rnd("plots", nm).random(N.L)


def coords(d, n, q):
    """ascending, unevenly spaced, different in each snapshot"""
    o = {"x": 0.0, "y": 10.0, "z": -7.0}[d] + 0.015625 * q
    return [o + 0.25 * i + 0.0625 * i * i for i in range(n)]


def setup(c, pad=(), nad=(), nt=4, solver=False, dims="xy"):
    """snapshots with symbolic content; pad, nad: troubled cells of every snapshot with magnitudes"""
    it = c.interp()
    N.reset()
    A._affnode.clear()
    fixed = {}
    s = None
    if solver:
        s = H.solver(c, dims, {d: 1 for d in dims}, ic="leaf", passives=("s0",))
        nv = 6
    else:
        nv = 5
    snaps = []
    for q in range(nt):
        fixed[("t", q)] = T[q]
        sn = {"t": N.leaf(("t", q))}
        for d, n in zip("xyz", SIZE):
            for i, v in enumerate(coords(d, n, q)):
                fixed[("c", d, q, i)] = v
            sn[d] = A.from_fn((n,), (lambda d, q: lambda i: N.leaf(("c", d, q, i[0])))(d, q), "f").copy()
        sn["w"] = A.from_fn((nv,) + SIZE, (lambda q: lambda i: N.leaf(("w", q) + tuple(i)))(q), "f").copy()
        pd, nd = dict(pad), dict(nad)
        for i in product(*map(range, SIZE)):
            fixed[("PAD", q) + i] = pd.get(i, 0.0)
            fixed[("NAD", q) + i] = nd.get(i, 0.0)
            fixed[("tr", q) + i] = 0.5 if i in pd or i in nd else 0.0
        for k, l in (("trouble", "tr"), ("NAD violation magnitude", "NAD"), ("PAD violation magnitude", "PAD")):
            sn[k] = A.from_fn(SIZE, (lambda l, q: lambda i: N.leaf((l, q) + tuple(i)))(l, q), "f").copy()
        snaps.append(sn)
    N.set_model(M(fixed))
    prev = it.oracle

    def oracle(n):
        v = reals(n)
        if (v == v[0]).all():
            return bool(v[0])
        return prev(n) if prev is not None else None

    it.oracle = oracle
    if s is not None:
        s.attrs["snapshots"] = snaps
    return it, snaps, s, fixed


def untouched(c, snaps, nv=5):
    c.ok(len(snaps) == 4, "snapshots-untouched", "snapshot list keeps its length", key="snapshots-untouched")
    for q, sn in enumerate(snaps):
        ok = A.to_node(sn["t"]).id == N.leaf(("t", q)).id
        for d, n in zip("xyz", SIZE):
            ok = ok and all(sn[d].elem((i,)).id == N.leaf(("c", d, q, i)).id for i in range(n))
        for i in product(*map(range, SIZE)):
            for k, l in (("trouble", "tr"), ("NAD violation magnitude", "NAD"), ("PAD violation magnitude", "PAD")):
                ok = ok and sn[k].elem(i).id == N.leaf((l, q) + i).id
            for v in range(nv):
                ok = ok and sn["w"].elem((v,) + i).id == N.leaf(("w", q, v) + i).id
        c.ok(ok and len(sn) == 8, "snapshots-untouched", f"snapshot {q} is unmodified", key="snapshots-untouched")


def data(fixed, q, param, cell):
    """required value, per lane"""
    w = lambda v: 0.2 + rnd("plots", ("w", q, v) + cell).random(N.L)
    if param == "v":
        return np.sqrt(w(1) ** 2 + w(2) ** 2 + w(3) ** 2)
    if param in VARS:
        return w(VARS[param])
    if param == "s0":
        return w(5)
    l = {"trouble": "tr", "NAD": "NAD", "PAD": "PAD"}[param]
    return fixed[(l, q) + cell] + np.zeros(N.L)


def marked(fixed, q, mode, tol, cell):
    p, n = fixed[("PAD", q) + cell], fixed[("NAD", q) + cell]
    return {"all": p > 0 or n > tol, True: p > 0 or n > tol, "NAD": n > tol, "PAD": p > 0}[mode]


def agree(c, node, want, rule, what):
    got = reals(node)
    bad = np.nonzero(~(np.abs(got - want) <= 1e-9 * np.abs(want)))[0]
    c.ok(not len(bad), rule, f"{what}: {[(float(got[k]), float(want[k])) for k in bad[:1]]} (shown, required) {N.pretty(node)[:60]}", node.site, rule)


def sink(it, *names):
    ev = [e for e in it.events if e.kind == "extcall" and e.data[0].split(".")[0] in ("ax",) and "." in e.data[0]]
    return [(e.data[0].split(".", 1)[1], e.data[1], e.data[2]) for e in ev if e.data[0].split(".", 1)[1] in names], ev


def pick(fixed, q, req):
    """nearest cell per coordinate"""
    out = []
    for d, n in zip("xyz", SIZE):
        r = req.get(d)
        cs = [fixed[("c", d, q, i)] for i in range(n)]
        out.append(None if r is None else int(np.argmin([abs(v - r) for v in cs])))
    return out


def nearest(t):
    return len(T) - 1 if t is None else int(np.argmin([abs(v - t) for v in T]))


def leaf_req(fixed, req, t):
    kw = {}
    for d, v in req.items():
        fixed[("req", d)] = v
        kw[d] = N.leaf(("req", d))
    if t is not None:
        fixed[("req", "t")] = t
        kw["t"] = N.leaf(("req", "t"))
    return kw


def arr(x):
    if isinstance(x, A.Arr):
        return x
    if isinstance(x, (list, tuple)):
        return A.from_list(list(x))
    raise H.Stop(f"plotted object {type(x).__name__}")


def line(c, free, req, t, param="rho", solver=False, mode=None, tol=0.0, pad=(), nad=(), **kw):
    it, snaps, s, fixed = setup(c, pad, nad, solver=solver)
    q = nearest(t)
    ijk = pick(fixed, q, req)
    args = leaf_req(fixed, req, t)
    if mode is not None:
        args["trouble_mode"] = mode
        args["tol"] = Fraction(str(tol))
    args["color"] = "tab:blue"
    args["zorder"] = 3
    if kw.get("verbose"):
        args["verbose"] = True
    ax = I.Opaque("ax")
    if solver:
        c.call(c.attr(s, "plot_1d_slice"), ax, param=param, **args)
    else:
        c.call(c.get("visualization", "plot_1d_slice"), snaps, ax, param, **args)
    calls, ev = sink(it, "plot")
    if len(calls) != 1:
        c.ok(ev, "draws", "nothing is drawn on the given axes", key="draws")
        raise H.Stop(f"{len(ev)} calls of the axes, {len(calls)} of plot")
    _, a, k = calls[0]
    x, y = arr(a[0]), arr(a[1])
    n = SIZE["xyz".index(free)]
    c.ok(tuple(x.shape) == (n,) and tuple(y.shape) == (n,), "line", f"shapes {x.shape} {y.shape}", key="line")
    c.ok(k.get("color") == "tab:blue" and k.get("zorder") == 3 and set(k) == {"color", "zorder"}, "options-forwarded", f"options {sorted(k)}", key="options-forwarded")
    for i in range(n):
        cell = list(ijk)
        cell["xyz".index(free)] = i
        cell = tuple(cell)
        agree(c, x.elem((i,)), fixed[("c", free, q, i)] + np.zeros(N.L), "line", f"{free} coordinate {i} of snapshot {q}")
        want = marked(fixed, q, mode, tol, cell) * np.ones(N.L) if param == "trouble" else data(fixed, q, param, cell)
        agree(c, y.elem((i,)), want, "line", f"{param} at cell {cell} of snapshot {q}")
    untouched(c, snaps, 6 if solver else 5)


def plane(c, axes, req, t, param="rho", solver=False, overlay=None, tol=0.0, pad=(), nad=(), contour=False, log=False, cmap=None, levels=None, verbose=False):
    it, snaps, s, fixed = setup(c, pad, nad, solver=solver)
    q = nearest(t)
    ijk = pick(fixed, q, req)
    args = leaf_req(fixed, req, t)
    if overlay is not None:
        args.update(overlay_trouble=overlay, tol=Fraction(str(tol)), trouble_color="magenta")
    if contour:
        args["contour"] = True
        if levels is not None:
            args["levels"] = levels
    if log:
        args.update(log=True, log_vmin=N.leaf("vmin"), log_vmax=N.leaf("vmax"))
    if cmap:
        args["cmap"] = cmap
    args["alpha"] = 0.25
    if verbose:
        args["verbose"] = True
    ax = I.Opaque("ax")
    if solver:
        c.call(c.attr(s, "plot_2d_slice"), ax, param=param, **args)
    else:
        c.call(c.get("visualization", "plot_2d_slice"), snaps, ax, param, **args)
    name = "contour" if contour else "imshow"
    calls, ev = sink(it, name)
    if len(calls) != 1:
        c.ok(ev, "draws", "nothing is drawn on the given axes", key="draws")
        raise H.Stop(f"{len(ev)} calls of the axes, {len(calls)} of {name}")
    _, a, k = calls[0]
    k = dict(k)
    c.ok(k.pop("alpha", None) == 0.25, "options-forwarded", f"options {sorted(k)}", key="options-forwarded")
    h, v = ("xyz".index(d) for d in axes)
    nh, nvt = SIZE[h], SIZE[v]
    ch = [fixed[("c", axes[0], q, i)] for i in range(nh)]
    cv = [fixed[("c", axes[1], q, j)] for j in range(nvt)]

    def want(i, j):
        cell = list(ijk)
        cell[h], cell[v] = i, j
        cell = tuple(cell)
        if overlay and marked(fixed, q, overlay, tol, cell):
            return NAN + np.zeros(N.L), cell
        return data(fixed, q, param, cell), cell

    if contour:
        Z = arr(a[2])
        c.ok(tuple(Z.shape) == (nvt, nh) or tuple(Z.shape) == (nh, nvt), "plane", f"shape {Z.shape}", key="plane")
        X, Y = arr(a[0]), arr(a[1])
        seen = set()
        for r, cc in product(range(Z.shape[0]), range(Z.shape[1])):
            x = reals(X.elem((r, cc)) if X.ndim == 2 else X.elem((cc,)))
            y = reals(Y.elem((r, cc)) if Y.ndim == 2 else Y.elem((r,)))
            i = [i for i in range(nh) if abs(x[0] - ch[i]) < 1e-12]
            j = [j for j in range(nvt) if abs(y[0] - cv[j]) < 1e-12]
            c.ok(len(i) == 1 and len(j) == 1, "plane", f"node ({r},{cc}) at {x[0]:.4g}, {y[0]:.4g} is not a cell of {axes}", Z.elem((r, cc)).site, "plane")
            w, cell = want(i[0], j[0])
            agree(c, Z.elem((r, cc)), w, "plane", f"{param} at cell {cell} of snapshot {q}, contour node ({r},{cc})")
            seen.add((i[0], j[0]))
        c.ok(len(seen) == nh * nvt, "plane", "every cell is a node of the contour plot", key="plane")
        lv = arr(k.pop("levels", None))
        if isinstance(levels, (list, A.Arr)):
            L = arr(levels)
            c.ok(tuple(lv.shape) == tuple(L.shape), "levels", f"{lv.shape}", key="levels")
            for i in range(L.shape[0]):
                agree(c, lv.elem((i,)), reals(A.to_node(L.elem((i,)))), "levels", f"level {i}")
        else:
            nl = 30 if levels is None else levels
            c.ok(tuple(lv.shape) == (nl,), "levels", f"{lv.shape}", key="levels")
            allv = np.array([want(i, j)[0] for i in range(nh) for j in range(nvt)])
            lo, hi = allv.min(0), allv.max(0)
            for i in range(nl):
                agree(c, lv.elem((i,)), lo + (hi - lo) * i / (nl - 1), "levels", f"level {i} of {nl}")
        c.ok(not k, "options-forwarded", f"unexpected options {sorted(k)}", key="options-forwarded")
    else:
        Z = arr(a[0])
        c.ok(tuple(Z.shape)[:2] == (nvt, nh), "plane", f"image of shape {Z.shape} for {nvt} rows and {nh} columns", key="plane")
        ext = k.pop("extent", None)
        c.ok(ext is not None, "plane", "image has an extent", key="plane")
        l, r_, b, t_ = (reals(A.to_node(e))[0] for e in ext)
        for lo, hi, cs, d in ((min(l, r_), max(l, r_), ch, axes[0]), (min(b, t_), max(b, t_), cv, axes[1])):
            c.ok(abs(lo - cs[0]) <= cs[1] - cs[0] and abs(hi - cs[-1]) <= cs[-1] - cs[-2], "extent", f"{d} extent {lo:.4g}..{hi:.4g} for cells {cs[0]:.4g}..{cs[-1]:.4g}", key="extent")
        org = k.pop("origin", None) or "upper"
        for r, cc in product(range(nvt), range(nh)):
            i = cc if l < r_ else nh - 1 - cc
            up = (nvt - 1 - r) if org == "upper" else r  # row counted from the bottom of the axes
            j = up if b < t_ else nvt - 1 - up
            w, cell = want(i, j)
            agree(c, Z.elem((r, cc)), w, "plane", f"{param} at cell {cell} of snapshot {q}, pixel ({r},{cc})")
        cm = k.pop("cmap", None)
        nm = cm if isinstance(cm, str) else getattr(cm, "name", str(cm))
        c.ok((cmap or "GnBu_r") in nm, "colours", f"colour map {nm}", key="colours")
        norm = k.pop("norm", None)
        if log:
            ln = [e for e in it.events if e.kind == "extcall" and e.data[0].endswith("LogNorm")]
            c.ok(norm is not None and len(ln) == 1, "colours", "logarithmic colours", key="colours")
            g = ln[0].data[2]
            c.ok(A.to_node(g.get("vmin")).id == N.leaf("vmin").id and A.to_node(g.get("vmax")).id == N.leaf("vmax").id, "colours", f"limits of the logarithmic colours {g}", key="colours")
        else:
            c.ok(norm is None, "colours", f"linear colours, norm {norm}", key="colours")
        c.ok(not k, "options-forwarded", f"unexpected options {sorted(k)}", key="options-forwarded")
    if overlay:
        bad = [e for e in it.events if e.kind == "extcall" and e.data[0].endswith("set_bad")]
        if bad:
            col = bad[-1].data[2].get("color") or (bad[-1].data[1] or (None,))[0]
            c.ok(col == "magenta", "colours", f"colour of troubled cells {col}", key="colours")
    untouched(c, snaps, 6 if solver else 5)


def rejected(c, kind, req):
    it, snaps, _, fixed = setup(c)
    args = leaf_req(fixed, req, None)
    f = c.get("visualization", f"plot_{kind}d_slice")
    c.raises(None, lambda: c.call(f, snaps, I.Opaque("ax"), "rho", **args), "rejected", f"{kind}d plot with {sorted(req)} fixed")
    untouched(c, snaps)


def badmode(c):
    it, snaps, _, fixed = setup(c)
    args = leaf_req(fixed, {"z": -7.0}, None)
    c.raises(None, lambda: c.call(c.get("visualization", "plot_2d_slice"), snaps, I.Opaque("ax"), "rho", overlay_trouble="some", **args), "rejected", "unknown trouble criterion, plane")
    args = leaf_req(fixed, {"z": -7.0, "y": 10.0}, None)
    c.raises(None, lambda: c.call(c.get("visualization", "plot_1d_slice"), snaps, I.Opaque("ax"), "trouble", trouble_mode="some", **args), "rejected", "unknown trouble criterion, line")
    c.raises(None, lambda: c.call(c.get("visualization", "plot_1d_slice"), snaps, I.Opaque("ax"), "nothing", **args), "rejected", "unknown variable, line")
    c.raises(None, lambda: c.call(c.get("visualization", "plot_1d_slice"), 3, I.Opaque("ax"), "rho", **args), "rejected", "neither a solver nor a snapshot list")


def shells(c, param, t, center, radii, solver=False, ints=None):
    it, snaps, s, fixed = setup(c, solver=solver)
    q = nearest(t)
    args = leaf_req(fixed, {}, t)
    for a, v in enumerate(center):
        fixed[("center", a)] = v
    for k, v in enumerate(radii):
        fixed[("radius", k)] = v
    ctr = tuple(N.leaf(("center", a)) for a in range(3))
    if ints == "list":
        R = [int(v) for v in radii]
    elif ints == "array":
        R = c.call(c.mod("numpy").attrs["array"] if hasattr(c.mod("numpy"), "attrs") else None, [int(v) for v in radii])
    else:
        R = A.from_fn((len(radii),), lambda i: N.leaf(("radius", i[0])), "f").copy()
    src = s if solver else snaps
    m, r = c.call(c.get("visualization", "sample_circular_average"), src, param, center=ctr, radii=R, **args)
    m, r = arr(m), arr(r)
    nb = len(radii) - 1
    c.ok(tuple(m.shape) == (nb,) and tuple(r.shape) == (nb,), "shells", f"shapes {m.shape} {r.shape}", key="shells")
    dist = {}
    for cell in product(*map(range, SIZE)):
        dist[cell] = np.sqrt(sum((fixed[("c", d, q, cell[a])] - center[a]) ** 2 for a, d in enumerate("xyz")))
    def fits(low):
        """cells on an interface in the lower (upper) bin"""
        bad = []
        for b in range(nb):
            inside = [x for x in dist if (radii[b] < dist[x] <= radii[b + 1] if low else radii[b] <= dist[x] < radii[b + 1])]
            if inside:
                wm = np.mean([data(fixed, q, param, x) for x in inside], axis=0)
                wr = np.mean([dist[x] for x in inside]) + np.zeros(N.L)
            else:
                wm = wr = NAN + np.zeros(N.L)
            for node, want, what in ((m.elem((b,)), wm, f"mean {param}"), (r.elem((b,)), wr, "mean radius")):
                got = reals(node)
                off = np.nonzero(~(np.abs(got - want) <= 1e-9 * np.abs(want)))[0]
                if len(off):
                    bad.append((node, f"{what} of {len(inside)} cells in shell {b} of snapshot {q}: {float(got[off[0]])}, required {float(want[off[0]])}"))
        return bad

    bad = min((fits(True), fits(False)), key=len)
    c.count("shells")
    for node, what in bad:
        c.ok(False, "shells", what, node.site, "shells")
    for k in range(len(radii)):
        if ints is None:
            c.ok(R.elem((k,)).id == N.leaf(("radius", k)).id, "snapshots-untouched", "radii are unmodified", key="snapshots-untouched")
    untouched(c, snaps, 6 if solver else 5)


LABELS = {r"$\rho$": "rho", r"$P$": "P", r"$v$": "v", r"$v_x$": "vx", r"$v_y$": "vy", r"$v_z$": "vz"}


def summary(c, dims, req, t):
    """plot_fields: one panel per variable, colour bars labelled with the variable they belong to"""
    it, snaps, s, fixed = setup(c, solver=True, dims=dims)
    q = nearest(t)
    ijk = pick(fixed, q, req)
    c.method(s, "plot_fields", **leaf_req(fixed, req, t))
    ev = [e for e in it.events if e.kind == "extcall"]
    free = "".join(d for d in "xyz" if d not in req)
    shown = {}
    for e in ev:
        if len(dims) == 1 and e.data[0].endswith(".plot"):
            y = arr(e.data[1][1])
            at = lambda i: y.elem((i,))
            cell = lambda i: tuple(i if d == free else v for d, v in zip("xyz", ijk))
            ks = range(SIZE["xyz".index(free)])
        elif len(dims) == 2 and e.data[0].endswith(".imshow"):
            y = arr(e.data[1][0])
            h, v = ("xyz".index(d) for d in free)
            if e.data[2].get("origin") not in (None, "upper"):
                raise H.Stop("origin")
            ks = list(product(range(SIZE[v]), range(SIZE[h])))
            at = lambda k: y.elem(k)
            cell = lambda k: tuple(k[1] if a == h else SIZE[v] - 1 - k[0] if a == v else ijk[a] for a in range(3))
        else:
            continue
        ok = [p for p in list(VARS) + ["v"] if all(np.allclose(reals(at(k)), data(fixed, q, p, cell(k)), rtol=1e-9) for k in ks)]
        c.ok(len(ok) == 1, "summary", f"panel {e.data[0].split('(')[-1]} shows one variable of snapshot {q}", e.site, "summary")
        ax = e.data[0].rsplit(".", 1)[0]
        c.ok(ax not in shown, "summary", f"panel {ax} is used once", e.site, "summary")
        shown[ax] = ok[0]
    if not shown:
        raise H.Stop("no panels recognised")
    want = {"rho", "P", "v" + dims} if len(dims) == 1 else {"rho", "P", "v", "vx", "vy", "vz"}
    c.ok(set(shown.values()) == want and len(shown) == len(want), "summary", f"panels show {sorted(shown.values())}", key="summary")
    for e in ev:
        if e.data[0].endswith(".colorbar") and e.data[1] and isinstance(e.data[1][0], I.Opaque):
            im, lab = e.data[1][0].name, e.data[2].get("label")
            owner = [a for a in shown if im.startswith(a + ".")]
            if lab in LABELS and len(owner) == 1:
                c.ok(LABELS[lab] == shown[owner[0]], "summary", f"colour bar of {shown[owner[0]]} is labelled {lab}", e.site, "summary")
    untouched(c, snaps, 6)


def cases(tier):
    out = []
    add = lambda name, fn, **kw: out.append((name, fn, kw))
    mid = {"x": 0.4, "y": 10.9, "z": -6.6}
    low = {"x": -5.0, "y": 0.0, "z": -50.0}
    high = {"x": 9.0, "y": 99.0, "z": 50.0}
    times = [None, -1.0, 0.01, 0.07, 0.2, 0.31, 0.32, 0.9, 1.01, 7.0]
    for free in "xyz":
        for nm, base in (("mid", mid), ("low", low), ("high", high)):
            req = {d: v for d, v in base.items() if d != free}
            for p in list(VARS) + ["v"]:
                add(f"line {free} {nm} {p}", line, free=free, req=req, t=0.3, param=p)
        req = {d: v for d, v in mid.items() if d != free}
        for t in times:
            add(f"line {free} t={t}", line, free=free, req=req, t=t, param="P")
        add(f"line {free} solver", line, free=free, req=req, t=0.9, param="vy", solver=True)
        add(f"line {free} passive", line, free=free, req=req, t=None, param="s0", solver=True)
        add(f"line {free} verbose", line, free=free, req=req, t=0.9, param="vz", verbose=True)
    pad = [((0, 1, 0), 0.3), ((1, 1, 0), 1e-9), ((2, 3, 1), 4.0), ((1, 2, 1), 0.01)]
    nad = [((0, 1, 0), 0.02), ((2, 1, 0), 1e-4), ((1, 0, 1), 2.0), ((0, 3, 1), 0.001), ((1, 2, 1), 0.2), ((2, 2, 0), 1e-8)]
    for mode in ("all", True, "NAD", "PAD"):
        for tol in (0.0, 1e-3, 0.1):
            for free in "xyz":
                for base in ({"x": 0.0, "y": 10.3, "z": -7.0}, {"x": 0.3, "y": 10.7, "z": -6.0}):
                    req = {d: v for d, v in base.items() if d != free}
                    add(f"line trouble {mode} tol={tol} {free} {base['z']}", line, free=free, req=req, t=0.9, param="trouble", mode=mode, tol=tol, pad=pad, nad=nad)
    for axes in ("xy", "xz", "yz"):
        for nm, base in (("mid", mid), ("low", low), ("high", high)):
            req = {d: v for d, v in base.items() if d not in axes}
            for p in list(VARS) + ["v"]:
                add(f"plane {axes} {nm} {p}", plane, axes=axes, req=req, t=0.3, param=p)
            add(f"contour {axes} {nm}", plane, axes=axes, req=req, t=0.3, param="P", contour=True)
        req = {d: v for d, v in mid.items() if d not in axes}
        for t in times:
            add(f"plane {axes} t={t}", plane, axes=axes, req=req, t=t, param="rho")
        for p in ("trouble", "NAD", "PAD"):
            for z in (mid, low):
                add(f"plane {axes} {p} {z['z']}", plane, axes=axes, req={d: v for d, v in z.items() if d not in axes}, t=0.5, param=p, pad=pad, nad=nad)
        for ov in ("all", True, "NAD", "PAD"):
            for tol in (0.0, 1e-3, 0.1):
                for z in (mid, low):
                    add(f"overlay {axes} {ov} tol={tol} {z['z']}", plane, axes=axes, req={d: v for d, v in z.items() if d not in axes}, t=0.5, param="rho", pad=pad, nad=nad, overlay=ov, tol=tol)
        add(f"plane {axes} log", plane, axes=axes, req=req, t=None, log=True)
        add(f"plane {axes} cmap", plane, axes=axes, req=req, t=None, cmap="viridis")
        add(f"plane {axes} verbose", plane, axes=axes, req=req, t=None, verbose=True)
        add(f"plane {axes} no overlay", plane, axes=axes, req=req, t=0.5, pad=pad, nad=nad)
        add(f"contour {axes} 7", plane, axes=axes, req=req, t=0.0, contour=True, levels=7, param="vx")
        add(f"contour {axes} list", plane, axes=axes, req=req, t=0.0, contour=True, levels=[Fraction(1, 10), Fraction(7, 10), 2], param="vx")
        add(f"plane {axes} solver", plane, axes=axes, req=req, t=0.0, param="vz", solver=True)
        add(f"plane {axes} passive", plane, axes=axes, req=req, t=None, param="s0", solver=True)
    full = {"x": 0.1, "y": 10.0, "z": -7.0}
    add("rejected line xyz", rejected, kind=1, req=full)
    add("rejected plane xyz", rejected, kind=2, req=full)
    for d in "xyz":
        add(f"rejected plane all but {d}", rejected, kind=2, req={k: v for k, v in full.items() if k != d})
    add("rejected modes", badmode)
    for d in "xyz":
        for t in (None, 0.3):
            add(f"summary {d} t={t}", summary, dims=d, req={k: v for k, v in mid.items() if k != d}, t=t)
    for dd in ("xy", "xz", "yz"):
        for t in (None, 0.3):
            add(f"summary {dd} t={t}", summary, dims=dd, req={k: v for k, v in mid.items() if k not in dd}, t=t)
    for p in list(VARS) + ["v"]:
        add(f"shells {p}", shells, param=p, t=0.3, center=(0.3, 10.4, -6.8), radii=(0.0, 0.31, 0.53, 0.55, 0.9, 5.0))
    for t in times:
        add(f"shells t={t}", shells, param="rho", t=t, center=(0.31, 10.77, -6.63), radii=(0.1, 0.44, 0.83))
    add("shells solver", shells, param="s0", t=None, center=(0.3, 10.4, -6.8), radii=(0.0, 0.31, 0.53, 0.9), solver=True)
    add("shells far", shells, param="rho", t=None, center=(10.3, -10.4, 6.8), radii=(0.0, 1.0, 2.0))
    for k in range(3):
        ctr = [coords(d, 1, 3)[0] for d in "xyz"]
        ctr[k] -= 0.5
        add(f"shells edge {'xyz'[k]}", shells, param="rho", t=None, center=tuple(ctr), radii=(0.125, 0.5, 0.75, 2.0))
    add("shells integer list", shells, param="P", t=None, center=(0.3, 10.4, -6.8), radii=(0.0, 1.0, 2.0), ints="list")
    return out
