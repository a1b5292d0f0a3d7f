"""C09: ideal-gas conversions, fluxes, sound speed, variable selection."""
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "ideal gas"
TECHNIQUE = "abstract interpretation to value graphs; identity with the ideal-gas formulas and with the inverse conversion by value numbering; write-effect check on the inputs"
EXPLANATION = (
    "Conversions, physical fluxes, sound speed and the variable selector are interpreted on arbitrary states of symbolic grid size with 0-3 passive "
    "scalars and arbitrary gamma. Every output row must value-number to the ideal-gas formula, the composition of the two conversions to the identity; "
    "every variable name (and tuple of names) must select its row for reading and writing, in every supported rank; unknown names must raise."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "positive density, gamma > 1", "equality of value graphs is decided by 96-lane random fingerprints"]


def setup(c, nv):
    c.interp()
    names = tuple(f"s{k}" for k in range(nv - 5))
    hs = c.call(c.get("hydro", "HydroState"), passive_scalars=names)
    return hs, N.add(N.ONE, N.leaf("gm1", 1))


def field(nv, tag="w", pos=(0, 4)):
    n = H.sizes("xyz")
    return A.from_fn((nv,) + n, lambda i: N.leaf((tag,) + tuple(i), 1 if i[0] in pos else None), "f")


G = H.gidx("xyz")


def col(f, nv):
    return [f.elem((v,) + G) for v in range(nv)]


def conversions(c, nv):
    hs, g = setup(c, nv)
    cp, cc = c.get("hydro", "compute_primitives"), c.get("hydro", "compute_conservatives")
    w, u = field(nv), field(nv, "u", (0,))
    w0, u0 = col(w, nv), col(u, nv)
    U, W = c.call(cc, hs, w, g), c.call(cp, hs, u, g)
    for v in range(nv):
        c.same(U.elem((v,) + G), S.cons(w0, g)[v], "conserved", f"conserved variable {v}", key="conserved")
        c.same(W.elem((v,) + G), S.prim(u0, g)[v], "primitive", f"primitive variable {v}", key="primitive")
    W2, U2 = c.call(cp, hs, U, g), c.call(cc, hs, W, g)
    for v in range(nv):
        c.same(W2.elem((v,) + G), w0[v], "inverse", f"primitive {v} after conversion to conserved and back", key="inverse")
        c.same(U2.elem((v,) + G), u0[v], "inverse", f"conserved {v} after conversion to primitive and back", key="inverse")
        c.same(w.elem((v,) + G), w0[v], "input-unchanged", f"input row {v}", key="input-unchanged")
        c.same(u.elem((v,) + G), u0[v], "input-unchanged", f"input row {v}", key="input-unchanged")
    for X in (U, W):
        X.setitem((slice(None),) * 4, N.leaf("z"))
    for v in range(nv):
        c.same(w.elem((v,) + G), w0[v], "no-alias", f"input row {v} after the result is overwritten", key="no-alias")
        c.same(u.elem((v,) + G), u0[v], "no-alias", f"input row {v} after the result is overwritten", key="no-alias")


def fluxes(c, nv, d):
    hs, g = setup(c, nv)
    f = c.get("hydro", "compute_fluxes")
    w = field(nv)
    w0 = col(w, nv)
    u = A.from_fn(w.shape, lambda i: S.cons([N.leaf(("w", k) + tuple(i[1:]), 1 if k in (0, 4) else None) for k in range(nv)], g)[i[0]], "f")
    for pr in (None, True, False):
        kw = {} if pr is None else dict(include_pressure=pr)
        F = c.call(f, hs=hs, w=w, u=u, gamma=g, dim=d, **kw)
        R = S.flux(w0, g, "xyz".index(d), pr is not False)
        for v in range(nv):
            c.same(F.elem((v,) + G), R[v], "physical-flux", f"{d}-flux[{v}], include_pressure={pr}", key="physical-flux")
            c.same(w.elem((v,) + G), w0[v], "input-unchanged", f"primitive row {v}", key="input-unchanged")


def sound(c, case):
    hs, g = setup(c, 5)
    f = c.get("hydro", "compute_sound_speed")
    w = field(5, pos=(0,) if case == "any" else (0, 4))
    fl = N.leaf("floor", 1)
    w0 = col(w, 5)
    C = c.call(f, w, g, fl) if case == "any" else c.call(f, w=w, gamma=g, csq_floor=fl)
    c.same(C.elem(G), S.sound(w0, g, fl), "sound-speed", "sound speed with floor on its square", key="sound-speed")


def selector(c, nd, np_):
    c.interp()
    names = tuple(("dye", "metal", "ash")[k] for k in range(np_))
    hs = c.call(c.get("hydro", "HydroState"), passive_scalars=names, ndim=nd)
    nv = 5 + np_
    c.ok(c.attr(hs, "nvars") == nv, "nvars", f"number of variables with {np_} passive scalars", key="nvars")
    shape = (nv, 4, 5, 6)[:nd]
    U = A.from_fn(shape, lambda i: N.leaf(("q",) + tuple(i)), "f")
    rows = dict(rho=0, vx=1, mx=1, vy=2, my=2, vz=3, mz=3, P=4, E=4)
    rows.update({n: 5 + k for k, n in enumerate(names)})
    groups = dict(v=(1, 2, 3), m=(1, 2, 3), active_scalars=(0, 1, 2, 3, 4))
    if names:
        groups["passive_scalars"] = tuple(range(5, nv))
    groups.update({("rho", "P"): (0, 4), ("P", "rho"): (4, 0), ("vz",): (3,), ("E", "mx", "my"): (4, 1, 2)})
    if names:
        groups[(names[-1], "rho")] = (nv - 1, 0)
    tail = (1, 2, 3)[: nd - 1]
    for n, r in rows.items():
        X = U.getitem(c.call(hs, n))
        x = X.elem(tail) if isinstance(X, A.Arr) else A.to_node(X)
        c.same(x, N.leaf(("q", r) + tail), "row", f"row selected by {n!r}", key="row")
    for n, rs in groups.items():
        X = U.getitem(c.call(hs, n))
        c.ok(X.shape[0] == len(rs), "rows", f"rows selected by {n!r}: {X.shape[0]}", key="rows")
        for k, r in enumerate(rs):
            c.same(X.elem((k,) + tail), N.leaf(("q", r) + tail), "rows", f"row {k} selected by {n!r}", key="rows")
    for bad in ("rh0", "vel", "", ("rho", "q"), 3):
        c.raises(("ValueError",), lambda: c.call(hs, bad), "rejected", f"variable {bad!r}", key="rejected")
    c.raises(("ValueError",), lambda: c.call(c.get("hydro", "HydroState"), passive_scalars=("a", "a")), "rejected", "duplicate passive scalar names", key="rejected")
    if nd == 4:
        for axis, letter in ((1, "x"), (2, "y"), (3, "z")):
            for cut in ((1, -1), (0, 2), (-2, 0), (0, 0), (2, 0), (0, -1)):
                sl = slice(cut[0] or None, cut[1] or None)
                want = [slice(None)] * 4
                want[axis] = sl
                for var, row in ((None, None), ("vy", 2), ("P", 4)):
                    ww = list(want)
                    if row is not None:
                        ww[0] = row
                    for kw in (dict(axis=axis, cut=cut), {letter: cut}):
                        X, Y = U.getitem(c.call(hs, var, **kw)), U.getitem(tuple(ww))
                        same = tuple(X.shape) == tuple(Y.shape)
                        if same:
                            same = all(X.elem(i) is Y.elem(i) for i in A.host_indices(X.shape))
                        c.ok(same, "cut", f"selection {var!r} cut {cut} along axis {axis}", key="cut")
            X = U.getitem(c.call(hs, axis=axis, cut=(0, 0), step=-1))
            i = [0, 1, 2, 3]
            j = list(i)
            j[axis] = shape[axis] - 1 - i[axis]
            c.same(X.elem(tuple(i)), N.leaf(("q",) + tuple(j)), "cut", f"reversal along axis {axis}", key="cut")
        # repeated use gives the same selection
        for n, r in rows.items():
            c.same(U.getitem(c.call(hs, n)).elem((1, 2, 3)), N.leaf(("q", r, 1, 2, 3)), "row", f"second selection by {n!r}", key="row")
    # two selectors do not share names
    h2 = c.call(c.get("hydro", "HydroState"), ndim=nd)
    for n in names:
        c.raises(("ValueError",), lambda: c.call(h2, n), "rejected", f"{n!r} in a state without it", key="rejected")


def solver_gamma(c, d):
    """the solver uses the gamma it was given in every conversion"""
    c.interp()
    g = N.add(N.ONE, N.leaf("gm1", 1))
    s = H.solver(c, d, 0, gamma=g, ic="leaf", passives=("q",))
    n = H.sizes(d)
    U = c.call(c.attr(s, "am"), "u")
    cell = H.gidx(d)
    xyz = [c.attr(s, k).elem(cell) for k in "XYZ"]
    w = [N.uf(("ic", v), *xyz, pos=1 if v in (0, 4) else None) for v in range(5)] + [N.uf(("pic", "q"), *xyz)]
    for v in range(6):
        c.same(U.elem((v,) + cell), S.cons(w, g)[v], "initial-state", f"initial conserved variable {v}", key="initial-state")
    lf = H.uleaf()
    V = A.from_fn((6,) + n, lf, "f")
    c.call(c.attr(s, "am"), "u").setitem((slice(None),) * 4, V)
    c.method(s, "snapshot")
    W = c.attr(s, "snapshots")[-1]["w"]
    R = S.prim([lf((v,) + cell) for v in range(6)], g)
    for v in range(6):
        c.same(W.elem((v,) + cell), R[v], "snapshot-primitive", f"snapshot primitive {v}", key="snapshot-primitive")


def cases(tier):
    out = []
    for nv in (5, 6, 7, 8):
        out.append((f"conversions nv={nv}", conversions, dict(nv=nv)))
        for d in "xyz":
            out.append((f"fluxes {d} nv={nv}", fluxes, dict(nv=nv, d=d)))
    for k in ("any", "positive"):
        out.append((f"sound speed {k}", sound, dict(case=k)))
    for nd in (1, 2, 3, 4):
        for np_ in (0, 1, 3):
            out.append((f"selector rank {nd} passives {np_}", selector, dict(nd=nd, np_=np_)))
    for d in "xyz":
        out.append((f"solver gamma {d}", solver_gamma, dict(d=d)))
    return out
