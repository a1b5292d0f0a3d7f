"""C18: options take effect as documented and invalid ones are rejected."""
from fractions import Fraction as Fr

import numpy as np

from checks.c16_fallback import LIMITERS, Pattern
from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "options"
TECHNIQUE = "abstract interpretation with every option symbolic; computed rates value-numbered against the specification evaluated at those option values (dependence and non-dependence per option); exceptional-path analysis of invalid options"
EXPLANATION = (
    "A solver is constructed abstractly with symbolic gamma, sound-speed floor, domain bounds, step size and every Riemann solver, degree and dimension; its rate of change must be the "
    "specified scheme at exactly those values. Then one option at a time is changed: options documented to matter only with limiting, saving or reporting must leave rates, step and "
    "initial state the same value; equivalent spellings must give the same value; options documented to act must change the result. Invalid values must end in an exception in every dimension."
)
ASSUMPTIONS = ["real arithmetic (no rounding)", "equality of value graphs is decided by 96-lane random fingerprints"]


def domain():
    kw, ln = {}, []
    for d in "xyz":
        lo, w = N.leaf("lo" + d), N.leaf("len" + d, 1)
        kw[d] = (lo, N.add(lo, w))
        ln.append(w)
    return kw, ln


def scheme(c, dims, p, rs, nv=5):
    """rates with symbolic gamma, floor, domain = specification at those values"""
    it = c.interp()
    H.assume_any(it, True)
    g = N.add(N.ONE, N.leaf("gm1", 1))
    fl = N.leaf("floor", 1)
    kw, ln = domain()
    ps = dict(zip(dims, p))
    s = H.solver(c, dims, ps, ic="leaf", riemann_solver=rs, gamma=g, csq_floor=fl, passives=tuple(f"s{j}" for j in range(nv - 5)), **kw)
    n = H.sizes(dims)
    lf = H.uleaf()
    dt, k = H.rhs(c, s, A.from_fn((nv,) + n, lf, "f"))
    c.same(dt, N.leaf("dt", 1), "fixed-step", "fixed step size returned", key="fixed-step")
    p3 = [ps.get(d, 0) for d in "xyz"]
    h = S.spacing(n, ln)
    D = S.divergence(S.faces(S.periodic(lf, dims, n), dims, p3, g, rs, fl, nv=nv), h)
    cell = H.gidx(dims)
    for v in range(nv):
        c.same(k.elem((v,) + cell), D(v, *cell), "scheme", f"rate {v}: {dims} p={p} {rs} with symbolic gamma, floor and domain", key="scheme")
    c.ok(c.attr(s, "dims") == dims, "active-axes", f"active axes {c.attr(s, 'dims')} for {dims}", key="active-axes")


BASE = dict(riemann_solver="llf")
INERT = [
    dict(progress_bar=True),
    dict(snapshots_as_fv_averages=False),
    dict(slab_buffer_size=7),
    dict(NAD=Fr(1, 3)),
    dict(NAD_mode="local"),
    dict(NAD_range="absolute"),
    dict(NAD_vars=("rho",)),
    dict(PAD={"P": (0, 1)}),
    dict(SED=False),
    dict(SED_tolerance=Fr(1, 7)),
    dict(convex=True),
    dict(force_trouble=True),
    dict(slope_limiter="moncen"),
    dict(slope_limiter=None),
    dict(CFL=Fr(1, 9)),
]


def evaluate(c, dims, p, kw, lim=False, model=None):
    it = c.interp()
    H.assume_any(it, True)
    if model:
        N.set_model(model)
    s = H.solver(c, dims, dict(zip(dims, p)), ic="leaf", **dict(BASE, **kw))
    n = H.sizes(dims)
    dt, k = H.rhs(c, s, A.from_fn((5,) + n, H.uleaf(), "f"))
    cell = H.gidx(dims)
    u0 = c.call(c.attr(s, "am"), "u")
    tr = c.call(c.attr(s, "am"), "mean trouble").elem(cell)
    return [k.elem((v,) + cell) for v in range(5)] + [A.to_node(dt)], [u0.elem((v,) + cell) for v in range(5)], tr, s


def frac(kw):
    return {k: (N.const(v) if isinstance(v, Fr) else v) for k, v in kw.items()}


def helper_kw():
    calls = []
    return dict(snapshot_helper_function=I.Native("helper", lambda s: calls.append(1)))


def inert(c, dims, p, kw):
    if kw == "helper":
        kw = helper_kw()
    a, u, _, s0 = evaluate(c, dims, p, {})
    b, w, _, s1 = evaluate_same(c, dims, p, frac(kw))
    for v in range(6):
        c.same(b[v], a[v], "inert", f"{'rate %d' % v if v < 5 else 'step'} unchanged by {list(kw)} without limiting, {dims} p={p}", key="inert")
    for v in range(5):
        c.same(w[v], u[v], "inert", f"initial state {v} unchanged by {list(kw)}", key="inert")


def evaluate_same(c, dims, p, kw):
    """second solver in the same analysis"""
    s = H.solver(c, dims, dict(zip(dims, p)), ic="leaf", **dict(BASE, **kw))
    n = H.sizes(dims)
    dt, k = H.rhs(c, s, A.from_fn((5,) + n, H.uleaf(), "f"))
    cell = H.gidx(dims)
    u0 = c.call(c.attr(s, "am"), "u")
    tr = c.call(c.attr(s, "am"), "mean trouble").elem(cell)
    return [k.elem((v,) + cell) for v in range(5)] + [A.to_node(dt)], [u0.elem((v,) + cell) for v in range(5)], tr, s


def model():
    return Pattern({"dt": 0.01, "eps": 0.001, "nx": 12.0, "ny": 12.0, "nz": 12.0}, dens=np.full(N.L, 0.5))


def equivalent(c, dims, p, a, b, lim, why):
    """two spellings of the same setting"""
    it = c.interp()
    H.assume_any(it, True)
    if lim:
        N.set_model(model())
    L = dict(H.LIM, NAD=N.leaf("eps", 1)) if lim else {}
    mk = lambda kw: {k: (v(c) if callable(v) else v) for k, v in kw.items()}
    r1 = evaluate_same(c, dims, p, dict(L, **mk(a)))
    r2 = evaluate_same(c, dims, p, dict(L, **mk(b)))
    for v in range(6):
        c.same(r2[0][v], r1[0][v], "equivalent", f"{why}: {'rate %d' % v if v < 5 else 'step'}, {dims}", key="equivalent")
    for v in range(5):
        c.same(r2[1][v], r1[1][v], "equivalent", f"{why}: initial state {v}, {dims}", key="equivalent")
    c.same(r2[2], r1[2], "equivalent", f"{why}: recorded trouble, {dims}", key="equivalent")


def effective(c, dims, p, a, b, lim, key, why):
    """a documented option must change the result"""
    it = c.interp()
    H.assume_any(it, True)
    if lim:
        N.set_model(model())
    L = dict(H.LIM, NAD=N.leaf("eps", 1), SED=False) if lim else {}
    r1 = evaluate_same(c, dims, p, dict(L, **frac(a)))
    r2 = evaluate_same(c, dims, p, dict(L, **frac(b)))
    c.ok(any(x is not y for x, y in zip(r1[0], r2[0])), "option-effect", f"{why}, {dims} p={p}: {b} gives the same rates and step as {a}", key=key)


def fixed_vars(c, dims, var, method):
    """fixed_primitive_variables keeps the named averages at their initial value"""
    it = c.interp()
    H.assume_any(it, True)
    s = H.solver(c, dims, {d: 0 for d in dims}, ic="leaf", riemann_solver="llf", fixed_primitive_variables=(var,))
    n = H.sizes(dims)
    am = c.attr(s, "am")
    lf = H.uleaf()
    c.call(am, "u").setitem((slice(None),) * 4, A.from_fn((5,) + n, lf, "f"))
    c.method(s, method, n=1)
    sn = c.attr(s, "snapshots")
    v = ("rho", "vx", "vy", "vz", "P").index(var)
    cell = H.gidx(dims)
    c.same(sn[-1]["w"].elem((v,) + cell), sn[0]["w"].elem((v,) + cell), "option-effect", f"fixed_primitive_variables=({var!r},): {var} after one step", key="fixed_primitive_variables")


def rejected(c, dims, kw, stage="use", lim=True):
    it = c.interp()
    H.assume_any(it, True)

    def go():
        k2 = {k: (v(c) if callable(v) else v) for k, v in kw.items()}
        base = dict(riemann_solver="llf", **(H.LIM if lim else {}))
        s = H.solver(c, dims, {d: 2 if len(dims) == 1 else int(d == dims[0]) for d in dims}, ic="leaf", **dict(base, **k2))
        if stage == "use":
            H.rhs(c, s, H.state(dims))

    shown = {k: v for k, v in kw.items() if not callable(v)} or list(kw)
    c.raises(None, go, "rejected", f"{shown} in {dims}", key="rejected")


def ic_args(c):
    """an initial condition that does not take x, y, z is refused"""
    c.interp()
    cls = c.get("initial_conditions", "InitialCondition")
    bad = I.AClass("BadIC", [cls], {"build_ic": I.Native("build_ic", lambda self, hs, p=None: I.Native("ic", lambda a, b: None))}, cls.mod)

    def go():
        o = c.it.instantiate(bad, [], {})
        H.solver(c, "x", 1, ic=o)

    c.raises(None, go, "rejected", "initial condition without x, y, z", key="rejected")


class bcond:
    """boundary condition to be built inside a case"""

    def __init__(self, **kw):
        self.kw = kw

    def __call__(self, c):
        return c.call(c.get("boundary_conditions", "BoundaryCondition"), **self.kw)


def default_bounds(c):
    return {"rho": (0, N.inf(1)), "P": (0, N.inf(1))}


def names(c):
    """variable names: documented ones resolve to distinct rows, unknown ones are refused"""
    c.interp()
    HS = c.get("hydro", "HydroState")
    hs = c.call(HS, passive_scalars=("dye", "ash"))
    X = A.from_fn((7, 2, 1, 1), lambda i: N.leaf(("q",) + tuple(i)), "f")
    want = {"rho": 0, "vx": 1, "vy": 2, "vz": 3, "P": 4, "mx": 1, "my": 2, "mz": 3, "E": 4, "dye": 5, "ash": 6}
    for k, v in want.items():
        row = X.getitem(c.call(hs, k))
        c.ok(tuple(row.shape) == (2, 1, 1), "names", f"{k} selects one row, shape {row.shape}", key="names")
        if tuple(row.shape) == (2, 1, 1):
            c.same(row.elem((1, 0, 0)), N.leaf(("q", v, 1, 0, 0)), "names", f"row of {k}", key="names")
    for bad in ("speed", "temperature", "RHO", "smoke"):
        c.raises(None, lambda: c.call(hs, bad), "rejected", f"variable {bad!r}", key="rejected")


def cases(tier):
    out = []

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    for rs in ("llf", "hllc", "advection_upwind"):
        for d in "xyz":
            for p in (0, 1, 2, 3):
                if rs != "llf" and p in (1, 3):
                    continue
                add(f"scheme {d} p={p} {rs}", scheme, dims=d, p=(p,), rs=rs, nv=6 if p == 2 else 5)
    for rs in ("llf", "hllc"):
        for dims in ("xy", "yz", "xz"):
            add(f"scheme {dims} {rs}", scheme, dims=dims, p=(1, 2), rs=rs)
    add("scheme xyz llf", scheme, dims="xyz", p=(0, 1, 0), rs="llf")
    add("scheme xyz hllc", scheme, dims="xyz", p=(1, 0, 0), rs="hllc")
    add("scheme xyz upwind", scheme, dims="xyz", p=(0, 0, 1), rs="advection_upwind")
    for kw in INERT + ["helper"]:
        for dims in ("x", "yz"):
            add(f"inert {dims} {kw if isinstance(kw, str) else [(k, str(v)) for k, v in kw.items()]}", inert, dims=dims, p=(2,) if len(dims) == 1 else (1, 1), kw=kw)
    per = bcond(x=("periodic", "periodic"), y=("periodic", "periodic"), z=("periodic", "periodic"))
    for dims in ("x", "z", "xy"):
        p = (2,) if len(dims) == 1 else (1, 1)
        q = (1,) if len(dims) == 1 else (0, 0)
        add(f"equivalent {dims} bc", equivalent, dims=dims, p=p, a={}, b=dict(bc=per), lim=False, why="no boundary condition = periodic everywhere")
        add(f"equivalent {dims} bc limited", equivalent, dims=dims, p=q, a=dict(SED=False), b=dict(bc=per, SED=False), lim=True, why="no boundary condition = periodic everywhere")
        add(f"equivalent {dims} vars", equivalent, dims=dims, p=q, a=dict(NAD_vars=("rho", "P"), SED=False), b=dict(NAD_vars=["rho", "P"], SED=False), lim=True, why="list of NAD variables = tuple")
        add(f"equivalent {dims} all vars", equivalent, dims=dims, p=q, a=dict(SED=False), b=dict(NAD_vars=("rho", "vx", "vy", "vz", "P"), SED=False), lim=True, why="no NAD variables given = all of them")
        add(f"equivalent {dims} PAD", equivalent, dims=dims, p=q, a=dict(SED=False), b=dict(PAD=default_bounds, SED=False), lim=True, why="default bounds = positive density and pressure")
        add(f"equivalent {dims} one-sided bc", equivalent, dims=dims, p=p, a=dict(bc=bcond(**{dims[0]: "free"})), b=dict(bc=bcond(**{dims[0]: ("free", "free")})), lim=False, why="one boundary name = both sides")
    for d in "xyz":
        for a, b, why in (
            (dict(riemann_solver="llf"), dict(riemann_solver="hllc"), "riemann_solver"),
            (dict(riemann_solver="llf"), dict(riemann_solver="advection_upwind"), "riemann_solver"),
            (dict(gamma=Fr(5, 3)), dict(gamma=Fr(7, 5)), "gamma"),
            (dict(csq_floor=0), dict(csq_floor=100), "csq_floor"),
            ({}, {d: (0, 2)}, "domain"),
        ):
            add(f"effect {d} {why} {b}", effective, dims=d, p=(2,), a=a, b=b, lim=False, key=why, why=why)
        for a, b, why in (
            (dict(slope_limiter="minmod"), dict(slope_limiter="moncen"), "slope_limiter"),
            (dict(slope_limiter="minmod"), dict(slope_limiter=None), "slope_limiter"),
            (dict(NAD_mode="global"), dict(NAD_mode="local"), "NAD_mode"),
            (dict(NAD_range="relative"), dict(NAD_range="absolute"), "NAD_range"),
            (dict(), dict(NAD_vars=("vy",)), "NAD_vars"),
            (dict(), dict(PAD={"vz": (0, Fr(1, 2))}), "PAD"),
            (dict(), dict(convex=True), "convex"),
            (dict(), dict(force_trouble=True), "force_trouble"),
            (dict(NAD=Fr(1, 1000)), dict(NAD=Fr(1, 5)), "NAD"),
        ):
            add(f"effect {d} {why} {b}", effective, dims=d, p=(2,), a=a, b=b, lim=True, key=why, why=why)
    for d in ("x", "y", "z", "xy"):
        p = tuple(1 for _ in d)
        add(f"effect {d} density_floor", effective, dims=d, p=p, a={}, b=dict(density_floor=1000), lim=False, key="density_floor", why="density_floor")
        add(f"effect {d} pressure_floor", effective, dims=d, p=p, a={}, b=dict(pressure_floor=1000), lim=False, key="pressure_floor", why="pressure_floor")
    add("fixed variables", fixed_vars, dims="x", var="vx", method="euler")
    for dims in ("x", "y", "z", "xy", "xyz"):
        add(f"rejects {dims} riemann", rejected, dims=dims, kw=dict(riemann_solver="roe"), stage="construct", lim=False)
        add(f"rejects {dims} riemann empty", rejected, dims=dims, kw=dict(riemann_solver=""), stage="construct", lim=False)
        add(f"rejects {dims} limiter", rejected, dims=dims, kw=dict(slope_limiter="superbee"))
        add(f"rejects {dims} mode", rejected, dims=dims, kw=dict(NAD_mode="regional"))
        add(f"rejects {dims} mode absolute", rejected, dims=dims, kw=dict(NAD_mode="regional", NAD_range="absolute"))
        add(f"rejects {dims} range", rejected, dims=dims, kw=dict(NAD_range="percent"))
        add(f"rejects {dims} vars", rejected, dims=dims, kw=dict(NAD_vars=("speed",)))
        add(f"rejects {dims} bounds", rejected, dims=dims, kw=dict(PAD={"temperature": (0, 1)}))
        add(f"rejects {dims} fv_ic", rejected, dims=dims, kw=dict(fv_ic=True), stage="construct", lim=False)
        for d in dims:
            add(f"rejects {dims} bc {d}", rejected, dims=dims, kw=dict(bc=bcond(**{d: ("periodic", "perodic")})), lim=False)
            add(f"rejects {dims} bc {d} both", rejected, dims=dims, kw=dict(bc=bcond(**{d: "wall"})), lim=False)
            add(f"rejects {dims} bc {d} dirichlet", rejected, dims=dims, kw=dict(bc=bcond(**{d: "dirichlet"})), lim=False)
    add("rejects initial condition", ic_args)
    add("names", names)
    return out

