"""C04: the time integrators are Runge-Kutta methods of their documented order."""
from fractions import Fraction as Fr

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa import spec as S
from fvsa.aff import sym

TITLE = "Runge-Kutta order and stage times"
TECHNIQUE = "abstract interpretation with an uninterpreted right-hand side; Butcher tableau read off the value graph; exact rational order and strong-stability conditions"
EXPLANATION = (
    "Each integrator is abstractly interpreted for one step with an opaque f. Every evaluation's time and state arguments and the returned state must be "
    "t + c_i dt and u + dt*sum(a_ij k_j) with one common dt (the first stage's, capped by the target); the extracted tableau must satisfy all "
    "order conditions of the documented order, c_i = sum_j a_ij, and for ssprk2/ssprk3 strong stability with coefficient 1. EulerSolver.run must "
    "select order min(max p,3)+1, and state/time/step bookkeeping must advance by exactly that step."
)
ASSUMPTIONS = ["real arithmetic (no rounding)"]
ORDER = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}
NV = 2


class Rec:
    """opaque right-hand side: k_i are fresh leaves"""

    def __init__(self, shape):
        self.calls = []
        self.shape = shape

    def __call__(self, t, u):
        i = len(self.calls)
        snap = A.from_fn(tuple(u.shape), (lambda w: lambda idx: w[idx])({idx: u.elem(idx) for idx in points(self.shape)}), "f")
        self.calls.append((A.to_node(t), snap))
        k = A.from_fn(self.shape, lambda idx: N.leaf(("k", i) + tuple(idx)), "f")
        return (N.leaf(("dt", i), 1), k)


def points(shape):
    g = [sym("j%d" % a) if not isinstance(s, int) else 0 for a, s in enumerate(shape)]
    for v in range(NV):
        yield (v,) + tuple(g[1:])


def mk_ode(c):
    it = c.interp()
    ODE = c.get("ode", "ODE")
    shape = (NV, sym("nx"))
    rec = Rec(shape)
    cls = I.AClass("CheckODE", [ODE], {"f": I.StaticM(I.Native("f", rec))}, ODE.mod)
    u0 = A.from_fn(shape, lambda idx: N.leaf(("u",) + tuple(idx)), "f")
    o = it.instantiate(cls, [u0], {"progress_bar": False})
    return o, rec


def coeffs(c, n, dt, u, ks, what):
    """n must be u + dt * sum a_j k_j; returns the a_j"""
    a = []
    for j in range(len(ks)):
        one = {u: N.ZERO, dt: N.ONE}
        for m, k in enumerate(ks):
            one[k] = N.ONE if m == j else N.ZERO

        def lm(lf):
            return one.get(lf)

        v = N.rebuild(n, lm)
        if v.const is None:
            c.fail("rk-form", f"{what}: {N.pretty(n, 4)} is not u + dt*sum(a_j k_j)", n.site, "rk-form")
            raise H.Stop()
        a.append(v.const)
    acc = u
    for x, k in zip(a, ks):
        acc = N.add(acc, N.mul(N.mul(N.const(x), dt), k))
    c.same(n, acc, "rk-form", what, key="rk-form")
    return a


def tableau(c, name, rec, dt, t, U1, npre=0):
    calls = rec.calls[npre:]
    s = len(calls)
    At, ct = [], []
    idxs = list(points(rec.shape))
    for i, (ti, ui) in enumerate(calls):
        rows = []
        for idx in idxs:
            u = N.leaf(("u",) + idx) if npre == 0 else None
            ks = [N.leaf(("k", j) + idx) for j in range(s)]
            row = coeffs(c, ui.elem(idx), dt, u, ks, f"{name} stage {i} state")
            rows.append(row)
        c.ok(all(r == rows[0] for r in rows), "rk-form", f"{name} stage {i}: same weights for every component")
        At.append(rows[0])
        c.ok(all(x == 0 for x in rows[0][i:]), "explicit", f"{name} stage {i} only uses earlier slopes")
        cc = N.div(N.sub(ti, t), dt)
        c.ok(cc.const is not None, "stage-time", f"{name} stage {i} time {N.pretty(ti, 4)} is t + c*dt", ti.site, "stage-time")
        ct.append(cc.const)
    rows = []
    for idx in idxs:
        u = N.leaf(("u",) + idx)
        rows.append(coeffs(c, U1.elem(idx), dt, u, [N.leaf(("k", j) + idx) for j in range(s)], f"{name} result"))
    c.ok(all(r == rows[0] for r in rows), "rk-form", f"{name}: same weights for every component")
    return At, rows[0], ct


def conditions(c, name, q, At, b, ct):
    s = len(b)
    R = range(s)

    def ok(v, want, what):
        c.ok(v == want, "order-condition", f"{name} (order {q}): {what} = {v}, must be {want}", key=f"order {name}")

    for i in R:
        c.ok(ct[i] == sum(At[i]), "stage-time", f"{name} stage {i}: evaluated at t + {ct[i]} dt with a state at t + {sum(At[i])} dt", key="stage-time")
    cs = [sum(At[i]) for i in R]
    ok(sum(b), 1, "sum b")
    if q >= 2:
        ok(sum(b[i] * cs[i] for i in R), Fr(1, 2), "sum b c")
    if q >= 3:
        ok(sum(b[i] * cs[i] ** 2 for i in R), Fr(1, 3), "sum b c^2")
        ok(sum(b[i] * At[i][j] * cs[j] for i in R for j in R), Fr(1, 6), "sum b a c")
    if q >= 4:
        ok(sum(b[i] * cs[i] ** 3 for i in R), Fr(1, 4), "sum b c^3")
        ok(sum(b[i] * cs[i] * At[i][j] * cs[j] for i in R for j in R), Fr(1, 8), "sum b c a c")
        ok(sum(b[i] * At[i][j] * cs[j] ** 2 for i in R for j in R), Fr(1, 12), "sum b a c^2")
        ok(sum(b[i] * At[i][j] * At[j][k] * cs[k] for i in R for j in R for k in R), Fr(1, 24), "sum b a a c")
    if name in ("euler", "ssprk2", "ssprk3"):
        # strong stability (coefficient 1): (I+K)^-1 K >= 0 and (I+K)^-1 e >= 0
        K = [list(r) + [Fr(0)] for r in At] + [list(b) + [Fr(0)]]
        n = s + 1
        M = [[(1 if i == j else 0) + K[i][j] for j in range(n)] for i in range(n)]
        cols = [S._solve(M, [K[i][j] for i in range(n)]) for j in range(n)]
        e = S._solve(M, [1] * n)
        c.ok(all(x >= 0 for col in cols for x in col) and all(x >= 0 for x in e), "strong-stability",
             f"{name} is a convex combination of forward Euler steps of size dt", key=f"ssp {name}")


def method(c, name, target):
    o, rec = mk_ode(c)
    it = c.it
    t0 = N.leaf("t0")
    if target == "none":
        c.method(o, name, n=1)
        t = N.ZERO
        dt = N.leaf(("dt", 0), 1)
    else:
        # step towards a target: both outcomes of the cap
        seed = {}
        c.method(o, name, n=0)
        o.attrs["t"] = t0
        rec.calls.clear()
        dt0 = N.leaf(("dt", 0), 1)
        tgt = N.add(N.add(t0, dt0), N.leaf("gap", 1)) if target == "beyond" else N.add(t0, N.leaf("rest", 1))
        if target == "within":
            tgt = N.sub(N.add(t0, dt0), N.leaf("gap", 1))
            dt = N.sub(tgt, t0)
        else:
            dt = dt0
        c.method(o, "take_step", target_time=tgt)
        t = t0
    U1 = c.call(c.attr(o, "am"), "u")
    c.ok(len(rec.calls) >= 1, "stages", "stages evaluated")
    if target == "within":
        # read the tableau with the capped step as one symbol
        h = N.leaf("h", 1)
        gap = N.leaf("gap", 1)

        def lm(lf):
            return N.sub(N.leaf(("dt", 0), 1), h) if lf is gap else None

        rec.calls[:] = [(N.rebuild(a, lm), A.from_fn(tuple(b.shape), (lambda w: lambda idx: w[idx])({i: N.rebuild(b.elem(i), lm) for i in points(rec.shape)}), "f")) for a, b in rec.calls]
        U1v = {i: N.rebuild(U1.elem(i), lm) for i in points(rec.shape)}
        U1 = A.from_fn(rec.shape, lambda idx: U1v[idx], "f")
        dtn = h
    else:
        dtn = dt
    At, b, ct = tableau(c, name, rec, dtn, t, U1)
    conditions(c, name, ORDER[name], At, b, ct)
    c.same(c.attr(o, "t"), N.add(t, dt), "clock", f"{name}: time advances by the step", key="clock")
    ts = c.attr(o, "timestamps")
    c.same(ts[-1], N.add(t, dt), "clock", f"{name}: last timestamp is the new time", key="clock")
    if target == "none":
        c.ok(len(ts) == 2 and c.attr(o, "step_count") == 1, "clock", "one timestamp and one step counted")
    # the second step starts from the first step's result
    if target == "none":
        prev = {idx: U1.elem(idx) for idx in points(rec.shape)}
        n0 = len(rec.calls)
        c.method(o, "take_step")
        t1, u1 = rec.calls[n0]
        c.same(t1, dt, "restart", f"{name}: second step starts at the new time", key="restart")
        for idx in points(rec.shape):
            c.same(u1.elem(idx), prev[idx], "restart", f"{name}: second step starts from the new state", key="restart")


def dispatch(c, dims, p):
    """run() on the real solver: order of the method follows the highest degree"""
    it = c.interp()
    ps = dict(zip(dims, p))
    s = H.solver(c, dims, ps, ic="leaf", riemann_solver="llf")
    shape = (5,) + H.sizes(dims)
    rec = Rec(shape)
    s.attrs["f"] = I.Native("f", rec)
    U = c.call(c.attr(s, "am"), "u")
    import fvsa.harness as HH
    pre = {}
    U.setitem(tuple([slice(None)] * 4), A.from_fn(shape, lambda idx: N.leaf(("u",) + tuple(idx)), "f"))
    c.method(s, "run", n=1)
    U1 = c.call(c.attr(s, "am"), "u")
    q = min(max(p), 3) + 1
    dt = N.leaf(("dt", 0), 1)
    At, b, ct = tableau(c, f"run p={p}", rec, dt, N.ZERO, U1)
    conditions(c, f"run p={p}", q, At, b, ct)
    if q <= 3:
        conditions(c, {1: "euler", 2: "ssprk2", 3: "ssprk3"}[q], q, At, b, ct)


def stage_boundaries(c, dims, p, lim):
    """f(t, u) imposes time-dependent boundary values at the stage's own time"""
    it = c.interp()
    H.assume_any(it, True)
    B = c.get("boundary_conditions", "BoundaryCondition")

    def bf(x, y, z, t):
        return A.from_fn((5,) + tuple(x.shape), lambda i: N.uf(("bc", i[0]), A.to_node(t), *[q.elem(tuple(i[1:])) for q in (x, y, z)], pos=1 if i[0] in (0, 4) else None), "f")

    d = {}
    for a in dims:
        d[a] = "dirichlet"
        d[a + "_value"] = I.Native("bf", bf)
    kw = dict(H.LIM, SED=False, slope_limiter="moncen") if lim else {}
    s = H.solver(c, dims, dict(zip(dims, p)), ic="leaf", riemann_solver="llf", bc=c.call(B, **d), **kw)
    s.attrs["t"] = N.leaf("told")
    U = H.state(dims)
    tn = N.leaf("tstage")
    _, du = c.method(s, "f", tn, U)
    n = H.sizes(dims)
    for cell in H.cells(dims, 1):
        for v in range(5):
            e = du.elem((v,) + cell)
            ts = {x.args[1] for x in N.find_ops(e, lambda y: y.op == "uf" and isinstance(y.args[0], tuple) and y.args[0][0] == "bc")}
            c.ok(all(x is tn for x in ts), "stage-boundary", f"boundary values in du/dt[{v}] at {cell} are taken at {[N.pretty(x, 2) for x in ts]} instead of the stage time", e.site, "stage-boundary")
    edge = tuple(0 if d in dims else 0 for d in "xyz")
    e = du.elem((0,) + edge)
    c.ok(any(True for _ in N.find_ops(e, lambda y: y.op == "uf")), "stage-boundary", "the boundary cell depends on the boundary function")


def cases(tier):
    out = []
    for m in ORDER:
        for tg in ("none", "beyond", "within"):
            out.append((f"{m} target {tg}", method, dict(name=m, target=tg)))
    for p in range(0, 9):
        out.append((f"run x p={p}", dispatch, dict(dims="x", p=(p,))))
    for p in ((0, 0), (1, 0), (0, 2), (3, 1), (2, 5)):
        out.append((f"run xy p={p}", dispatch, dict(dims="xy", p=p)))
    out.append(("run yz (0,1)", dispatch, dict(dims="yz", p=(0, 1))))
    out.append(("run xyz (0,0,2)", dispatch, dict(dims="xyz", p=(0, 0, 2))))
    out.append(("run xyz (0,1,0)", dispatch, dict(dims="xyz", p=(0, 1, 0))))
    for dims, p, lim in (("x", (0,), False), ("x", (3,), False), ("y", (2,), False), ("xy", (1, 2), False), ("x", (2,), True), ("z", (1,), True)):
        out.append((f"stage boundaries {dims} p={p} lim={lim}", stage_boundaries, dict(dims=dims, p=p, lim=lim)))
    return out
