"""C12: the time loop reaches exactly the requested times and stops."""
from fractions import Fraction as Fr
from itertools import combinations

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa.aff import sym
from fvsa.fptime import FPModel

TITLE = "time loop"
TECHNIQUE = "path-sensitive abstract interpretation of the time loop with an opaque right-hand side and rounded (non-cancelling) time arithmetic; every comparison decided by a scenario that orders the inputs, rounding-sensitive comparisons are violations"
EXPLANATION = (
    "integrate() is interpreted with an opaque right-hand side returning arbitrary positive step sizes; start time, end time, output times and step sizes are "
    "symbols, and each scenario fixes only their order (all subsets of output-time slots relative to the steps, given sorted, reversed, repeated, as list, "
    "tuple or array, with past and too-late entries). Required on every path: time stamps strictly increase, every requested time becomes the very same "
    "value as the clock at that step (also under rounding), one snapshot per requested time in order, the run ends at the end time, counters agree, the step "
    "used for the state is the step used for the clock, and a second call continues from there."
)
ASSUMPTIONS = [
    "scenarios: at most four output times per call, at most five steps between two of them, two calls",
    "step sizes returned by the right-hand side are positive and not tiny enough to be absorbed by rounding",
]
METHODS = ("euler", "ssprk2", "ssprk3", "rk4")
SHAPE = (2,)


class Run:
    def __init__(self, c, real=False):
        self.c = c
        it = c.interp()
        self.fp = FPModel(it)
        self.calls = []
        if real:
            self.o = H.solver(c, "x", 0, ic="leaf", fixed=False, riemann_solver="llf")
            self.o.attrs["f"] = I.Native("f", self.f)
            self.shape = (5,) + H.sizes("x")
            U = c.call(c.attr(self.o, "am"), "u")
            U.setitem((slice(None),) * 4, A.from_fn(self.shape, lambda i: N.leaf(("u",) + tuple(i)), "f"))
        else:
            ODE = c.get("ode", "ODE")
            self.shape = SHAPE
            cls = I.AClass("CheckODE", [ODE], {"f": I.StaticM(I.Native("f", self.f))}, ODE.mod)
            self.o = it.instantiate(cls, [A.from_fn(SHAPE, lambda i: N.leaf(("u",) + tuple(i)), "f")], {"progress_bar": False})

    def f(self, t, u):
        i = len(self.calls)
        dt = self.fp.leaf(("dt", i), 1 + Fr(i, 1009))
        pt = (0,) + tuple(0 for _ in self.shape[1:])
        self.calls.append((A.to_node(t), u.elem(pt), dt))
        return dt, A.from_fn(self.shape, lambda idx: N.leaf(("k", i) + tuple(idx)), "f")

    def u(self):
        pt = (0,) + tuple(0 for _ in self.shape[1:])
        return self.c.call(self.c.attr(self.o, "am"), "u").elem(pt)


STAGES = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}


def simulate(start, ncalls, stages, targets, T, exact, every):
    """reference loop on scenario values: (time stamps, hits, snapshots)"""
    t = start
    ts, hit, snaps = [], [], [(start, None)]
    i = ncalls
    todo = sorted(x for x in set(targets) | {T} if x > start) if exact else []
    while t < T:
        dt = 1 + Fr(i, 1009)
        i += stages
        h = None
        if todo and t + dt >= todo[0]:
            h = todo.pop(0)
            t = h
        else:
            t = t + dt
        ts.append(t)
        hit.append(h)
        if h is not None or t >= T or every:
            snaps.append((t, h))
        if len(ts) > 40:
            raise A.Unsupported("scenario too long")
    return ts, hit, snaps


def one(c, r, name, base, targets, T, form, exact=True, every=False, tie=()):
    """one call of an integrator: targets/T are scenario values"""
    fp, o = r.fp, r.o
    leaves = {}

    def tl(v):
        v = Fr(v)
        if v not in leaves:
            leaves[v] = fp.leaf(("time", str(v)), v)
        return leaves[v]

    t0 = A.to_node(c.attr(o, "t"))
    start = fp.value(t0)
    T = Fr(T) + base
    tg = [Fr(x) + base for x in targets]
    n0 = len(r.calls)
    ts0, sn0 = len(c.attr(o, "timestamps")), len(c.attr(o, "snapshot_times"))
    sc0 = c.attr(o, "step_count")
    seq = list(tg)
    if form == "reversed":
        seq = seq[::-1]
    elif form == "repeated":
        seq = seq[1:] + seq + seq[:1]
    elif form == "past":
        seq = seq + [start, start - Fr(1, 3), start - 2]
    elif form == "late":
        seq = [T + Fr(1, 7)] + seq + [T + 3]
    nodes = [t0 if v == start else tl(v) for v in seq]
    arg = nodes
    if form == "tuple":
        arg = tuple(nodes)
    elif form == "array":
        arg = A.from_list(nodes)
    elif form == "withT":
        arg = nodes + [tl(T)]
    kw = dict(T=tl(T))
    if form != "none":
        kw["downbeats"] = arg
    if not exact:
        kw["exact"] = False
    if every:
        kw["log_every_step"] = True
    u0 = r.u()
    c.guard(lambda: c.method(o, name, **kw), "runs", f"{name}(T, downbeats {form})", key="runs")
    what = f"{name} targets={[str(x) for x in targets]} T={T} {form} exact={exact} every={every}"
    for expr, site in fp.bad:
        c.fail("rounding", f"{what}: outcome of a comparison depends on rounding: {expr}", site, "rounding")
    c.count("rounding")
    ts, hit, snaps = simulate(start, n0, STAGES[name], seq if form != "none" else [], T, exact, every)
    got = [A.to_node(x) for x in c.attr(o, "timestamps")][ts0:]
    gv = [fp.value(x) for x in got]
    if not c.ok(len(got) == len(ts), "steps", f"{what}: {len(ts)} steps expected, {len(got)} taken (times {[float(x) for x in gv][:8]})", key="steps"):
        return
    prev = start
    for x, v, w, h in zip(got, gv, ts, hit):
        c.ok(v > prev, "forward", f"{what}: time advances from {float(prev):.4f} to {float(v):.4f}", x.site, "forward")
        c.ok(v == w, "time", f"{what}: time stamp {float(v):.4f}, required {float(w):.4f}", x.site, "time")
        if h is not None:
            c.ok(fp.resolve(x) is tl(h), "exact-hit", f"{what}: clock at the requested time {float(h):.4f} is {N.pretty(fp.resolve(x), 4)} (rounded), not the requested value", x.site, "exact-hit")
        prev = v
    tn = A.to_node(c.attr(o, "t"))
    c.ok(fp.resolve(tn) is (fp.resolve(got[-1]) if got else fp.resolve(t0)), "clock", f"{what}: t equals the last time stamp", tn.site, "clock")
    c.ok(c.attr(o, "step_count") == sc0 + len(ts), "counter", f"{what}: step counter", key="counter")
    st = [A.to_node(x) for x in c.attr(o, "snapshot_times")][sn0:]
    sv = [fp.value(x) for x in st]
    c.ok(sv == [v for v, _ in snaps], "snapshots", f"{what}: snapshots at {[float(x) for x in sv]}, required {[float(v) for v, _ in snaps]}", key="snapshots")
    for x, (v, h) in zip(st, snaps):
        if h is not None:
            c.ok(fp.resolve(x) is tl(h), "exact-snapshot", f"{what}: snapshot time at {float(v):.4f}", x.site, "exact-snapshot")
    c.ok(len(c.attr(o, "snapshots")) == len(c.attr(o, "snapshot_times")), "snapshots", f"{what}: one time per snapshot", key="snapshots")
    # the state used the same steps, and starts from where it was
    if ts:
        c.ok(fp.resolve(r.calls[n0][0]) is fp.resolve(t0), "restart", f"{what}: first evaluation at the current time", key="restart")
        c.same(r.calls[n0][1], u0, "restart", f"{what}: first evaluation of the current state", key="restart")
    c.ok(len(r.calls) == n0 + len(ts) * STAGES[name], "evaluations", f"{what}: evaluations per step", key="evaluations")
    if name == "euler":
        ue = r.u()
        prev = start
        for j, v in enumerate(ts):
            hit_k = N.leaf(("k", n0 + j, 0) + tuple(0 for _ in r.shape[1:]))

            def lm(lf):
                if lf is hit_k:
                    return N.ONE
                nm = lf.args[0]
                if isinstance(nm, tuple) and nm[0] in ("k", "u"):
                    return N.ZERO
                return None

            hj = fp.value(N.rebuild(ue, lm))
            c.ok(hj == v - prev, "state-step", f"{what}: step {j} advances the state by {float(hj):.4f} and the clock by {float(v - prev):.4f}", ue.site, "state-step")
            prev = v


def slots(c, name, targets, T, forms, real=False):
    for form in forms:
        r = Run(c, real)
        one(c, r, name, Fr(0), targets, T, form)


def again(c, name, first, second):
    """a second call continues; its own times count from the reached time"""
    r = Run(c)
    one(c, r, name, Fr(0), first[0], first[1], "list")
    one(c, r, name, Fr(first[1]), second[0], second[1], "past")
    one(c, r, name, Fr(first[1]) + Fr(second[1]), (), Fr(2, 5), "none")


def loose(c, name, T, every):
    r = Run(c)
    one(c, r, name, Fr(0), (Fr(2, 5), Fr(3, 2)), T, "list", exact=False, every=every)


def every(c, name, targets, T):
    r = Run(c)
    one(c, r, name, Fr(0), targets, T, "list", every=True)


def done(c, name):
    """an end time that is not ahead: nothing happens"""
    r = Run(c)
    one(c, r, name, Fr(0), (), Fr(9, 10), "none")
    u = r.u()
    n = len(r.calls)
    for T in (Fr(1, 2), Fr(-1)):
        t0 = c.attr(r.o, "t")
        c.guard(lambda: c.method(r.o, name, T=r.fp.leaf(("time", str(T)), T)), "runs", f"{name} with an end time in the past")
        c.ok(len(r.calls) == n, "not-ahead", f"{name}: no step towards an end time in the past", key="not-ahead")
        c.same(r.u(), u, "not-ahead", f"{name}: state unchanged", key="not-ahead")
        c.same(c.attr(r.o, "t"), t0, "not-ahead", f"{name}: time unchanged", key="not-ahead")


def count(c, name, n, extra):
    r = Run(c)
    kw = dict(n=n)
    if extra:
        kw.update(T=r.fp.leaf("far", Fr(5, 2)), downbeats=[r.fp.leaf("db", Fr(1, 2))])
    for rep in range(2):
        a = len(r.calls)
        c.method(r.o, name, **kw)
        c.ok(len(r.calls) - a == n * STAGES[name], "n-steps", f"{name}(n={n}) takes {n} steps, {len(r.calls) - a} evaluations seen", key="n-steps")
    ts = [A.to_node(x) for x in c.attr(r.o, "timestamps")]
    c.ok(len(ts) == 2 * n + 1 and c.attr(r.o, "step_count") == 2 * n, "n-steps", f"{name}(n={n}) twice: {len(ts) - 1} time stamps, counter {c.attr(r.o, 'step_count')}", key="n-steps")
    v = [r.fp.value(x) for x in ts]
    for i in range(1, len(v)):
        d = r.fp.value(r.calls[(i - 1) * STAGES[name]][2])
        c.ok(v[i] - v[i - 1] == d, "n-steps", f"{name}(n={n}): step {i} advances the clock by its own step size", ts[i].site, "n-steps")
    st = [r.fp.value(A.to_node(x)) for x in c.attr(r.o, "snapshot_times")]
    c.ok(st == [v[0], v[n], v[n], v[2 * n]], "n-snapshots", f"{name}(n={n}) twice: snapshots before and after each, got {[float(x) for x in st]}", key="n-snapshots")


def tie(c, name):
    """a step that ends exactly on the requested time by itself"""
    r = Run(c)
    d = r.fp.leaf(("dt", 0), 1)
    far = r.fp.leaf("far", Fr(3, 2))
    c.method(r.o, name, T=far, downbeats=[d])
    for expr, site in r.fp.bad:
        c.fail("rounding", f"{name}: {expr}", site, "rounding")
    ts = [r.fp.resolve(A.to_node(x)) for x in c.attr(r.o, "timestamps")]
    c.ok(len(ts) == 3 and ts[1] is d and ts[2] is far, "tie", f"{name}: step ends on the requested time: {[N.pretty(x, 3) for x in ts]}", key="tie")
    st = [r.fp.resolve(A.to_node(x)) for x in c.attr(r.o, "snapshot_times")]
    c.ok(len(st) == 3 and st[1] is d and st[2] is far, "tie", f"{name}: snapshots at {[N.pretty(x, 3) for x in st]}", key="tie")


def loose_tie(c, name, every):
    """a step that ends exactly on the end time without being shortened"""
    r = Run(c)
    d = r.fp.leaf(("dt", 0), 1)
    kw = dict(log_every_step=True) if every else {}
    c.method(r.o, name, T=d, exact=False, **kw)
    for expr, site in r.fp.bad:
        c.fail("rounding", f"{name}: {expr}", site, "rounding")
    for what in ("timestamps", "snapshot_times"):
        ts = [r.fp.resolve(A.to_node(x)) for x in c.attr(r.o, what)]
        c.ok(len(ts) == 2 and ts[1] is d, "tie", f"{name}: exact=False, step ends on the end time: {what} {[N.pretty(x, 3) for x in ts]}", key="tie")


def cases(tier):
    out = []
    pos = [Fr(2, 5), Fr(4, 5), Fr(3, 2), Fr(19, 10), Fr(13, 5), Fr(37, 10)]
    forms = ("list", "reversed", "repeated", "past", "late", "tuple", "array", "withT")
    for name in METHODS:
        mx = 4 if tier == "thorough" else 3
        for k in range(0, mx + 1):
            for sub in combinations(pos, k):
                for T in (Fr(11, 4), Fr(5)):
                    if sub and max(sub) >= T:
                        continue
                    if name != "euler" and tier != "thorough" and (k > 2 or T == 5):
                        continue
                    fs = forms if k else ("none", "list", "past", "late")
                    out.append((f"{name} slots {[str(x) for x in sub]} T={T}", slots, dict(name=name, targets=sub, T=T, forms=fs)))
        # requested times a hair before or after the end of a full step, and close to each other
        for e in (Fr(1, 10 ** 12), Fr(1, 10 ** 9), Fr(1, 10 ** 6), Fr(1, 10 ** 4), Fr(1, 100)):
            one_ = 1 + Fr(0, 1009)
            for sub, T in (((one_ - e,), Fr(5, 2)), ((one_ + e,), Fr(5, 2)), ((), one_ - e), ((), one_ + e), ((Fr(1, 2), Fr(1, 2) + e), Fr(3, 2)),
                           ((Fr(3, 2) - e,), Fr(3, 2)), ((one_ - e, one_ + e), Fr(5, 2)), ((e,), Fr(3, 2))):
                out.append((f"{name} close {[str(x) for x in sub]} T={T}", slots, dict(name=name, targets=sub, T=T, forms=("list",))))
        for a in (((), Fr(3, 10)), ((Fr(1, 2),), Fr(6, 5)), ((Fr(1, 10), Fr(2, 10)), Fr(3, 10))):
            for b in (((), Fr(9, 10)), ((Fr(1, 2), Fr(7, 5)), Fr(2)), ((Fr(6, 5),), Fr(13, 10))):
                out.append((f"{name} again {a} {b}", again, dict(name=name, first=a, second=b)))
        for T in (Fr(1, 2), Fr(9, 4)):
            for e in (False, True):
                out.append((f"{name} exact=False T={T} every={e}", loose, dict(name=name, T=T, every=e)))
            out.append((f"{name} every T={T}", every, dict(name=name, targets=(Fr(2, 5), Fr(3, 10)), T=T)))
        out.append((f"{name} past end", done, dict(name=name)))
        out.append((f"{name} tie", tie, dict(name=name)))
        for e in (False, True):
            out.append((f"{name} tie exact=False every={e}", loose_tie, dict(name=name, every=e)))
        for n in (0, 1, 2, 4):
            for ex in (False, True):
                out.append((f"{name} n={n} extra={ex}", count, dict(name=name, n=n, extra=ex)))
    out.append(("solver slots", slots, dict(name="euler", targets=(Fr(2, 5), Fr(3, 2)), T=Fr(11, 4), forms=("list", "repeated", "array"), real=True)))
    return out
