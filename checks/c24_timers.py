"""C24: timers, counters and progress report what happened."""
from fractions import Fraction as Fr
from itertools import product

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import nodes as N
from fvsa.arrays import PyErr
from fvsa.vfs import VFS

TITLE = "timers and counters"
TECHNIQUE = "typestate analysis by abstract interpretation: every operation history up to a bound against the timer automaton with symbolic clock readings; timer state, clock-reading sums and counters on every interpreted path through a run"
EXPLANATION = (
    "Timer is interpreted over all histories of start, stop and add operations (known, unknown and new categories) up to the bound, each compared with the two-state automaton per category: misuse is rejected and leaves everything "
    "as it was, accumulated times are exactly the sums of (stop reading - start reading). Runs (number of steps, end time, output times, logging, saved directories read or overwritten, repeated, with and without limiting and trouble) are "
    "interpreted and must leave every category stopped, restartable and with properly paired readings, all steps inside TOTAL and all snapshots taken during the run inside SNAPSHOTS, and counters equal to the number of steps and evaluations."
)
ASSUMPTIONS = ["the system clock does not run backwards", "histories of at most four (thorough: five) operations on two categories", "runs that end by an exception of user code are not considered"]
STAGES = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}


class Auto:
    """reference: one two-state automaton per category"""

    def __init__(self, cats):
        self.run = {c: None for c in cats}
        self.cum = {c: N.ZERO for c in cats}

    def ok(self, op, cat):
        if op == "add":
            return cat not in self.run
        return cat in self.run and ((self.run[cat] is None) == (op == "start"))


def readings(it, k):
    return [e.data[1] for e in it.events[k:] if e.kind == "clock"]


def cums(c, t):
    return {k: A.to_node(v) for k, v in c.attr(t, "cum_time").items()}


def compare(c, t, a, what):
    got = cums(c, t)
    c.ok(set(got) == set(a.cum), "categories", f"{what}: categories {sorted(got)}", key="categories")
    for k in a.cum:
        c.same(got[k], a.cum[k], "accumulated", f"{what}: accumulated time of {k}", key="accumulated")
    d = c.method(t, "to_dict")
    c.ok(list(d) == list(got) and len(d) == len(a.cum), "categories", f"{what}: dictionary lists {sorted(d)}", key="categories")
    lines = [x.split() for x in c.method(t, "report").split("\n")]
    for k in a.cum:
        rows = [x for x in lines if x and x[0] == k]
        c.ok(len(rows) == 1, "report", f"{what}: {len(rows)} rows for {k} in the report", key="report")
        row = " ".join(rows[0][1:])
        c.ok(bool(row) and (a.cum[k].const is not None or N.pretty(a.cum[k]) in row or "clock" in row), "report", f"{what}: row of {k} shows '{row}'", key="report")
        others = [q for q in a.cum if q != k and a.cum[q].const is None and a.cum[q] is not a.cum[k] and N.pretty(a.cum[q]) in row]
        c.ok(not others, "report", f"{what}: row of {k} shows the time of {others}", key="report")


OPS = [("start", "a"), ("stop", "a"), ("start", "b"), ("stop", "b"), ("start", "q"), ("stop", "q"), ("add", "a"), ("add", "q")]


def histories(c, first, depth):
    it = c.interp()
    T = c.get("timer", "Timer")
    n = 0
    for L in range(0, depth):
        for rest in product(OPS, repeat=L):
            ops = (first,) + rest
            # only histories that extend a legal prefix or end in the first illegal operation or its successor
            t = c.call(T, ["a", "b"])
            a = Auto(["a", "b"])
            bad = 0
            for op, cat in ops:
                k = len(it.events)
                legal = a.ok(op, cat)
                name = {"start": "start", "stop": "stop", "add": "add_cat"}[op]
                if legal:
                    c.guard(lambda: c.method(t, name, cat), "legal", f"{op} {cat} in {ops}")
                    if op == "add":
                        a.run[cat], a.cum[cat] = None, N.ZERO
                    else:
                        r = readings(it, k)
                        if len(r) != 1:
                            raise H.Stop(f"{len(r)} clock readings in {op}")
                        if op == "start":
                            a.run[cat] = r[0]
                        else:
                            a.cum[cat] = N.add(a.cum[cat], N.sub(r[0], a.run[cat]))
                            a.run[cat] = None
                else:
                    bad += 1
                    c.raises(None, lambda: c.method(t, name, cat), "misuse-rejected", f"{op} {cat} at the end of {ops}", "misuse-rejected")
            n += 1
            if n % 7 == 0 or L < 2:
                compare(c, t, a, f"after {ops}")
            else:
                got = cums(c, t)
                for k in a.cum:
                    c.same(got[k], a.cum[k], "accumulated", f"after {ops}: accumulated time of {k}", key="accumulated")


def construct(c):
    it = c.interp()
    T = c.get("timer", "Timer")
    for cats, want in ((["x1", "y1"], ["x1", "y1"]), (("x1",), ["x1"]), ("word", ["word"]), ((), [])):
        t = c.call(T, cats)
        c.ok(list(cums(c, t)) == want, "categories", f"Timer({cats!r}) has categories {list(cums(c, t))}", key="categories")
        c.method(t, "report")
        c.method(t, "to_dict")
    c.raises(None, lambda: c.call(T, ["a", "b", "a"]), "misuse-rejected", "repeated category", "misuse-rejected")
    t1, t2 = c.call(T, ["a"]), c.call(T, ["a"])
    c.method(t1, "start", "a")
    c.raises(None, lambda: c.method(t2, "stop", "a"), "independent", "stopping a category started in another timer", "independent")
    c.method(t1, "stop", "a")
    c.same(cums(c, t2)["a"], N.ZERO, "independent", "time of the other timer", key="independent")
    t3 = c.call(T)
    c.method(t3, "add_cat", ["u", "v"])
    c.ok(list(cums(c, t3)) == ["u", "v"] and not cums(c, c.call(T)), "independent", "categories added to one timer", key="independent")
    for p in (0, 2, 5):
        t = c.call(T, ["a"], precision=p)
        c.method(t, "start", "a")
        c.method(t, "stop", "a")
        v = A.to_node(c.method(t, "to_dict")["a"])
        c.ok(v.op != "uf" or str(p) in str(v.args[0]) or (p == 0 and "round" in str(v.args[0])), "precision", f"time rounded to {p} places: {N.pretty(v)}", key="precision")


def pairs(c, it, node, what):
    """intervals (start, stop) of an accumulated time, as positions in the sequence of clock readings"""
    order = {e.data[1].id: k for k, e in enumerate([e for e in it.events if e.kind == "clock"])}
    acc = {}

    def lin(n, s):
        if n.op == "add":
            lin(n.args[0], s), lin(n.args[1], s)
        elif n.op == "sub":
            lin(n.args[0], s), lin(n.args[1], -s)
        elif n.op == "neg":
            lin(n.args[0], -s)
        elif n.const is not None:
            if n.const != 0:
                raise H.Stop("constant in an accumulated time")
        elif n.id in order:
            acc[n.id] = acc.get(n.id, 0) + s
        else:
            raise H.Stop(f"{N.pretty(n)[:60]} in an accumulated time")

    lin(node, 1)
    seq = sorted((order[k], s) for k, s in acc.items() if s)
    out = []
    while seq:
        if len(seq) < 2 or seq[0][1] != -1 or seq[1][1] != 1:
            c.ok(False, "paired", f"{what}: accumulated time is not a sum of (stop - start): {[(k, s) for k, s in seq[:3]]}", node.site, "paired")
            raise H.Stop()
        out.append((seq[0][0], seq[1][0]))
        seq = seq[2:]
    c.count("paired")
    return out


def spy(c, s, name, log):
    """note the position in the clock sequence whenever a method is entered"""
    orig = c.attr(s, name)

    def f(*a, **k):
        log.append(sum(e.kind == "clock" for e in c.it.events))
        r = c.it.call(orig, list(a), k)
        if name == "f":
            # the rates are somebody else's business: an unknown array of that shape
            j = len(log)
            r = (r[0], A.from_fn(tuple(r[1].shape), lambda i: N.leaf(("rate", j) + tuple(i)), "f"))
        return r

    s.attrs[name] = I.Native(name, f)


def run(c, dims, p, method, plan, trouble=True, bcs=None, **opts):
    it = c.interp()
    H.assume_any(it, trouble)
    it.vfs = VFS(it)
    if bcs:
        opts["bc"] = c.call(c.get("boundary_conditions", "BoundaryCondition"), **bcs)
    s = H.solver(c, dims, {d: p for d in dims}, ic="leaf", riemann_solver="llf", fixed_dt=Fr(1, 4), **opts)
    timer = c.attr(s, "timer")
    cats = list(cums(c, timer))
    c.ok(len(cats) == len(set(cats)) and {"TOTAL", "SNAPSHOTS"} <= set(cats), "categories", f"{cats}", key="categories")
    fs, ss = [], []
    spy(c, s, "f", fs)
    spy(c, s, "snapshot", ss)
    steps = evals = 0
    late = []
    for kw, k in plan:
        kw = dict(kw)
        a = len(ss)
        c.guard(lambda: c.method(s, method, **kw), "runs", f"{method}({sorted(kw)})")
        steps += k
        evals += k * STAGES[method]
        # the snapshot taken before a run towards an end time precedes it
        late += ss[a + (0 if "n" in kw else 1):]
        c.ok(c.attr(s, "step_count") == steps, "step-counter", f"{method}: step counter {c.attr(s, 'step_count')} after {steps} steps", key="step-counter")
        c.ok(len(c.attr(s, "timestamps")) == steps + 1, "step-counter", f"{method}: {len(c.attr(s, 'timestamps'))} time stamps after {steps} steps", key="step-counter")
        c.ok(c.attr(s, "f_evaluation_count") == evals, "evaluation-counter", f"{method}: evaluation counter {c.attr(s, 'f_evaluation_count')} after {evals} evaluations", key="evaluation-counter")
    now = cums(c, timer)
    c.ok(list(now) == cats, "categories", "categories unchanged by a run", key="categories")
    iv = {k: pairs(c, it, v, k) for k, v in now.items()}
    inside = lambda x, k: any(b < x <= e for b, e in iv[k])
    if len(fs) == evals:
        for x in fs:
            c.ok(inside(x, "TOTAL"), "covered", f"{method}: evaluation after clock reading {x} outside TOTAL {iv['TOTAL']}", key="covered")
    for x in late:
        c.ok(inside(x, "SNAPSHOTS"), "covered", f"{method}: snapshot after clock reading {x} outside SNAPSHOTS {iv['SNAPSHOTS']}", key="covered")
    # nothing left running: every category can be started (and stopped) now
    for k in cats:
        c.guard(lambda: c.method(timer, "start", k), "stopped-at-end", f"category {k} is stopped after {method}", "stopped-at-end")
        c.guard(lambda: c.method(timer, "stop", k), "stopped-at-end", f"category {k} restarts after {method}", "stopped-at-end")
    # direct evaluations and snapshots
    am = c.attr(s, "am")
    e0 = c.attr(s, "f_evaluation_count")
    c.method(s, "f", N.leaf("t9"), c.call(am, "u"))
    c.ok(c.attr(s, "f_evaluation_count") == e0 + 1, "evaluation-counter", "one direct evaluation", key="evaluation-counter")
    c.method(s, "snapshot")
    c.ok(c.attr(s, "f_evaluation_count") == e0 + 1 and c.attr(s, "step_count") == steps, "evaluation-counter", "a snapshot evaluates nothing", key="evaluation-counter")
    for k in cats:
        c.guard(lambda: c.method(timer, "start", k), "stopped-at-end", f"category {k} is stopped after an evaluation and a snapshot", "stopped-at-end")
    # a second solver has its own timer
    s2 = H.solver(c, dims, {d: p for d in dims}, ic="leaf", riemann_solver="llf", fixed_dt=Fr(1, 4), **opts)
    for k, v in cums(c, c.attr(s2, "timer")).items():
        c.same(v, N.ZERO, "independent", f"{k} of a second solver", key="independent")
    c.ok(c.attr(s2, "step_count") == 0 and c.attr(s2, "f_evaluation_count") == 0, "independent", "counters of a second solver", key="independent")


def shown(c, events, bar, want, what):
    """positions the bar takes: after every step the time reached"""
    pos = A.to_node(bar.data[2].get("initial", 0))
    seen = []
    for e in events:
        if e.kind == "extset" and e.data[0] == "tqdm.tqdm()" and e.data[1] == "n":
            v = e.data[2]
        elif e.kind == "extcall" and e.data[0] == "tqdm.tqdm().update":
            v = e.data[1][0] if e.data[1] else e.data[2].get("n", 1)
            v = N.add(pos, A.to_node(v)) if not isinstance(v, I.Opaque) else v
        else:
            continue
        if isinstance(v, I.Opaque):
            return  # position computed from the bar's own state: not followed
        pos = A.to_node(v)
        if not seen or seen[-1] is not pos:
            seen.append(pos)
    got = [float(x.const) if x.const is not None else N.pretty(x) for x in seen]
    want = [float(w) for w in want]
    c.ok(got[-len(want):] == want and all(g in (0.0, want[0] - 0.25) for g in got[:-len(want)]), "progress", f"{what}: the bar shows {got}, times reached {want}", key="progress")


def progress(c, on):
    """the progress bar shows the time reached, and only when asked for"""
    it = c.interp()
    H.assume_any(it, True)
    kw = dict(progress_bar=on)
    s = H.solver(c, "x", {"x": 0}, ic="leaf", riemann_solver="llf", fixed_dt=Fr(1, 4), **kw)
    T = Fr(1, 2)
    c.method(s, "euler", T=T)
    ev = [e for e in it.events if e.kind == "extcall" and "tqdm" in e.data[0]]
    bars = [e for e in ev if e.data[0].endswith("tqdm") and not e.data[2].get("disable")]
    c.ok(bool(bars) == on, "progress", f"progress bar {'wanted' if on else 'not wanted'}: {len(bars)} created", key="progress")
    if on:
        b = [e.data[2].get("total") for e in bars]
        c.ok(len(bars) == 1 and b[0] is not None and A.to_node(b[0]).id == A.to_node(T).id, "progress", f"one bar, total {b}", key="progress")
        c.ok(sum(e.data[0].endswith(".close") for e in ev) == 1, "progress", "bar closed once", key="progress")
        shown(c, it.events, bars[0], [Fr(1, 4), Fr(1, 2)], "first run")
        k = len(it.events)
        c.method(s, "euler", T=1)
        again = [e for e in it.events[k:] if e.kind == "extcall" and e.data[0] == "tqdm.tqdm" and not e.data[2].get("disable")]
        if c.ok(len(again) == 1, "progress", f"second run: {len(again)} bars", key="progress"):
            shown(c, it.events[k:], again[0], [Fr(3, 4), Fr(1)], "second run")
    k = len(it.events)
    c.method(s, "euler", n=2)
    bars = [e for e in it.events[k:] if e.kind == "extcall" and e.data[0].endswith("tqdm") and not e.data[2].get("disable")]
    c.ok(bool(bars) == on, "progress", f"given number of steps, progress bar {'wanted' if on else 'not wanted'}: {len(bars)} created", key="progress")


def cases(tier):
    out = [("construction", construct, {})]
    d = 5 if tier == "thorough" else 4
    for op in OPS:
        out.append((f"histories {op[0]} {op[1]}", histories, dict(first=op, depth=d)))
    q, h = Fr(1, 4), Fr(1, 2)
    plans = {
        "n": [(dict(n=2), 2)],
        "n=0": [(dict(n=0), 0)],
        "n twice": [(dict(n=1), 1), (dict(n=2), 2)],
        "T": [(dict(T=h), 2)],
        "T downbeats": [(dict(T=h, downbeats=[q]), 2)],
        "T every": [(dict(T=h, log_every_step=True), 2)],
        "T loose": [(dict(T=h, exact=False), 2)],
        "T past": [(dict(T=q), 1), (dict(T=q), 0)],
        "T then n": [(dict(T=q), 1), (dict(n=1), 1), (dict(T=Fr(3, 4)), 1)],
        "save": [(dict(T=q, snapshot_dir="out/a"), 1)],
        "save, read": [(dict(T=q, snapshot_dir="out/a"), 1), (dict(T=h, snapshot_dir="out/a"), 0)],
        "save, overwrite": [(dict(T=q, snapshot_dir="out/a"), 1), (dict(T=h, snapshot_dir="out/a", overwrite=True), 1), (dict(n=1), 1)],
        "save, read, go on": [(dict(T=q, snapshot_dir="out/a"), 1), (dict(T=h, snapshot_dir="out/a"), 0), (dict(T=h), 1)],
    }
    lims = {
        "": {},
        "a posteriori": dict(a_posteriori_slope_limiting=True, slope_limiter="minmod"),
        "a posteriori SED": dict(a_posteriori_slope_limiting=True, slope_limiter="moncen", SED=True, NAD=Fr(1, 10)),
        "forced": dict(a_posteriori_slope_limiting=True, slope_limiter="minmod", force_trouble=True),
    }
    for nm, plan in plans.items():
        for m in STAGES:
            if m != "euler" and nm not in ("n", "T downbeats", "save, read"):
                continue
            if m in ("ssprk3", "rk4"):
                plan = [(kw, min(k, 1) if "n" in kw else k) for kw, k in plan]
                plan = [(dict(kw, n=1) if "n" in kw and k else kw, k) for kw, k in plan]
            out.append((f"run {m} {nm}", run, dict(dims="x", p=0, method=m, plan=plan)))
    for ln, o in lims.items():
        if not ln:
            continue
        for tr in (True, False):
            for nm in ("n", "n twice", "T downbeats", "T then n", "save, read"):
                out.append((f"run euler {nm} {ln} trouble={tr}", run, dict(dims="x", p=1, method="euler", plan=plans[nm][:2] if nm != "n" else [(dict(n=1), 1)], trouble=tr, **o)))
            out.append((f"run ssprk2 n {ln} trouble={tr}", run, dict(dims="x", p=1, method="ssprk2", plan=[(dict(n=1), 1)], trouble=tr, **o)))
    for dims in ("y", "xy", "yz", "xyz"):
        out.append((f"run euler {dims}", run, dict(dims=dims, p=1, method="euler", plan=[(dict(n=1), 1)])))
        out.append((f"run euler {dims} limited", run, dict(dims=dims, p=0 if len(dims) == 3 else 1, method="euler", plan=[(dict(n=1), 1)], a_posteriori_slope_limiting=True, slope_limiter="minmod")))
    for b in ("free", "reflective"):
        out.append((f"run euler {b}", run, dict(dims="x", p=1, method="euler", plan=[(dict(n=1), 1)], bcs={"x": b})))
    out.append(("progress on", progress, dict(on=True)))
    out.append(("progress off", progress, dict(on=False)))
    return out
