"""C14: saved runs are never lost, mixed up or silently overwritten."""
from fractions import Fraction as Fr

from fvsa import arrays as A
from fvsa import harness as H
from fvsa import interp as I
from fvsa import libmods as LM
from fvsa import nodes as N
from fvsa.arrays import PyErr
from fvsa.vfs import VFS

TITLE = "save and load"
TECHNIQUE = "effect analysis: abstract interpretation over an abstract file system (closed-world tree), effect log bounded by region, saved values compared by value numbering"
EXPLANATION = (
    "Every integrator and the scripted runner are interpreted over an abstract file system in every directory state (absent, saved run present, present with "
    "foreign files, appearing during the run, present without a saved run) with and without overwriting, for sequences of save / load / overwrite, with relative, "
    "absolute, nested and unnormalised paths. Rules: without overwriting no existing entry changes; removals and writes stay inside the run directory; what a load "
    "returns value-numbers to what the saving run recorded, with its times, and evaluates no right-hand side; every option combination passes the JSON domain; the "
    "directory name of the scripted runner is injective in its settings."
)
ASSUMPTIONS = ["library models of os, shutil, pickle, json and pathlib", "real arithmetic"]

def big_dt(it):
    """the CFL step is longer than the run: any comparison of it with a constant is decided so"""
    prev = it.oracle

    def oracle(n):
        v = prev(n) if prev else None
        if v is not None or n.op != "cmp":
            return v
        d = n.args[1]
        if d.op == "sub" and d.args[0].const is not None:
            return False
        if d.op == "sub" and d.args[1].const is not None or d.op == "add" and any(x.const is not None for x in d.args):
            return True
        return None

    it.oracle = oracle


KEEP = {"/cwd/out/other/arrs.pkl": [("pickle", "other run")], "/cwd/out/notes.txt": [("text", "notes")], "/cwd/precious.txt": [("text", "x")]}


def world(c, seed=None, cupy=False):
    it = c.interp(cupy=cupy) if cupy else c.interp()
    H.assume_any(it, True)
    it.vfs = VFS(it)
    for p, v in KEEP.items():
        it.vfs.seed(p, v)
    for p, v in (seed or {}).items():
        it.vfs.seed(p, v)
    return it


def ic_of(c, tag):
    return H.mk_ic(c, name=tag)


def mk(c, tag="A", dims="x", p=0, **kw):
    o = dict(riemann_solver="llf", fixed_dt=Fr(1, 4))
    o.update(kw)
    return H.solver(c, dims, p, ic=ic_of(c, tag), **o)


def untouched(c, it, before, inside, what):
    """entries outside the directory are what they were"""
    now = it.vfs.snapshot()
    pre = inside.rstrip("/") + "/" if inside else None
    out = lambda p: not (pre and (p == inside or p.startswith(pre)))
    for p, v in before.items():
        if out(p):
            c.ok(p in now and now[p] == v, "outside-untouched", f"{what}: {p} lost or changed", key="outside-untouched")
    for p in now:
        if out(p) and p not in before:
            c.ok(bool(inside) and inside.startswith(p.rstrip("/") + "/") and now[p] == "dir", "outside-untouched", f"{what}: unexpected entry {p}", key="outside-untouched")


def unchanged(c, it, before, what, key):
    now = it.vfs.snapshot()
    c.ok(now == before, key, f"{what}: file system changed: {sorted(p for p in set(now) | set(before) if now.get(p) != before.get(p))}", key=key)


def same_val(c, a, b, rule, what):
    if isinstance(b, dict):
        if not c.ok(isinstance(a, dict) and set(a) == set(b), rule, f"{what}: entries {a.keys() if isinstance(a, dict) else a!r}", key=rule):
            return
        for k in b:
            same_val(c, a[k], b[k], rule, f"{what}[{k!r}]")
        return
    if isinstance(b, (list, tuple)):
        if not c.ok(isinstance(a, (list, tuple)) and len(a) == len(b), rule, f"{what}: {a!r} instead of {len(b)} entries", key=rule):
            return
        for i, (x, y) in enumerate(zip(a, b)):
            same_val(c, x, y, rule, f"{what}[{i}]")
        return
    if isinstance(b, A.Arr):
        if not c.ok(isinstance(a, A.Arr) and tuple(a.shape) == tuple(b.shape), rule, f"{what}: not the same array", key=rule):
            return
        import itertools

        from fvsa.aff import Aff, sym
        axes = [[sym(f"q{j}")] if isinstance(n, Aff) else list(range(n)) for j, n in enumerate(b.shape)]
        for idx in itertools.product(*axes):
            c.same(a.elem(idx), b.elem(idx), rule, f"{what} at {idx}", key=rule)
        return
    if isinstance(b, str) or b is None or isinstance(b, bool):
        c.ok(a == b, rule, f"{what}: {a!r} != {b!r}", key=rule)
        return
    c.same(a, b, rule, what, key=rule)


DRIVE = dict(T=Fr(1, 2))


def run(c, s, how, d, **kw):
    o = dict(DRIVE, snapshot_dir=d)
    o.update(kw)
    return c.method(s, how, **o)


def idle(c, s, u0, what):
    """no integration happened"""
    c.ok(c.attr(s, "f_evaluation_count") == 0 and c.attr(s, "step_count") == 0 and len(c.attr(s, "timestamps")) == 1, "load-without-integration", f"{what}: the right-hand side or a step was evaluated", key="load-without-integration")
    c.same(c.attr(s, "t"), N.ZERO, "load-without-integration", f"{what}: time", key="load-without-integration")
    u = c.call(c.attr(s, "am"), "u")
    g = (0,) + H.gidx("x")
    c.same(u.elem(g), u0, "load-without-integration", f"{what}: state", key="load-without-integration")


def seed_u(c, s):
    return c.call(c.attr(s, "am"), "u").elem((0,) + H.gidx("x"))


def history(c, how, path, p=0, lim=False):
    """save A; load as B; overwrite by B; load as C"""
    it = world(c)
    kw = dict(H.LIM, SED=False, NAD_mode="local") if lim else {}
    real = it.vfs.norm(path)
    a = mk(c, "A", p=p, **kw)
    before = it.vfs.snapshot()
    run(c, a, how, path)
    untouched(c, it, before, real, f"first run into {path}")
    c.ok(not any(op == "remove" for op, _ in it.vfs.log), "no-removal", "a first run removed something", key="no-removal")
    c.ok(c.attr(a, "f_evaluation_count") > 0 and len(c.attr(a, "snapshots")) == 2, "fresh-run", "a run into an absent directory integrates", key="fresh-run")
    saved = it.vfs.snapshot()
    # load
    b = mk(c, "B", p=p, **kw)
    u0 = seed_u(c, b)
    run(c, b, how, path)
    unchanged(c, it, saved, "loading", "load-only-reads")
    idle(c, b, u0, "loading")
    same_val(c, c.attr(b, "snapshots"), c.attr(a, "snapshots"), "load-restores", "loaded snapshots")
    same_val(c, c.attr(b, "snapshot_times"), c.attr(a, "snapshot_times"), "load-restores", "loaded snapshot times")
    # asking again on the same object
    run(c, b, how, path)
    same_val(c, c.attr(b, "snapshots"), c.attr(a, "snapshots"), "load-restores", "snapshots loaded twice")
    same_val(c, c.attr(b, "snapshot_times"), c.attr(a, "snapshot_times"), "load-restores", "snapshot times loaded twice")
    unchanged(c, it, saved, "loading twice", "load-only-reads")
    # overwrite
    b = mk(c, "B", p=p, **kw)
    n0 = len(it.vfs.log)
    run(c, b, how, path, overwrite=True)
    untouched(c, it, saved, real, "overwriting")
    for op, q in it.vfs.log[n0:]:
        c.ok(q == real or q.startswith(real + "/"), "overwrite-inside", f"overwriting {real}: {op} {q}", key="outside-untouched")
    c.ok(c.attr(b, "f_evaluation_count") > 0 and len(c.attr(b, "snapshots")) == 2, "overwrite-integrates", "with overwriting the run integrates", key="overwrite-integrates")
    d = mk(c, "C", p=p, **kw)
    u0 = seed_u(c, d)
    run(c, d, how, path)
    idle(c, d, u0, "loading after overwriting")
    same_val(c, c.attr(d, "snapshots"), c.attr(b, "snapshots"), "load-restores", "snapshots loaded after overwriting")
    same_val(c, c.attr(d, "snapshot_times"), c.attr(b, "snapshot_times"), "load-restores", "times loaded after overwriting")


def saved_by(c, how, path="out/run", p=0, **kw):
    """world with a run A saved; returns (it, A)"""
    it = world(c)
    a = mk(c, "A", p=p, **kw)
    run(c, a, how, path)
    return it, a


def aliases(c, path, other):
    """two spellings of one directory are the same run"""
    it, a = saved_by(c, "euler", path)
    b = mk(c, "B")
    u0 = seed_u(c, b)
    before = it.vfs.snapshot()
    run(c, b, "euler", other)
    unchanged(c, it, before, f"loading via {other}", "load-only-reads")
    idle(c, b, u0, f"loading via {other}")
    same_val(c, c.attr(b, "snapshots"), c.attr(a, "snapshots"), "load-restores", f"snapshots loaded via {other}")


def foreign(c, how, overwrite, seed):
    """the directory exists but holds no saved run"""
    it = world(c, seed)
    before = it.vfs.snapshot()
    s = mk(c, "A")
    try:
        run(c, s, how, "out/run", overwrite=overwrite)
        done = True
    except PyErr:
        done = False
    if not overwrite:
        now = it.vfs.snapshot()
        for p, v in before.items():
            c.ok(now.get(p) == v, "existing-kept", f"without overwriting {p} was changed", key="existing-kept")
        if done:
            c.ok(c.attr(s, "f_evaluation_count") > 0, "reported-found", "a saved run was reported as found where there is none", key="reported-found")
    else:
        c.ok(done and c.attr(s, "f_evaluation_count") > 0, "overwrite-integrates", "with overwriting the run integrates", key="overwrite-integrates")
        untouched(c, it, before, "/cwd/out/run", "overwriting")


def appearing(c, how):
    """another process saves into the directory while this run integrates"""
    it = world(c)
    other = [("pickle", [{"t": Fr(0), "w": "theirs"}])]
    n = [0]

    def hf(s):
        n[0] += 1
        if n[0] == 1:
            it.vfs.seed("/cwd/out/run/arrs.pkl", other)
            it.vfs.seed("/cwd/out/run/attrs.json", [("json", {})])

    s = mk(c, "A", snapshot_helper_function=I.Native("helper", hf))
    try:
        run(c, s, how, "out/run")
    except PyErr:
        pass
    now = it.vfs.snapshot()
    c.ok(now.get("/cwd/out/run/arrs.pkl") == other, "concurrent-kept", "a run saved meanwhile by someone else was replaced without overwriting", key="existing-kept")


def direct_write(c):
    it, a = saved_by(c, "euler")
    before = it.vfs.snapshot()
    b = mk(c, "B")
    c.method(b, "snapshot")
    b.attrs["snapshot_dir"] = "out/run"
    b.attrs["integrator"] = "euler"
    c.raises(None, lambda: c.method(b, "write_snapshots", False), "write-refused", "writing over a saved run without overwriting", key="existing-kept")
    unchanged(c, it, before, "refused write", "existing-kept")


def no_saving(c, how, kw):
    it = world(c)
    before = it.vfs.snapshot()
    s = mk(c, "A")
    c.method(s, how, **kw)
    unchanged(c, it, before, "a run without a snapshot directory", "no-effects")
    c.ok(not it.vfs.log, "no-effects", f"file-system effects {it.vfs.log[:3]}", key="no-effects")


def continued(c):
    """continuing a run into a second directory stores everything the solver recorded"""
    it = world(c)
    a = mk(c, "A")
    run(c, a, "euler", "out/run1")
    first = [dict(s) for s in c.attr(a, "snapshots")]
    before = it.vfs.snapshot()
    run(c, a, "euler", "out/run2", T=Fr(1))
    untouched(c, it, before, "/cwd/out/run2", "continued run")
    b = mk(c, "B")
    run(c, b, "euler", "out/run2")
    same_val(c, c.attr(b, "snapshots"), c.attr(a, "snapshots"), "load-restores", "snapshots of the continued run")
    d = mk(c, "B")
    run(c, d, "euler", "out/run1")
    same_val(c, c.attr(d, "snapshots"), first, "load-restores", "snapshots of the first part")


def bfun(nv=5, t=True):
    def f(x, y, z, t):
        return A.from_fn((nv,) + tuple(x.shape), lambda i: N.uf(("bc", i[0]), *[q.elem(tuple(i[1:])) for q in (x, y, z)], pos=1 if i[0] in (0, 4) else None), "f")

    return I.Native("bf", f)


def saveable(c, opts=None, bc=None, dims="x", p=1, cupy=False, git="ok", how="euler", drive=None):
    """the configuration can be saved, and loaded back"""
    it = world(c, cupy=cupy)
    it.git = git
    big_dt(it)
    opts = dict(opts or {})
    if opts.pop("helper", False):
        opts["snapshot_helper_function"] = I.Native("helper", lambda s: None)
    if bc:
        B = c.get("boundary_conditions", "BoundaryCondition")
        b = {}
        for k, v in bc.items():
            if v == "fn":
                v = (bfun(), bfun())
            b[k] = v
        opts["bc"] = c.call(B, **b)
    pas = opts.pop("passives", ())
    s = mk(c, "A", dims=dims, p=p, passives=pas, cupy=cupy, **opts)
    c.guard(lambda: run(c, s, how, "out/run", **(drive or {})), "saveable", f"saving a run with {opts}")
    tree = it.vfs.snapshot()
    c.ok(any(k == "pickle" for v in tree.values() if v != "dir" for k, _ in v if v is not KEEP["/cwd/out/other/arrs.pkl"]), "saveable", "nothing was saved", key="saveable")
    opts.pop("bc", None)
    b = mk(c, "B", dims=dims, p=p, passives=pas, cupy=cupy, **opts)
    c.guard(lambda: run(c, b, how, "out/run", **(drive or {})), "loadable", f"loading a run with {opts}")
    c.ok(c.attr(b, "f_evaluation_count") == 0, "load-without-integration", "loading integrated", key="load-without-integration")
    same_val(c, c.attr(b, "snapshots"), c.attr(s, "snapshots"), "load-restores", "loaded snapshots")
    same_val(c, c.attr(b, "snapshot_times"), c.attr(s, "snapshot_times"), "load-restores", "loaded times")


BASE = dict(nx=8, px=0, fixed_dt=Fr(1, 4), riemann_solver="llf", progress_bar=False)


def wrap_dir(c, **kw):
    """directory the scripted runner saves into"""
    it = world(c)
    W = c.get("scripting", "EulerSolver_wrapper")
    # the dynamics do not matter here: arbitrary right-hand side, one step to the end
    ES = c.get("solver", "EulerSolver")
    ES.ns["f"] = LM.NativeMethod("f", lambda self, t, u: (Fr(100), A.from_fn(tuple(u.shape), lambda i: N.leaf(("k",) + tuple(i)), "f")))
    ES.ns["step_helper_function"] = LM.NativeMethod("step_helper_function", lambda self: None)
    ES.ns["snapshot"] = LM.NativeMethod("snapshot", lambda self: (self.attrs["snapshots"].append({"t": self.attrs["t"]}), self.attrs["snapshot_times"].append(self.attrs["t"])) and None)
    args = dict(project_pref="prj", snapshot_parent_dir="snaps", ic=H.mk_ic(c), T=Fr(1, 2))
    args.update(BASE)
    args.update(kw)
    if args.pop("reorder", False):
        args = dict(reversed(list(args.items())))
    s = c.call(W, **args)
    files = [p for p, v in it.vfs.tree.items() if v != "dir" and p not in KEEP]
    tops = {"/".join(p.split("/")[:4]) for p in files}
    return s, it, files


SETTINGS = [
    dict(), dict(project_pref="prj2"), dict(T=Fr(1, 4)), dict(T=Fr(501, 1000)), dict(T=Fr(5001, 10000)), dict(T=Fr(1)), dict(integrator=1), dict(integrator=2),
    dict(n_snapshots=3), dict(n_snapshots=11), dict(nx=9), dict(nx=16), dict(px=1, nx=8), dict(gamma=Fr(7, 5)), dict(gamma=Fr(1401, 1000)), dict(CFL=Fr(1, 2)),
    dict(fixed_dt=Fr(1, 8)), dict(fixed_dt=Fr(1, 16)), dict(riemann_solver="hllc"), dict(a_posteriori_slope_limiting=True, SED=False),
    dict(a_posteriori_slope_limiting=True, SED=False, NAD=Fr(1, 1000)), dict(a_posteriori_slope_limiting=True, SED=False, NAD=Fr(11, 10000)),
    dict(a_posteriori_slope_limiting=True, SED=False, slope_limiter="moncen"), dict(a_posteriori_slope_limiting=True, SED=False, NAD_mode="local"),
    dict(a_posteriori_slope_limiting=True, SED=False, convex=True), dict(a_posteriori_slope_limiting=True, SED=False, PAD={"rho": (0, 1)}),
    dict(a_posteriori_slope_limiting=True, SED=False, PAD={"rho": (0, 2)}), dict(a_posteriori_slope_limiting=True, SED=False, NAD_vars=("rho",)),
    dict(a_posteriori_slope_limiting=True, SED=False, NAD_vars=("P",)), dict(snapshots_as_fv_averages=False), dict(x=(0, 2)), dict(x=(0, Fr(5, 2))), dict(ny=4), dict(nx=1, ny=8), dict(csq_floor=Fr(1, 100)),
    dict(conservative_ic=True), dict(slab_buffer_size=20), dict(nx=81), dict(nx=8, ny=1, nz=2), dict(T=Fr(12345678, 10 ** 8)), dict(T=Fr(12345679, 10 ** 8)),
]


def wrapper_names(c):
    seen = {}
    for kw in SETTINGS:
        s, it, files = wrap_dir(c, **kw)
        d = {f.rsplit("/", 1)[0] for f in files}
        if not c.ok(len(d) == 1 and next(iter(d)).startswith("/cwd/snaps/"), "runner-directory", f"{kw}: saved in {sorted(d)}", key="runner-directory"):
            continue
        d = d.pop()
        c.ok(d not in seen, "runner-directory-distinct", f"settings {seen.get(d)} and {kw} are saved in the same directory", key="runner-directory-distinct")
        seen.setdefault(d, kw)
        _, _, f2 = wrap_dir(c, reorder=True, **kw)
        c.ok({x.rsplit("/", 1)[0] for x in f2} == {d}, "runner-directory-stable", f"{kw}: the directory depends on the order of the options", key="runner-directory-stable")


def plots_of(now, before):
    return [p for p, v in now.items() if v != "dir" and p not in before and p.startswith("/cwd/plots/")]


def wrapper_history(c, integrator):
    """repeating a scripted run loads it; overwriting repeats it"""
    W = c
    it = world(c)
    f = c.get("scripting", "EulerSolver_wrapper")

    def go(tag, **kw):
        a = dict(project_pref="prj", snapshot_parent_dir="out", ic=H.mk_ic(c, name=tag), T=Fr(1, 2), integrator=integrator, n_snapshots=3, **BASE)
        a.update(kw)
        return c.call(f, **a)

    before = it.vfs.snapshot()
    a = go("A")
    c.ok(len(c.attr(a, "snapshots")) == 3, "runner-snapshots", f"{len(c.attr(a, 'snapshots'))} snapshots instead of 3", key="runner-snapshots")
    for i in range(3):
        c.same(c.attr(a, "snapshot_times")[i], N.const(Fr(i, 4)), "runner-snapshots", f"time of snapshot {i}", key="runner-snapshots")
    saved = it.vfs.snapshot()
    d = [p for p in saved if p not in before]
    real = min(d, key=len)
    untouched(c, it, before, real, "scripted run")
    b = go("B")
    unchanged(c, it, saved, "repeating a scripted run", "load-only-reads")
    c.ok(c.attr(b, "f_evaluation_count") == 0, "load-without-integration", "repeating a scripted run integrates", key="load-without-integration")
    same_val(c, c.attr(b, "snapshots"), c.attr(a, "snapshots"), "load-restores", "repeated scripted run")
    b = go("B", overwrite=True)
    c.ok(c.attr(b, "f_evaluation_count") > 0, "overwrite-integrates", "overwriting a scripted run integrates", key="overwrite-integrates")
    untouched(c, it, saved, real, "overwriting scripted run")
    d = go("C")
    same_val(c, c.attr(d, "snapshots"), c.attr(b, "snapshots"), "load-restores", "scripted run after overwriting")
    # the summary directory is separate and the saved run intact
    s2 = it.vfs.snapshot()
    go("D", summary_parent_dir="plots", nx=12)
    now = it.vfs.snapshot()
    for p, v in s2.items():
        c.ok(now.get(p) == v, "outside-untouched", f"plotting run changed {p}", key="outside-untouched")
    first = plots_of(now, s2)
    c.ok(len(first) == 3 and len({p.rsplit("/", 1)[0] for p in first}) == 1, "summary-plots", f"a plotting run with 3 snapshots wrote {sorted(first)}", key="summary-plots")
    go("E", summary_parent_dir="plots", nx=16)
    then = it.vfs.snapshot()
    second = plots_of(then, now)
    c.ok(len(second) == 3 and all(then.get(p) == now[p] for p in first), "summary-plots", f"a second plotting run wrote {sorted(second)} beside {sorted(first)}", key="summary-plots")


def wrapper_rejects(c):
    it = world(c)
    f = c.get("scripting", "EulerSolver_wrapper")
    for bad in (0, 5, "rk4"):
        before = it.vfs.snapshot()
        c.raises(None, lambda: c.call(f, project_pref="p", snapshot_parent_dir="out", ic=H.mk_ic(c), T=Fr(1, 2), integrator=bad, **BASE), "runner-rejects", f"integrator {bad!r}", key="runner-rejects")
        unchanged(c, it, before, "rejected run", "no-effects")


PER = ("periodic", "periodic")


def cases(tier):
    out = []

    def add(name, fn, **kw):
        out.append((name, fn, kw))

    for how in ("euler", "ssprk2", "ssprk3", "rk4", "run"):
        add(f"history {how}", history, how=how, path="out/run")
    for path in ("/abs/deep/er/run", "run", "./out/run/", "out/x/../run"):
        add(f"history euler into {path}", history, how="euler", path=path)
    add("history limited", history, how="euler", path="out/run", p=1, lim=True)
    add("history run p=1", history, how="run", path="out/run", p=1)
    for a, b in (("out/run", "out/run/"), ("out/run", "/cwd/out/run"), ("/cwd/out/run", "./out/run"), ("out/run/", "out/./run")):
        add(f"aliases {a} {b}", aliases, path=a, other=b)
    for how in ("euler", "run"):
        for ow in (False, True):
            add(f"empty directory {how} overwrite={ow}", foreign, how=how, overwrite=ow, seed={"/cwd/out/run/": None, "/cwd/out/run": None})
            add(f"foreign files {how} overwrite={ow}", foreign, how=how, overwrite=ow, seed={"/cwd/out/run/mine.txt": [("text", "mine")], "/cwd/out/run/sub/a.txt": [("text", "a")]})
        add(f"appearing {how}", appearing, how=how)
    add("direct write", direct_write)
    add("no saving T", no_saving, how="euler", kw=dict(T=Fr(1, 2)))
    add("no saving overwrite", no_saving, how="euler", kw=dict(T=Fr(1, 2), overwrite=True))
    add("no saving n", no_saving, how="euler", kw=dict(n=2))
    add("no saving log_every_step", no_saving, how="run", kw=dict(T=Fr(1, 2), log_every_step=True))
    add("continued", continued)
    lim = dict(H.LIM, SED=False)
    inf = Fr(10 ** 9)
    configs = {
        "default": {}, "variable dt": dict(fixed_dt=None), "progress bar": dict(progress_bar=True), "centres": dict(snapshots_as_fv_averages=False), "helper": dict(helper=True),
        "passives": dict(passives=("dye", "s2")), "limited": lim, "limited no limiter": dict(lim, slope_limiter=None), "limited moncen local": dict(lim, slope_limiter="moncen", NAD_mode="local"),
        "limited absolute": dict(lim, NAD_range="absolute"), "convex": dict(lim, convex=True), "NAD_vars": dict(lim, NAD_vars=["rho", "P"]), "PAD": dict(lim, PAD={"rho": (0, 1), "P": (0, 2)}),
        "no PAD": dict(lim, PAD={}), "force": dict(lim, force_trouble=True), "floors": dict(density_floor=Fr(1, 10), pressure_floor=Fr(1, 10)), "conservative": dict(conservative_ic=True),
        "conservative fv": dict(conservative_ic=True, fv_ic=True), "llf": dict(riemann_solver="llf"), "hllc": dict(riemann_solver="hllc"), "upwind": dict(riemann_solver="advection_upwind"), "domain": dict(x=[0, 2], y=(0, 3)),
    }
    for k, v in configs.items():
        add(f"saveable {k}", saveable, opts=v)
    for t in (PER, ("free", "free"), ("reflective", "outflow"), ("ic", "ic"), ("ic", "free")):
        add(f"saveable bc {t}", saveable, bc=dict(x=t))
    add("saveable dirichlet functions", saveable, bc=dict(x=("dirichlet", "dirichlet"), x_value="fn"))
    add("saveable special", saveable, bc=dict(x=("special-case-double-mach-reflection-x=0", "free")) if False else dict(x=("free", "free"), y=("free", "free")), dims="xy", p=0)
    add("saveable xyz", saveable, dims="xyz", p=0)
    add("saveable log_every_step", saveable, drive=dict(log_every_step=True))
    add("saveable downbeats", saveable, drive=dict(downbeats=[Fr(1, 8), Fr(3, 8)]))
    add("saveable inexact", saveable, drive=dict(exact=False, T=Fr(3, 8)))
    for how in ("ssprk2", "ssprk3", "rk4", "run"):
        add(f"saveable {how}", saveable, how=how, p=0)
    add("saveable without git", saveable, git="error")
    add("saveable cupy", saveable, cupy=True)
    add("saveable cupy limited variable dt", saveable, cupy=True, opts=dict(lim, fixed_dt=None))
    add("runner directory names", wrapper_names)
    for i in (-1, 1, 2, 3, 4):
        add(f"runner history integrator={i}", wrapper_history, integrator=i)
    add("runner rejects", wrapper_rejects)
    return out
