"""Check driver: runs the cases of one property, collects obligations, writes evidence.

A *case* is one abstract interpretation of (part of) the package under one configuration; an
*obligation* is one equation / ordering / effect fact that the property demands of the value
graph that interpretation computed.  An obligation that fails is a violation and names the
construct (file, line, function) whose value is wrong.
"""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import aff
from . import arrays as A
from . import interp as I
from . import nodes as N
from .aff import Undecidable, sym
from .arrays import PyErr, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AX = "xyz"


class Stop(Exception):
    """abandon the case (its violations so far stand)"""


class Garbage(Exception):
    """an observable value is made from memory that was never written"""

    def __init__(self, msg, site=None):
        super().__init__(msg)
        self.site = site


class Expected(Exception):
    pass


def site_str(s):
    if not s:
        return "?"
    if isinstance(s, (tuple, list)):
        f, line, fn = (list(s) + [None, None, None])[:3]
        f = str(f)
        for pre in (I.REPO + "/", "/repo/"):
            if f.startswith(pre):
                f = f[len(pre):]
        return f"{f}:{line} in {fn}"
    return str(s)


class Case:
    """context handed to a case function"""

    def __init__(self, prop, name, tier):
        self.prop, self.name, self.tier = prop, name, tier
        self.obl = 0
        self.viol = []
        self.und = []
        self.rules = {}
        self.samples = []
        self.interps = []
        self.it = None
        self.tol = 0  # lanes whose independently drawn comparison outcomes may be contradictory
        self.soft = 0  # equalities that failed on at most tol lanes: to be confirmed over a consistent ordered model

    # ---- interpretation ------------------------------------------------------
    def interp(self, cupy=False, gpu=False):
        if gpu:
            from .gpu import GpuInterp

            it = GpuInterp()
        else:
            it = I.Interp(cupy=cupy)
        self.interps.append(it)
        self.it = it
        return it

    def mod(self, name):
        if self.it is None:
            self.interp()
        return self.it.load("fvhoe." + name)

    def get(self, mod, name):
        """public name of a module; a missing one is a violation of the interface"""
        m = self.mod(mod)
        try:
            return m.ns[name]
        except KeyError:
            raise Unsupported(f"fvhoe.{mod} has no '{name}' (interface moved)")

    def call(self, f, *args, **kw):
        return self.it.call(f, list(args), kw)

    def attr(self, o, name):
        return self.it.getattr(o, name)

    def method(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), list(args), kw)

    # ---- obligations ---------------------------------------------------------
    def count(self, rule):
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1

    def ok(self, cond, rule, msg="", site=None, key=None):
        self.count(rule)
        if not cond:
            self.fail(rule, msg, site, key)
        elif len(self.samples) < 2:
            self.samples.append(f"{rule}: {msg}"[:300])
        return bool(cond)

    def fail(self, rule, msg, site=None, key=None):
        self.viol.append(
            dict(
                case=self.name,
                rule=rule,
                message=str(msg)[:1200],
                site=site_str(site) if not isinstance(site, str) else site,
                key=key or f"{rule}",
            )
        )
        if len(self.viol) >= 8:
            raise Stop()

    def same(self, a, b, rule, msg="", key=None, site=None):
        """a (computed by the analysed code) equals b (required)"""
        self.count(rule)
        a0 = a
        a = A.to_node(a)
        b = A.to_node(b)
        if a is b:
            if len(self.samples) < 2:
                self.samples.append(f"{rule}: {msg} == {N.pretty(b, 2)}"[:300])
            return True
        u = has_undef(a)
        extra = f"; reads uninitialised {u}" if u else ""
        lanes = int((a.fp != b.fp).sum())
        if lanes <= self.tol:
            self.soft += 1
            return True
        self.fail(
            rule,
            f"{msg}: computed {N.pretty(a, 3)[:400]}, required {N.pretty(b, 3)[:400]} (differ on {lanes}/{N.L} lanes){extra}",
            site or a.site,
            key,
        )
        return False

    def raises(self, kinds, thunk, rule, msg, key=None):
        """the analysed program must raise one of kinds"""
        self.count(rule)
        try:
            v = thunk()
        except PyErr as e:
            if kinds is None or e.kind in kinds:
                return True
            self.fail(rule, f"{msg}: raises {e.kind}: {e.msg} instead of {kinds}", e.site, key)
            return False
        self.fail(rule, f"{msg}: accepted without an error", None, key)
        return False

    def guard(self, thunk, rule, msg, key=None):
        """run a thunk; an exception of the analysed program is a violation"""
        self.count(rule)
        try:
            return thunk()
        except PyErr as e:
            self.fail(rule, f"{msg}: raises {e.kind}: {e.msg}", e.site, key or rule)
            raise Stop()


def has_undef(n):
    for x in N.find_ops(n, lambda y: y.op == "undef"):
        return str(x.args[0])[:80]
    return None


# ---------------------------------------------------------------- common abstract inputs
EXTENT = {}  # extents of the case at hand, where they are particular numbers


def extent(d):
    return EXTENT.get(d) or sym("n" + d)


def sizes(dims):
    return tuple(extent(d) if d in dims else 1 for d in AX)


def gidx(dims):
    return tuple((EXTENT[d] // 2 if d in EXTENT else sym("i" + d)) if d in dims else 0 for d in AX)


def concrete(c, fn, n, **kw):
    """the case on a grid of the given extents instead of an arbitrarily large one"""
    EXTENT.update(n)
    try:
        return fn(c, **kw)
    finally:
        EXTENT.clear()


def cells(dims, k=2, generic=True, edges=True, corners=True):
    """generic cell, and cells near the boundary along each axis"""
    out = []
    g = gidx(dims)
    if generic:
        out.append(g)
    if edges:
        for a, d in enumerate(AX):
            if d not in dims:
                continue
            n = extent(d)
            for e in list(range(k)) + [n - 1 - j for j in range(k)]:
                c = list(g)
                c[a] = e
                out.append(tuple(c))
        if corners and len(dims) > 1:
            for pick in range(2 ** len(dims)):
                c = list(g)
                for b, d in enumerate(dims):
                    a = AX.index(d)
                    c[a] = 0 if (pick >> b) & 1 else extent(d) - 1
                out.append(tuple(c))
    if EXTENT:
        n = sizes(dims)
        out = [q for q in dict.fromkeys(out) if all(not isinstance(m, int) or not isinstance(x, int) or 0 <= x < m for x, m in zip(q, n))]
    return out


def uleaf(name="u"):
    """conserved-state leaves; density positive"""

    def f(idx):
        v = idx[0]
        return N.leaf((name,) + tuple(idx), 1 if v == 0 else None)

    return f


def state(dims, nvars=5, name="u", fn=None):
    return A.from_fn((nvars,) + sizes(dims), fn or uleaf(name), "f", label=name)


def scalar_state(fn, shape):
    return A.from_fn(shape, fn, "f")


def mk_ic(c, fn=None, nvars=5, name="ic", **_):
    """an InitialCondition object whose core function yields opaque leaves ic[v](x,y,z)"""
    it = c.it
    base = c.get("initial_conditions", "InitialCondition")

    def build(it_=None):
        pass

    def icfun(x, y, z):
        def el(idx):
            v = idx[0]
            xyz = [q.elem(tuple(idx[1:])) if isinstance(q, A.Arr) else A.to_node(q) for q in (x, y, z)]
            if fn is not None:
                return fn(v, *xyz)
            return N.uf((name, v), *xyz, pos=1 if v in (0, 4) else None)

        return A.from_fn((5,) + tuple(x.shape), el, "f")

    cls = I.AClass("CheckIC", [base], {"base_ic": I.StaticM(I.Native("base_ic", lambda *a, **k: I.Native("ic", icfun)))}, base.mod)
    return it.instantiate(cls, [], {})


def passive_ic(name):
    def f(x, y, z):
        def el(idx):
            return N.uf(("pic", name), *[q.elem(tuple(idx)) for q in (x, y, z)])

        return A.from_fn(tuple(x.shape), el, "f")

    return I.Native("pic_" + name, f)


def solver(c, dims="x", p=1, bc=None, ic="default", passives=(), fixed=True, lengths=None, **kw):
    """abstractly construct an EulerSolver on an arbitrarily large grid"""
    if c.it is None:
        c.interp()
    E = c.get("solver", "EulerSolver")
    args = {}
    ps = p if isinstance(p, dict) else {d: p for d in dims}
    for d in dims:
        args["n" + d] = extent(d)
        args["p" + d] = ps[d]
    if fixed:
        args["fixed_dt"] = N.leaf("dt", 1)
    args["progress_bar"] = False
    if bc is not None:
        args["bc"] = bc
    if passives:
        args["w0_passives"] = {q: passive_ic(q) for q in passives}
    if ic == "leaf":
        args["w0"] = mk_ic(c)
    elif ic != "default":
        args["w0"] = ic
    args.update(kw)
    return c.it.call(E, [], args)


def rhs(c, s, u, t=None):
    return c.method(s, "f", N.leaf("t") if t is None else t, u)


def assume_any(it, value):
    """decide undecided "does any cell ..." branches: value True / False"""

    def oracle(n):
        v = _any_sense(n)
        if v is None:
            return None
        return value if v else not value

    it.oracle = oracle


def _any_sense(n):
    """True: n is (a disjunction of) any-reductions; False: a negated one; None: neither"""
    if n.op == "red" and n.args[0][0] in ("any", "max", "sum"):
        return True
    if n.op == "red" and n.args[0][0] == "all":
        return True
    if n.op == "cmp":
        r = _any_sense(n.args[1])
        if r is not None:
            return r
    if n.op in ("or", "and", "max"):
        rs = [_any_sense(x) for x in n.args if isinstance(x, N.Node)]
        if rs and all(r is True for r in rs):
            return True
    if n.op == "sub" and n.args[0].const == 1:
        r = _any_sense(n.args[1])
        return None if r is None else not r
    if n.op == "truthy" or n.op == "ne":
        rs = [_any_sense(x) for x in n.args if isinstance(x, N.Node) and x.const is None]
        return rs[0] if rs else None
    return None


def reachable_arrays(root, depth=6):
    """every array held (transitively) by an abstract object"""
    out, seen = [], set()

    def go(v, d):
        if d < 0 or id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, A.Arr):
            out.append(v)
        elif isinstance(v, I.AObj):
            for x in list(v.attrs.values()):
                go(x, d - 1)
        elif isinstance(v, dict):
            for x in list(v.values()):
                go(x, d - 1)
        elif isinstance(v, (list, tuple, set)):
            for x in list(v):
                go(x, d - 1)

    go(root, depth)
    return out


LIM = dict(a_posteriori_slope_limiting=True)

# ---------------------------------------------------------------- running
def _run_case(arg):
    prop, name, fn, kw, tier, limit = arg
    t0 = time.time()
    c = Case(prop, name, tier)
    N.reset()
    A._affnode.clear()
    A.red_log.clear()

    def on_alarm(*_):
        raise TimeoutError()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        fn(c, **kw)
    except Stop as e:
        if not c.viol:
            c.und.append(dict(case=name, why=f"stopped: {e}", site=site_str(N.cur_site[0]), tb=traceback.format_exc()[-1500:]))
    except Garbage as e:
        c.obl += 1
        c.viol.append(dict(case=name, rule="initialised", message=str(e), site=site_str(e.site), key="reads uninitialised"))
    except PyErr as e:
        c.obl += 1
        c.viol.append(
            dict(case=name, rule="runs", message=f"the analysed code raises {e.kind}: {e.msg}", site=site_str(e.site), key=f"raises {e.kind}")
        )
    except (Unsupported, Undecidable, I.Split) as e:
        c.und.append(dict(case=name, why=f"{type(e).__name__}: {e}", site=site_str(N.cur_site[0]), tb=traceback.format_exc()[-1500:]))
    except TimeoutError:
        c.und.append(dict(case=name, why=f"analysis budget of {limit} s used up", site=site_str(N.cur_site[0]), tb=""))
    except RecursionError:
        c.und.append(dict(case=name, why="recursion limit", site=site_str(N.cur_site[0]), tb=""))
    except Exception as e:  # analyser bug: no answer for this case
        c.und.append(dict(case=name, why=f"analyser error {type(e).__name__}: {e}", site=site_str(N.cur_site[0]), tb=traceback.format_exc()[-3000:]))
    finally:
        signal.alarm(0)
    fns = set()
    stmts = calls = joins = 0
    dropped = []
    for it in c.interps:
        fns |= {f"{m}.{q}" if not isinstance(m, tuple) else str(m) for m, q in fn_names(it)}
        stmts += len(it.stmts)
        calls += it.calls
        joins += it.joins
    return dict(
        name=name,
        obl=c.obl,
        viol=c.viol,
        und=c.und,
        rules=c.rules,
        samples=c.samples,
        functions=sorted(fns),
        stmts=stmts,
        calls=calls,
        joins=joins,
        nodes=N._count,
        wall=round(time.time() - t0, 2),
    )


def fn_names(it):
    for f in it.functions_entered:
        if isinstance(f, tuple) and len(f) >= 2:
            yield str(f[0]), str(f[1])
        else:
            yield "", str(f)


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def run(prop, title, cases, tier, technique, explanation, assumptions, jobs=None, limit=None):
    t0 = time.time()
    limit = limit or (500 if tier == "quick" else 3000)
    jobs = jobs or min(8, os.cpu_count() or 1)
    work = [(prop, n, f, kw, tier, limit) for n, f, kw in cases]
    names = [w[1] for w in work]
    work.sort(key=lambda w: -len(w[3].get("dims", "")) if isinstance(w[3].get("dims", ""), str) else 0)
    assert len(set(names)) == len(names), "duplicate case names"
    res = []
    if os.environ.get("FVSA_SERIAL") or len(work) == 1:
        for w in work:
            res.append(_run_case(w))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(jobs, len(work)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_run_case, work, chunksize=1):
                res.append(r)
    res.sort(key=lambda r: names.index(r["name"]))
    viol = [v for r in res for v in r["viol"]]
    und = [u for r in res for u in r["und"]]
    kn = [k for k in known() if k["property"] == prop]
    real, kf = [], {}
    for v in viol:
        hit = next((k for k in kn if k["key"] == v["key"] and (k.get("case") in (None, v["case"]))), None)
        if hit:
            kf.setdefault(hit["text"], 0)
            kf[hit["text"]] += 1
        else:
            real.append(v)
    obl = sum(r["obl"] for r in res)
    rules = {}
    for r in res:
        for k, n in r["rules"].items():
            rules[k] = rules.get(k, 0) + n
    fns = sorted({f for r in res for f in r["functions"]})
    evid = os.environ.get("FVSA_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evid, "replay"), exist_ok=True)
    ev = dict(
        property=prop,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="other",
        coverage=dict(
            explanation=explanation,
            technique=technique,
            obligations=obl,
            discharged=obl - len(viol),
            rules=rules,
            cases=[dict(name=r["name"], obligations=r["obl"], violations=len(r["viol"]), undecided=len(r["und"]), wall_s=r["wall"], value_graph_nodes=r["nodes"]) for r in res],
            functions_analysed=fns,
            functions_analysed_count=len(fns),
            statements_interpreted=sum(r["stmts"] for r in res),
            call_sites_resolved=sum(r["calls"] for r in res),
            control_flow_joins=sum(r["joins"] for r in res),
            undecided=[dict(case=u["case"], why=u["why"], site=u["site"]) for u in und],
            samples=[s for r in res for s in r["samples"]][:12],
            known_findings=sorted(kf),
        ),
        assumptions=assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(real),
    )
    with open(os.path.join(evid, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {title}: {len(res)} cases, {obl} obligations, {len(fns)} functions, {ev['wall_s']} s")
    for t in sorted(kf):
        print(f"KNOWN-FINDING: property={prop} {t}")
    for u in und:
        print(f"UNDECIDED property={prop} case={u['case']}: {u['why']} at {u['site']}")
        if os.environ.get("FVSA_DEBUG") and u is und[0]:
            print(u["tb"])
    if real:
        rp = os.path.join(evid, "replay", f"{prop}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=prop, violations=real, replay=f"python3-vt /verif/check.py {prop} --case '{real[0]['case']}'"), f, indent=1)
        for v in real[:12]:
            print(f"  [{v['case']}] rule {v['rule']}: {v['message']}  <{v['site']}>  key={v['key']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    decided = sum(1 for r in res if r["obl"] and not r["und"])
    if und and not decided:
        print(f"no case of {prop} could be decided")
        return 2
    return 0
