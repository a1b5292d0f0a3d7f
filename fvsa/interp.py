"""Abstract interpreter for the Python subset used by FVHOE.

Interprets the syntax trees of /repo (never imports or runs them) over the abstract domains in
aff/nodes/arrays.  Branches whose condition is not decided by the abstract state are *joined*:
both sides are interpreted from the same state and the two resulting states are merged with
gated values (gated SSA).  No path enumeration and no solver, unless a check installs a branch
oracle (trace partitioning, used for the time loop).
"""
import ast
import builtins as _bi
import os
import sys
from fractions import Fraction

from . import arrays as A
from . import nodes as N
from .aff import Aff, Undecidable, as_int
from .arrays import Arr, PyErr, Unsupported

sys.setrecursionlimit(200000)
MISSING = object()
REPO = os.environ.get("FVSA_REPO", "/repo")


# --------------------------------------------------------------------- values
class Opaque:
    """value of an external library about which nothing is known"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class Native:
    """modelled library callable"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<native {self.name}>"


class TypeModel(Native):
    """modelled library type (usable in isinstance)"""

    def __init__(self, name, pred, fn=None):
        super().__init__(name, fn or (lambda *a, **k: Opaque(name)))
        self.pred = pred


class Module:
    def __init__(self, name, ns=None, opaque=False):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.opaque = opaque

    def __repr__(self):
        return f"<module {self.name}>"


class AFunc:
    def __init__(self, node, env, name, qual, mod, defaults, kwdefaults, cls=None):
        self.node = node
        self.env = env
        self.name = name
        self.qual = qual
        self.mod = mod
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.attrs = {}
        self.cache = None
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.scope = None
        self.is_gen = None

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return f"<bound {self.fn}>"


class AClass:
    def __init__(self, name, bases, ns, mod):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.mod = mod
        self.fields = None  # dataclass fields
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        seqs = [list(b.mro) for b in self.bases if isinstance(b, AClass)]
        seqs = [s for s in seqs if s]
        seqs.append([b for b in self.bases if isinstance(b, AClass)])
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            out.append(h)
            for s in seqs:
                if s[0] is h:
                    s.pop(0)
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return MISSING, None

    def host_base(self):
        for c in self.mro:
            for b in c.bases:
                if isinstance(b, type):
                    return b
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class AObj:
    _n = 0

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        AObj._n += 1
        self.uid = AObj._n

    def __repr__(self):
        return f"<{self.cls.name} object>"


class Property:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Gen:
    """materialised iterator"""

    def __init__(self, items):
        self.items = list(items)
        self.i = 0

    def __iter__(self):
        while self.i < len(self.items):
            self.i += 1
            yield self.items[self.i - 1]


class Phi:
    """unmergeable gated value"""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"<phi {self.a!r}|{self.b!r}>"


# --------------------------------------------------------------------- control flow
class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Split(Exception):
    """an undecided condition that cannot be joined locally"""

    def __init__(self, cond):
        self.cond = cond
        self.site = N.cur_site[0]


class Event:
    __slots__ = ("kind", "data", "site", "gates", "stack")

    def __init__(self, kind, data, site, gates, stack):
        self.kind, self.data, self.site, self.gates, self.stack = kind, data, site, gates, stack

    def __repr__(self):
        return f"{self.kind}{self.data}@{self.site}"


class Scope:
    def __init__(self, vars_, parent, glob, globals_decl=(), nonlocals=(), locals_=None):
        self.vars = vars_
        self.parent = parent
        self.glob = glob
        self.gdecl = globals_decl
        self.nonlocals = nonlocals
        self.locals = locals_


def assigned_names(body):
    names, glob, nonl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            for d in n.args.defaults:
                self.visit(d)

        def comp(self, n):
            # only walrus targets leak; the first iterable is evaluated outside
            for g in n.generators:
                self.visit(g.iter)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_ExceptHandler(self, n):
            if n.name:
                names.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                names.add(a.asname or a.name)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            nonl.update(n.names)

        def visit_MatchAs(self, n):
            if n.name:
                names.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                names.add(n.name)

        def visit_Delete(self, n):
            for t in n.targets:
                tgt(t)

    v = V()
    for s in body:
        v.visit(s)
    return names - glob - nonl, glob, nonl


def has_yield(fn):
    for n in ast.walk(ast.Module(body=fn.body, type_ignores=[]) if isinstance(fn.body, list) else fn.body):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class Interp:
    def __init__(self, repo=REPO, package="fvhoe", cupy=False):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.trees = {}
        self.events = []
        self.gates = []
        self.assume = {}
        self.oracle = None
        self.fp = None
        self.journal = None
        self.yield_cb = None
        self.stack = []
        self.cupy = cupy
        self.functions_entered = set()
        self.stmts = set()
        self.calls = 0
        self.joins = 0
        self.stubs = {}  # qualname -> host fn(interp, args, kwargs)
        self.call_hooks = []
        self.dropped = []  # raises dropped at joins
        self.fs = {}
        self.vfs = None
        self.fresh_n = 0
        from . import lib

        self.lib = lib.Lib(self)
        A.HOOKS.on_write = self._on_buf_write

    # ------------------------------------------------------------ utilities
    def event(self, kind, *data):
        e = Event(kind, data, N.cur_site[0], tuple(self.gates), tuple(f for f in self.stack))
        self.events.append(e)
        return e

    def fresh(self, name, pos=None):
        self.fresh_n += 1
        return N.leaf((name, self.fresh_n), pos=pos)

    def _on_buf_write(self, buf):
        if self.journal is not None:
            self.journal.append(("b", buf, None, buf.writes))

    def setkey(self, d, k, v):
        if self.journal is not None:
            self.journal.append(("d", d, k, d.get(k, MISSING)))
        d[k] = v

    def delkey(self, d, k):
        if self.journal is not None:
            self.journal.append(("d", d, k, d.get(k, MISSING)))
        del d[k]

    def touch(self, c):
        """journal a list/set before mutation"""
        if self.journal is not None:
            if isinstance(c, list):
                self.journal.append(("l", c, None, list(c)))
            elif isinstance(c, set):
                self.journal.append(("s", c, None, set(c)))
            elif isinstance(c, dict):
                self.journal.append(("D", c, None, dict(c)))

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find(name)
        if path is None:
            raise PyErr("ModuleNotFoundError", f"No module named '{name}'")
        src = open(path).read()
        tree = ast.parse(src, path)
        rel = os.path.relpath(path, self.repo)
        m = Module(name)
        m.file = rel
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        self.modules[name] = m
        self.trees[name] = tree
        if "." in name:
            par, _, ch = name.rpartition(".")
            pm = self.load(par)
            pm.ns[ch] = m
        sc = Scope(m.ns, None, m.ns)
        self.stack.append((rel, "<module>"))
        old = N.cur_site[0]
        try:
            self.exec_block(tree.body, sc, m)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            self.stack.pop()
            N.cur_site[0] = old
        return m

    def find(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def import_module(self, name):
        top = name.split(".")[0]
        if top == self.package:
            return self.load(name)
        return self.lib.module(name)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """decide a condition or raise Split"""
        if isinstance(v, N.Node):
            n = N.truthy(v)
            if n.const is not None:
                return n.const != 0
            if n.id in self.assume:
                return self.assume[n.id]
            m = N.lnot(n)
            if m.id in self.assume:
                return not self.assume[m.id]
            if n.op == "and":
                a, b = n.args
                for x in (a, b):
                    if self.assume.get(x.id) is False:
                        return False
            if n.op == "or":
                for x in n.args:
                    if self.assume.get(x.id) is True:
                        return True
            if self.oracle is not None:
                r = self.oracle(n)
                if r is not None:
                    return r
            raise Split(n)
        if isinstance(v, Arr):
            if all(s == 1 for s in v.shape):
                return self.truth(v.elem((0,) * v.ndim))
            raise PyErr("ValueError", "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, Opaque):
            return self.truth(N.truthy(N.leaf(("opaque-truth", v.name))))
        if isinstance(v, Phi):
            raise Split(v.cond)
        if isinstance(v, AObj):
            f, _ = v.cls.lookup("__bool__")
            if f is not MISSING:
                return self.truth(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not MISSING:
                return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (AFunc, AClass, Native, Module, Bound)):
            return True
        return bool(v)

    # ------------------------------------------------------------ state merge
    def run_branch(self, thunk, gate):
        """run thunk with journaling; returns (outcome, touched final values) and undoes effects"""
        outer = self.journal
        self.journal = []
        self.gates.append(gate)
        sub_assume = self.assume
        self.assume = dict(sub_assume)
        self.assume[gate[0].id] = gate[1]
        out = None
        try:
            try:
                v = thunk()
                out = ("normal", v)
            except Return as r:
                out = ("return", r.v)
            except Break:
                out = ("break", None)
            except Continue:
                out = ("continue", None)
            except PyErr as e:
                out = ("raise", e)
        except BaseException:
            # undo everything before propagating (Split, Unsupported)
            j = self.journal
            self.journal = outer
            self.undo(j)
            raise
        finally:
            self.gates.pop()
            self.assume = sub_assume
            if self.journal is not outer:
                j = self.journal
                self.journal = outer
        final = self.capture(j)
        self.undo(j)
        return out, final

    @staticmethod
    def capture(j):
        final = {}
        for kind, c, k, old in j:
            if kind == "d":
                final[("d", id(c), k)] = (c, c.get(k, MISSING))
            elif kind == "b":
                final[("b", id(c))] = (c, c.writes)
            elif kind == "l":
                final[("l", id(c))] = (c, list(c))
            elif kind == "s":
                final[("s", id(c))] = (c, set(c))
            elif kind == "D":
                final[("D", id(c))] = (c, dict(c))
        return final

    @staticmethod
    def undo(j):
        for kind, c, k, old in reversed(j):
            if kind == "d":
                if old is MISSING:
                    c.pop(k, None)
                else:
                    c[k] = old
            elif kind == "b":
                c.writes = old
            elif kind == "l":
                c[:] = old
            elif kind == "s":
                c.clear()
                c.update(old)
            elif kind == "D":
                c.clear()
                c.update(old)

    def apply_final(self, final):
        for key, (c, v) in final.items():
            if key[0] == "d":
                if v is MISSING:
                    if key[2] in c:
                        self.delkey(c, key[2])
                else:
                    self.setkey(c, key[2], v)
            elif key[0] == "b":
                self._on_buf_write(c)
                c.writes = v
            elif key[0] == "l":
                self.touch(c)
                c[:] = v
            elif key[0] in "sD":
                self.touch(c)
                c.clear()
                c.update(v)

    def merge_final(self, cond, fa, fb):
        self.joins += 1
        for key in list(dict.fromkeys(list(fa) + list(fb))):
            c = (fa.get(key) or fb.get(key))[0]
            kind = key[0]
            if kind == "d":
                cur = c.get(key[2], MISSING)
                va = fa[key][1] if key in fa else cur
                vb = fb[key][1] if key in fb else cur
                v = self.merge(cond, va, vb)
                if v is MISSING:
                    if key[2] in c:
                        self.delkey(c, key[2])
                else:
                    self.setkey(c, key[2], v)
            elif kind == "b":
                cur = c.writes
                wa = fa[key][1] if key in fa else cur
                wb = fb[key][1] if key in fb else cur
                if wa is wb:
                    continue
                self._on_buf_write(c)
                va, vb = len(wa), len(wb)

                def src(idx, c=c, wa=wa, wb=wb, va=va, vb=vb, cond=cond):
                    return N.where(cond, A._read(wa, c.fn, c, idx, va), A._read(wb, c.fn, c, idx, vb))

                c.writes = cur + [A.Write(None, src, None, full=True)]
            elif kind == "l":
                cur = list(c)
                va = fa[key][1] if key in fa else cur
                vb = fb[key][1] if key in fb else cur
                if len(va) == len(vb):
                    self.touch(c)
                    c[:] = [self.merge(cond, x, y) for x, y in zip(va, vb)]
                else:
                    raise Split(cond)
            else:
                va = fa[key][1] if key in fa else None
                vb = fb[key][1] if key in fb else None
                raise Split(cond)

    def merge(self, cond, a, b):
        if a is b:
            return a
        if A.is_num(a) and A.is_num(b):
            if isinstance(a, (bool,)) != isinstance(b, bool) or type(a) is not type(b) or a != b:
                return A.simplify_scalar(N.where(cond, A.to_node(a), A.to_node(b)))
            return a
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.ndim == b.ndim and all(A.dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
                return A.elementwise(lambda x, y: N.where(cond, x, y), a, b)
            return Phi(cond, a, b)
        if isinstance(a, Arr) and A.is_num(b) or isinstance(b, Arr) and A.is_num(a):
            return Phi(cond, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(cond, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge(cond, x, y) for x, y in zip(a, b)]
        if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
            return {k: self.merge(cond, a[k], b[k]) for k in a}
        try:
            if type(a) is type(b) and a == b:
                return a
        except Exception:
            pass
        if isinstance(a, AObj) and isinstance(b, AObj) and a.cls is b.cls and a.attrs.keys() == b.attrs.keys():
            o = AObj(a.cls)
            for k in a.attrs:
                o.attrs[k] = self.merge(cond, a.attrs[k], b.attrs[k])
            return o
        return Phi(cond, a, b)

    def join(self, cond, ta, tb):
        """interpret both alternatives from the current state and merge.  returns value of the
        thunks merged; re-raises control flow if both agree"""
        cond = N.truthy(cond)
        oa, fa = self.run_branch(ta, (cond, True))
        ob, fb = self.run_branch(tb, (cond, False))
        if oa[0] == "raise" and ob[0] == "raise":
            self.apply_final(fa)
            raise oa[1]
        if oa[0] == "raise" or ob[0] == "raise":
            bad, good, f, pol = (oa, ob, fb, True) if oa[0] == "raise" else (ob, oa, fa, False)
            self.dropped.append((cond, pol, bad[1], N.cur_site[0]))
            self.event("may-raise", bad[1].kind, bad[1].msg)
            self.assume[cond.id] = not pol
            self.apply_final(f)
            return self.resume(good)
        if oa[0] == ob[0] == "normal":
            self.merge_final(cond, fa, fb)
            return self.merge(cond, oa[1], ob[1])
        if oa[0] == ob[0] == "return":
            self.merge_final(cond, fa, fb)
            raise Return(self.merge(cond, oa[1], ob[1]))
        if oa[0] == ob[0]:
            self.merge_final(cond, fa, fb)
            return self.resume(oa)
        raise Split(cond)

    def resume(self, out):
        if out[0] == "normal":
            return out[1]
        if out[0] == "return":
            raise Return(out[1])
        if out[0] == "break":
            raise Break()
        if out[0] == "continue":
            raise Continue()

    # ------------------------------------------------------------ names
    def lookup(self, name, sc):
        s = sc
        while s is not None:
            if s.locals is not None and name in s.locals and name not in s.vars and s is sc:
                raise PyErr("UnboundLocalError", f"cannot access local variable '{name}' where it is not associated with a value")
            if name in s.vars and name not in s.gdecl:
                return s.vars[name]
            s = s.parent
        if name in sc.glob:
            return sc.glob[name]
        b = self.lib.builtins.get(name, MISSING)
        if b is not MISSING:
            return b
        raise PyErr("NameError", f"name '{name}' is not defined")

    def store(self, name, v, sc):
        if name in sc.gdecl:
            self.setkey(sc.glob, name, v)
            return
        if name in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if name in s.vars:
                    self.setkey(s.vars, name, v)
                    return
                s = s.parent
        self.setkey(sc.vars, name, v)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, sc, mod):
        for st in body:
            self.exec(st, sc, mod)

    def site(self, node, mod):
        N.cur_site[0] = (mod.file, node.lineno, self.stack[-1][1] if self.stack else "")

    def exec(self, st, sc, mod):
        self.site(st, mod)
        self.stmts.add((mod.file, st.lineno))
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} at {mod.file}:{st.lineno}")
        return m(st, sc, mod)

    def x_Expr(self, st, sc, mod):
        self.eval(st.value, sc, mod)

    def x_Pass(self, st, sc, mod):
        pass

    def x_Assign(self, st, sc, mod):
        v = self.eval(st.value, sc, mod)
        self.site(st, mod)
        for t in st.targets:
            self.assign(t, v, sc, mod)

    def x_AnnAssign(self, st, sc, mod):
        if isinstance(st.target, ast.Name) and sc.vars.get("__annotations_order__") is not None:
            sc.vars["__annotations_order__"].append(st.target.id)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, sc, mod), sc, mod)

    def x_AugAssign(self, st, sc, mod):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, sc)
            v = self.eval(st.value, sc, mod)
            self.site(st, mod)
            r = self.inplace(op, cur, v)
            self.store(t.id, r, sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc, mod)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, sc, mod)
            r = self.inplace(op, cur, v)
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc, mod)
            k = self.eval_key(t.slice, sc, mod)
            cur = self.getitem(o, k)
            v = self.eval(st.value, sc, mod)
            self.site(st, mod)
            r = self.inplace(op, cur, v)
            self.setitem(o, k, r)
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            rs = r.shape if isinstance(r, Arr) else ()
            if len(rs) != cur.ndim or not all(A.dim_eq(x, y) for x, y in zip(rs, cur.shape)):
                raise PyErr("ValueError", f"non-broadcastable output operand with shape {cur.shape} doesn't match the broadcast shape {rs}")
            if cur.dtype in "ib" and r.dtype in "fs":
                raise PyErr("UFuncTypeError", "Cannot cast ufunc output from float64 to integer/bool with casting rule 'same_kind'")
            cur.setitem(Ellipsis, r)
            return cur
        if isinstance(cur, list) and op == "Add":
            self.touch(cur)
            cur.extend(self.iterate(v))
            return cur
        if isinstance(cur, set) and op == "BitOr":
            self.touch(cur)
            cur |= set(self.iterate(v))
            return cur
        if isinstance(cur, dict) and op == "BitOr":
            self.touch(cur)
            cur.update(v)
            return cur
        return self.binop(op, cur, v)

    def x_Delete(self, st, sc, mod):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.delkey(sc.vars, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc, mod)
                k = self.eval_key(t.slice, sc, mod)
                if isinstance(o, dict):
                    if k not in o:
                        raise PyErr("KeyError", repr(k))
                    self.delkey(o, k)
                elif isinstance(o, list):
                    self.touch(o)
                    del o[k]
                else:
                    raise Unsupported("del subscript")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, sc, mod)
                if isinstance(o, AObj):
                    if t.attr not in o.attrs:
                        raise PyErr("AttributeError", t.attr)
                    self.delkey(o.attrs, t.attr)
                else:
                    raise Unsupported("del attribute")

    def x_Return(self, st, sc, mod):
        raise Return(self.eval(st.value, sc, mod) if st.value is not None else None)

    def x_Break(self, st, sc, mod):
        raise Break()

    def x_Continue(self, st, sc, mod):
        raise Continue()

    def x_If(self, st, sc, mod):
        c = self.eval(st.test, sc, mod)
        self.site(st, mod)
        try:
            t = self.truth(c)
        except Split as s:
            self.join(
                s.cond,
                lambda: self.exec_block(st.body if self.same(c, s.cond) else [st], sc, mod),
                lambda: self.exec_block(st.orelse if self.same(c, s.cond) else [st], sc, mod),
            )
            return
        self.exec_block(st.body if t else st.orelse, sc, mod)

    def same(self, c, cond):
        return isinstance(c, N.Node) and N.truthy(c) is cond

    def x_While(self, st, sc, mod):
        n = 0
        while True:
            self.site(st, mod)
            c = self.eval(st.test, sc, mod)
            if not self.truth(c):
                self.exec_block(st.orelse, sc, mod)
                return
            n += 1
            if n > 200:
                raise Unsupported(f"unbounded loop at {mod.file}:{st.lineno}")
            try:
                self.exec_block(st.body, sc, mod)
            except Break:
                return
            except Continue:
                continue

    def x_For(self, st, sc, mod):
        it = self.eval(st.iter, sc, mod)
        self.site(st, mod)
        for v in self.iterate(it):
            self.assign(st.target, v, sc, mod)
            try:
                self.exec_block(st.body, sc, mod)
            except Break:
                return
            except Continue:
                continue
        self.exec_block(st.orelse, sc, mod)

    def x_With(self, st, sc, mod):
        self.with_items(st.items, st, sc, mod)

    def with_items(self, items, st, sc, mod):
        if not items:
            self.exec_block(st.body, sc, mod)
            return
        i, rest = items[0], items[1:]
        m = self.eval(i.context_expr, sc, mod)
        if hasattr(m, "gen_fn"):
            # the rest of the statement runs at the yield of the generator
            left, entered = [], []

            def at_yield(v):
                if entered:
                    raise PyErr("RuntimeError", "generator didn't stop")
                entered.append(1)
                if i.optional_vars:
                    self.assign(i.optional_vars, v, sc, mod)
                try:
                    self.with_items(rest, st, sc, mod)
                except (Return, Break, Continue) as e:
                    left.append(e)

            self.yield_cb = at_yield
            try:
                self.call(m.gen_fn, list(m.args), dict(m.kwargs))
            finally:
                self.yield_cb = None
            if not entered:
                raise PyErr("RuntimeError", "generator didn't yield")
            if left:
                raise left[0]
            return
        v = self.enter(m)
        if i.optional_vars:
            self.assign(i.optional_vars, v, sc, mod)
        try:
            self.with_items(rest, st, sc, mod)
        except PyErr as e:
            if not self.exit(m, e):
                raise
        except (Return, Break, Continue):
            self.exit(m, None)
            raise
        else:
            self.exit(m, None)

    def enter(self, m):
        if isinstance(m, AObj):
            f, _ = m.cls.lookup("__enter__")
            if f is MISSING:
                raise PyErr("AttributeError", "__enter__")
            return self.call(Bound(f, m), [], {})
        if hasattr(m, "model_enter"):
            return m.model_enter(self)
        return m

    def exit(self, m, e):
        if isinstance(m, AObj):
            f, _ = m.cls.lookup("__exit__")
            return self.truth(self.call(Bound(f, m), [None, None, None] if e is None else [Opaque("exc"), Opaque("exc"), Opaque("tb")], {}) or False)
        if hasattr(m, "model_exit"):
            return m.model_exit(self, e)
        return False

    def x_Raise(self, st, sc, mod):
        if st.exc is None:
            cur = getattr(self, "handling", None)
            if cur:
                raise cur[-1]
            raise PyErr("RuntimeError", "No active exception to reraise")
        v = self.eval(st.exc, sc, mod)
        self.site(st, mod)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyErr(v.__name__, "")
        if isinstance(v, ExcVal):
            raise PyErr(v.kind, v.msg, obj=v)
        if isinstance(v, AClass):
            v = self.call(v, [], {})
        if isinstance(v, AObj):
            raise PyErr(v.cls.name, "", obj=v)
        raise Unsupported(f"raise {v!r}")

    def x_Try(self, st, sc, mod):
        try:
            try:
                self.exec_block(st.body, sc, mod)
            except PyErr as e:
                for h in st.handlers:
                    if self.exc_match(h, e, sc, mod):
                        if h.name:
                            self.store(h.name, e.obj or ExcVal(e.kind, e.msg), sc)
                        self.handling = getattr(self, "handling", []) + [e]
                        try:
                            self.exec_block(h.body, sc, mod)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, sc, mod)
        except (PyErr, Return, Break, Continue):
            self.exec_block(st.finalbody, sc, mod)
            raise
        else:
            self.exec_block(st.finalbody, sc, mod)

    def exc_match(self, h, e, sc, mod):
        if h.type is None:
            return True
        t = self.eval(h.type, sc, mod)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, type):
                k = getattr(_bi, e.kind, None)
                if isinstance(k, type) and issubclass(k, x):
                    return True
                if k is None and x in (Exception, BaseException):
                    return True
                if e.kind in ("AxisError",) and x in (ValueError, IndexError):
                    return True
                if e.kind == "UFuncTypeError" and x is TypeError:
                    return True
            elif isinstance(x, AClass) and isinstance(e.obj, AObj) and x in e.obj.cls.mro:
                return True
            elif isinstance(x, Opaque):
                if e.kind == x.name.rsplit(".", 1)[-1]:
                    return True
        return False

    def x_Assert(self, st, sc, mod):
        c = self.eval(st.test, sc, mod)
        try:
            if not self.truth(c):
                raise PyErr("AssertionError", "")
        except Split as s:
            self.event("may-raise", "AssertionError", "")
            if self.same(c, s.cond):
                self.assume[s.cond.id] = True

    def x_Global(self, st, sc, mod):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, st, sc, mod):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, sc)
            else:
                top = a.name.split(".")[0]
                self.store(top, self.import_module(top), sc)

    def x_ImportFrom(self, st, sc, mod):
        name = st.module or ""
        if st.level:
            base = mod.name.split(".")
            base = base[: len(base) - st.level + (1 if mod.file.endswith("__init__.py") else 0)]
            name = ".".join(base + ([name] if name else []))
        m = self.import_module(name)
        for a in st.names:
            if a.name == "*":
                for k, v in list(m.ns.items()):
                    if not k.startswith("_"):
                        self.store(k, v, sc)
                continue
            try:
                v = self.getattr(m, a.name)
            except PyErr as e:
                if name.split(".")[0] == self.package and self.find(name + "." + a.name):
                    v = self.load(name + "." + a.name)
                else:
                    raise PyErr("ImportError", f"cannot import name '{a.name}' from '{name}'")
            self.store(a.asname or a.name, v, sc)

    def mkfunc(self, node, sc, mod, name, qual, cls=None):
        defaults = [self.eval(d, sc, mod) for d in node.args.defaults]
        kwd = [self.eval(d, sc, mod) if d is not None else MISSING for d in node.args.kw_defaults]
        f = AFunc(node, sc, name, qual, mod, defaults, kwd, cls)
        return f

    def x_FunctionDef(self, st, sc, mod):
        qual = st.name
        if self.stack and self.stack[-1][1] != "<module>":
            qual = self.stack[-1][1] + "." + st.name
        f = self.mkfunc(st, sc, mod, st.name, qual)
        v = f
        for d in reversed(st.decorator_list):
            dec = self.eval(d, sc, mod)
            v = self.call(dec, [v], {})
        self.store(st.name, v, sc)

    def x_ClassDef(self, st, sc, mod):
        bases = [self.eval(b, sc, mod) for b in st.bases]
        ns = {"__annotations_order__": []}
        csc = Scope(ns, sc if sc.parent is not None or sc.vars is not sc.glob else None, sc.glob)
        csc.is_class = True
        self.stack.append((mod.file, st.name))
        try:
            self.exec_block(st.body, csc, mod)
        finally:
            self.stack.pop()
        bases2 = []
        for b in bases:
            if isinstance(b, (AClass, type)):
                bases2.append(b)
            elif isinstance(b, Opaque) and b.name.rsplit(".", 1)[-1] == "NamedTuple":
                ann = list(dict.fromkeys(ns.pop("__annotations_order__")))
                if any(isinstance(v, (AFunc, Property, StaticM, ClassM)) for v in ns.values()):
                    raise Unsupported("methods of a NamedTuple")
                self.store(st.name, self.lib.named_tuple(st.name, ann, {k: ns[k] for k in ann if k in ns}), sc)
                return
        c = AClass(st.name, bases2, ns, mod)
        ann = ns.pop("__annotations_order__")
        c.ann = list(dict.fromkeys(ann))
        kinds = [b.name.rsplit(".", 1)[-1] for b in bases if isinstance(b, Opaque) and b.name.startswith("enum.")]
        if kinds:
            c.members = {}
            for k, v in list(ns.items()):
                if k.startswith("__") or isinstance(v, (AFunc, Property, StaticM, ClassM, Native)):
                    continue
                if isinstance(v, Opaque) and v.name.startswith("enum.auto"):
                    v = len(c.members) + 1
                if kinds[0] == "Enum":
                    o = AObj(c)
                    o.attrs.update(value=v, name=k)
                    v = o
                ns[k] = c.members[k] = v
        for v in list(ns.values()):
            set_cls(v, c)
        v = c
        for d in reversed(st.decorator_list):
            dec = self.eval(d, sc, mod)
            v = self.call(dec, [v], {})
        self.store(st.name, v, sc)

    def x_Match(self, st, sc, mod):
        v = self.eval(st.subject, sc, mod)
        for c in st.cases:
            self.site(c.pattern, mod)
            r = self.match(c.pattern, v, sc, mod)
            if isinstance(r, N.Node):
                r = self.truth(r)
            if r:
                if c.guard is not None and not self.truth(self.eval(c.guard, sc, mod)):
                    continue
                self.exec_block(c.body, sc, mod)
                return

    def match(self, p, v, sc, mod):
        if isinstance(p, ast.MatchValue):
            w = self.eval(p.value, sc, mod)
            r = self.compare("Eq", v, w)
            return self.truth(r)
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, sc, mod) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, sc, mod):
                return False
            if p.name:
                self.store(p.name, v, sc)
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, list)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(q, x, sc, mod) for q, x in zip(p.patterns, v))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(v) < len(p.patterns) - 1:
                return False
            if not all(self.match(q, x, sc, mod) for q, x in zip(p.patterns[:i], v)):
                return False
            if after and not all(self.match(q, x, sc, mod) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:])):
                return False
            if p.patterns[i].name:
                self.store(p.patterns[i].name, list(v[i: len(v) - after]), sc)
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, sc, mod)
            if not self.lib.isinstance_(v, cls):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(cls, (type, TypeModel, Native)):
                    return self.match(p.patterns[0], v, sc, mod)
                raise Unsupported("class pattern")
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match(q, self.getattr(v, k), sc, mod):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            for k, q in zip(p.keys, p.patterns):
                kk = self.eval(k, sc, mod)
                if kk not in v or not self.match(q, v[kk], sc, mod):
                    return False
            return True
        raise Unsupported("match pattern")

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, sc, mod):
        if isinstance(t, ast.Name):
            self.store(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opaque) and getattr(v, "iterable", None) is None and not any(isinstance(e, ast.Starred) for e in t.elts):
                items = [Opaque(f"{v.name}[{i}]") for i in range(len(t.elts))]  # external library value of that arity
            else:
                items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise PyErr("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], items):
                    self.assign(e, x, sc, mod)
                self.assign(t.elts[i].value, items[i: len(items) - after], sc, mod)
                if after:
                    for e, x in zip(t.elts[i + 1:], items[-after:]):
                        self.assign(e, x, sc, mod)
                return
            if len(items) != len(t.elts):
                raise PyErr("ValueError", f"wrong number of values to unpack (expected {len(t.elts)}, got {len(items)})")
            for e, x in zip(t.elts, items):
                self.assign(e, x, sc, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc, mod)
            k = self.eval_key(t.slice, sc, mod)
            self.setitem(o, k, v)
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, AObj):
            f, _ = o.cls.lookup("__setattr__")
            if f is not MISSING:
                return self.call(Bound(f, o), [name, v], {})
            p, _ = o.cls.lookup(name)
            if isinstance(p, Property):
                if p.fset is None:
                    raise PyErr("AttributeError", f"property '{name}' has no setter")
                return self.call(p.fset, [o, v], {})
            self.setkey(o.attrs, name, v)
            self.event("setattr", o, name, v)
        elif isinstance(o, AClass):
            self.setkey(o.ns, name, v)
        elif isinstance(o, Module):
            self.setkey(o.ns, name, v)
        elif isinstance(o, AFunc):
            self.setkey(o.attrs, name, v)
        elif isinstance(o, Opaque):
            self.event("extset", o.name, name, v)
        elif isinstance(o, Arr) and name == "shape":
            raise Unsupported("shape assignment")
        elif isinstance(o, (A.Selection, Phi)):
            raise Unsupported("setattr")
        elif hasattr(o, "model_setattr"):
            o.model_setattr(self, name, v)
        else:
            raise PyErr("AttributeError", f"'{tname(o)}' object has no attribute '{name}'")

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            o.setitem(self.arrkey(k), self.arrval(v))
        elif isinstance(o, dict):
            self.check_frozen(o)
            self.setkey(o, self.hashable(k), v)
        elif isinstance(o, list):
            self.check_frozen(o)
            self.touch(o)
            if not isinstance(k, slice):
                k = as_int(k)
                if not -len(o) <= k < len(o):
                    raise PyErr("IndexError", "list assignment index out of range")
                o[k] = v
            else:
                o[hostslice(k)] = list(self.iterate(v))
        elif isinstance(o, AObj):
            f, _ = o.cls.lookup("__setitem__")
            if f is MISSING:
                raise PyErr("TypeError", "object does not support item assignment")
            self.call(Bound(f, o), [k, v], {})
        elif isinstance(o, Opaque):
            self.event("extsetitem", o.name)
        elif isinstance(o, (tuple, str)):
            raise PyErr("TypeError", f"'{tname(o)}' object does not support item assignment")
        elif isinstance(o, A.Selection):
            raise Unsupported("write to a masked copy")
        else:
            raise Unsupported(f"setitem on {type(o).__name__}")

    frozen_ids = {}

    def check_frozen(self, o):
        if id(o) in self.frozen_ids:
            A.frozen_writes.append((self.frozen_ids[id(o)][0], N.cur_site[0], None))

    def arrval(self, v):
        if isinstance(v, (AObj, dict, str, Opaque)) or v is None:
            if isinstance(v, Opaque):
                return N.leaf(("opaque", v.name))
            raise PyErr("TypeError", f"float() argument must be a number, not '{tname(v)}'")
        if isinstance(v, Gen):
            v = list(v)
        return v

    def arrkey(self, k):
        if isinstance(k, tuple):
            return tuple(self.arrkey1(x) for x in k)
        return self.arrkey1(k)

    def arrkey1(self, k):
        if isinstance(k, Arr):
            if k.ndim == 0:
                return A.simplify_scalar(k.elem(()))
            return k
        if isinstance(k, (list, range)):
            return A.from_list(list(k)) if len(k) else A.from_list([], "i")
        if isinstance(k, tuple):
            return A.from_list(list(k))
        if isinstance(k, bool):
            raise Unsupported("boolean scalar index")
        return k

    # ------------------------------------------------------------ expressions
    def eval(self, e, sc, mod):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {mod.file}:{getattr(e, 'lineno', '?')}")
        return m(e, sc, mod)

    def e_Constant(self, e, sc, mod):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float("inf") else N.inf(1 if v > 0 else -1)
        if isinstance(v, complex):
            raise Unsupported("complex literal")
        return v

    def e_Name(self, e, sc, mod):
        return self.lookup(e.id, sc)

    def e_Tuple(self, e, sc, mod):
        return tuple(self.items(e.elts, sc, mod))

    def e_List(self, e, sc, mod):
        return list(self.items(e.elts, sc, mod))

    def e_Set(self, e, sc, mod):
        return set(self.hashable(x) for x in self.items(e.elts, sc, mod))

    def items(self, elts, sc, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, sc, mod)))
            else:
                out.append(self.eval(x, sc, mod))
        return out

    def e_Dict(self, e, sc, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                w = self.eval(v, sc, mod)
                if not isinstance(w, dict):
                    raise PyErr("TypeError", "argument after ** must be a mapping")
                d.update(w)
            else:
                kk = self.hashable(self.eval(k, sc, mod))
                d[kk] = self.eval(v, sc, mod)
        return d

    def hashable(self, k):
        if isinstance(k, (list, dict, set)):
            raise PyErr("TypeError", f"unhashable type: '{tname(k)}'")
        if isinstance(k, Arr):
            if k.ndim == 0:
                return self.hashable(A.simplify_scalar(k.elem(())))
            raise PyErr("TypeError", "unhashable type: 'numpy.ndarray'")
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        return k

    def e_JoinedStr(self, e, sc, mod):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                out += self.e_FormattedValue(v, sc, mod)
        return out

    def e_FormattedValue(self, v, sc, mod):
        x = self.eval(v.value, sc, mod)
        spec = self.e_JoinedStr(v.format_spec, sc, mod) if v.format_spec is not None else ""
        if v.conversion == 114:
            return self.lib.to_repr(x)
        return self.lib.fmt(x, spec)

    def e_UnaryOp(self, e, sc, mod):
        v = self.eval(e.operand, sc, mod)
        op = type(e.op).__name__
        return self.unary(op, v)

    def unary(self, op, v):
        if op == "Not":
            if isinstance(v, N.Node):
                n = N.truthy(v)
                return A.simplify_bool(N.lnot(n))
            try:
                return not self.truth(v)
            except Split as s:
                if isinstance(v, (Opaque,)):
                    return N.lnot(s.cond)
                raise
        if isinstance(v, AObj):
            f, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if f is not MISSING:
                return self.call(Bound(f, v), [], {})
        if op == "USub":
            if isinstance(v, (Arr, N.Node, A.Selection)):
                return A.elementwise(N.neg, v)
            if isinstance(v, (int, Fraction, Aff)):
                return -v
            if isinstance(v, Opaque):
                return Opaque(f"-{v.name}")
            raise PyErr("TypeError", f"bad operand type for unary -: '{tname(v)}'")
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, (Arr, N.Node)):
                if isinstance(v, Arr) and v.dtype != "b":
                    raise PyErr("TypeError", "ufunc 'invert' not supported for the input types") if v.dtype in "fs" else Unsupported("integer invert")
                return A.elementwise(N.lnot, v, dtype="b")
            if isinstance(v, bool):
                return ~v
            if isinstance(v, int):
                return ~v
        raise Unsupported(f"unary {op} on {tname(v)}")

    def e_BinOp(self, e, sc, mod):
        a = self.eval(e.left, sc, mod)
        b = self.eval(e.right, sc, mod)
        N.cur_site[0] = (mod.file, e.lineno, self.stack[-1][1] if self.stack else "")
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(op, a, b)

    def e_BoolOp(self, e, sc, mod):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i], sc, mod)
            if i == len(e.values) - 1:
                return v
            try:
                t = self.truth(v)
            except Split as s:
                # both sides boolean nodes -> logical connective (join evaluates the rest under the gate)
                if isinstance(v, N.Node) or isinstance(v, Opaque):
                    vb = s.cond
                    if isand:
                        r = self.join(vb, lambda: self.boolish(go(i + 1)), lambda: False)
                    else:
                        r = self.join(vb, lambda: True, lambda: self.boolish(go(i + 1)))
                    return r
                raise
            if isand:
                return go(i + 1) if t else v
            return v if t else go(i + 1)

        return go(0)

    def boolish(self, v):
        if isinstance(v, (bool, N.Node)):
            return v
        if isinstance(v, Opaque):
            return N.truthy(N.leaf(("opaque-truth", v.name)))
        return self.truth(v)

    def e_Compare(self, e, sc, mod):
        left = self.eval(e.left, sc, mod)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, sc, mod)
            N.cur_site[0] = (mod.file, e.lineno, self.stack[-1][1] if self.stack else "")
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                if isinstance(res, bool):
                    res = c if res else False
                elif isinstance(c, bool):
                    res = res if c else False
                elif isinstance(res, N.Node) and isinstance(c, N.Node):
                    res = N.land(res, c)
                else:
                    res = c if self.truth(res) else res
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        return self.lib.compare(op, a, b)

    def e_IfExp(self, e, sc, mod):
        c = self.eval(e.test, sc, mod)
        try:
            t = self.truth(c)
        except Split as s:
            if self.same(c, s.cond) or isinstance(c, Opaque):
                return self.join(s.cond, lambda: self.eval(e.body, sc, mod), lambda: self.eval(e.orelse, sc, mod))
            raise
        return self.eval(e.body if t else e.orelse, sc, mod)

    def e_NamedExpr(self, e, sc, mod):
        v = self.eval(e.value, sc, mod)
        self.assign(e.target, v, sc, mod)
        return v

    def e_Lambda(self, e, sc, mod):
        q = (self.stack[-1][1] if self.stack else "") + ".<lambda>"
        return self.mkfunc(e, sc, mod, "<lambda>", q)

    def e_Attribute(self, e, sc, mod):
        o = self.eval(e.value, sc, mod)
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, sc, mod):
        o = self.eval(e.value, sc, mod)
        k = self.eval_key(e.slice, sc, mod)
        N.cur_site[0] = (mod.file, e.lineno, self.stack[-1][1] if self.stack else "")
        return self.getitem(o, k)

    def eval_key(self, s, sc, mod):
        return self.eval(s, sc, mod)

    def e_Slice(self, e, sc, mod):
        f = lambda x: None if x is None else self.eval(x, sc, mod)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, sc, mod):
        raise Unsupported("starred expression")

    def getitem(self, o, k):
        if isinstance(o, Arr):
            if isinstance(k, str):
                raise PyErr("IndexError", "only integers, slices (`:`), ... are valid indices")
            return o.getitem(self.arrkey(k))
        if isinstance(o, dict):
            kk = self.hashable(k)
            if isinstance(k, N.Node) and k.const is None and k not in o and N.isbool(k) and True in o and False in o:
                return self.merge(k, o[True], o[False])
            if kk not in o:
                fac = getattr(o, "factory", None)
                if fac is not None:
                    self.setkey(o, kk, self.call(fac, [], {}))
                    return o[kk]
                if isinstance(kk, N.Node) and kk.const is None:
                    t = self.truth(kk) if N.isbool(kk) else None
                    if t is not None and t in o:
                        return o[t]
                raise PyErr("KeyError", repr(kk))
            return o[kk]
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                return o[hostslice(k)]
            i = as_int(k)
            if i is None and isinstance(k, N.Node) and k.const is not None:
                i = as_int(k.const)
            if isinstance(k, Arr) and k.ndim == 0:
                i = as_int(A.simplify_scalar(k.elem(())))
            if i is None:
                if isinstance(k, N.Node) and N.isbool(k) and len(o) == 2:
                    return self.merge(k, o[1], o[0])
                if isinstance(k, (N.Node, Aff)):
                    raise Unsupported(f"symbolic index {k} into sequence")
                raise PyErr("TypeError", f"{tname(o)} indices must be integers or slices, not {tname(k)}")
            if isinstance(i, Aff):
                raise Unsupported("affine index into sequence")
            if not -len(o) <= i < len(o):
                raise PyErr("IndexError", f"{tname(o)} index out of range")
            return o[i]
        if isinstance(o, AObj):
            f, _ = o.cls.lookup("__getitem__")
            if f is not MISSING:
                return self.call(Bound(f, o), [k], {})
            raise PyErr("TypeError", f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, (Opaque, Native, AClass, type)):
            if getattr(o, "members", None) and isinstance(k, str):
                if k not in o.members:
                    raise PyErr("KeyError", k)
                return o.members[k]
            if not isinstance(o, Opaque):
                return o
            plain = isinstance(k, (int, str)) or isinstance(k, tuple) and all(isinstance(q, int) for q in k)
            return Opaque(f"{o.name}[{k if plain else ''}]")
        if isinstance(o, N.Node):
            if k is Ellipsis or k == ():
                return o
            if k is None or (isinstance(k, tuple) and None in k):
                return A.from_fn((1,) * (1 if k is None else sum(1 for x in k if x is None)), lambda idx: o)
            raise PyErr("IndexError", "invalid index to scalar variable.")
        if isinstance(o, (int, Fraction, Aff)):
            if k is None:
                n = A.to_node(o)
                return A.from_fn((1,), lambda idx: n)
            raise PyErr("TypeError", f"'{tname(o)}' object is not subscriptable")
        if o is None:
            raise PyErr("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(o, Phi):
            return self.merge(o.cond, self.getitem(o.a, k), self.getitem(o.b, k))
        if hasattr(o, "model_getitem"):
            return o.model_getitem(self, k)
        raise Unsupported(f"subscript of {type(o).__name__}")

    # comprehensions
    def comp(self, gens, sc, mod, emit):
        csc = Scope({}, sc, sc.glob)
        if getattr(sc, "is_class", False):
            csc = Scope({}, sc, sc.glob)

        def go(i):
            if i == len(gens):
                emit(csc)
                return
            g = gens[i]
            for v in self.iterate(self.eval(g.iter, csc if i else sc, mod)):
                self.assign(g.target, v, csc, mod)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.eval(c, csc, mod)):
                        ok = False
                        break
                if ok:
                    go(i + 1)

        go(0)

    def e_ListComp(self, e, sc, mod):
        out = []
        self.comp(e.generators, sc, mod, lambda s: out.append(self.eval(e.elt, s, mod)))
        return out

    def e_SetComp(self, e, sc, mod):
        return set(self.hashable(x) for x in self.e_ListComp(e, sc, mod))

    def e_GeneratorExp(self, e, sc, mod):
        return Gen(self.e_ListComp(e, sc, mod))

    def e_DictComp(self, e, sc, mod):
        out = {}

        def emit(s):
            k = self.hashable(self.eval(e.key, s, mod))
            out[k] = self.eval(e.value, s, mod)

        self.comp(e.generators, sc, mod, emit)
        return out

    def e_Yield(self, e, sc, mod):
        v = self.eval(e.value, sc, mod) if e.value is not None else None
        s = sc
        while s is not None and not hasattr(s, "yields"):
            s = s.parent
        if s.yield_cb is not None:
            s.yield_cb(v)
            return None
        self.touch(s.yields)
        s.yields.append(v)
        return None

    def e_YieldFrom(self, e, sc, mod):
        for v in self.iterate(self.eval(e.value, sc, mod)):
            s = sc
            while s is not None and not hasattr(s, "yields"):
                s = s.parent
            s.yields.append(v)
        return None

    # ------------------------------------------------------------ calls
    def e_Call(self, e, sc, mod):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = sc
            while s is not None and getattr(s, "fn", None) is None:
                s = s.parent
            while s is not None and s.fn.cls is None:
                s = s.parent
                while s is not None and getattr(s, "fn", None) is None:
                    s = s.parent
            if s is None:
                raise PyErr("RuntimeError", "super(): no arguments")
            return SuperProxy(s.fn.cls, s.vars[s.fn.params[0]])
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            if e.func.id == "globals":
                return sc.glob
            return dict(sc.vars)
        f = self.eval(e.func, sc, mod)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, sc, mod)))
            else:
                args.append(self.eval(a, sc, mod))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, sc, mod)
                if not isinstance(d, dict):
                    raise PyErr("TypeError", "argument after ** must be a mapping")
                for kk, vv in d.items():
                    if kk in kwargs:
                        raise PyErr("TypeError", f"got multiple values for keyword argument '{kk}'")
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, sc, mod)
        site = (mod.file, e.lineno, self.stack[-1][1] if self.stack else "")
        N.cur_site[0] = site
        self.calls += 1
        r = self.call(f, args, kwargs)
        N.cur_site[0] = site
        return r

    def call(self, f, args, kwargs):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, AFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, LruCached):
            return f.call(self, args, kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kw)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw)
        if isinstance(f, Native):
            try:
                return f.fn(*args, **kwargs)
            except TypeError as e:
                if "argument" in str(e) and ("positional" in str(e) or "keyword" in str(e) or "missing" in str(e)):
                    tb = e.__traceback__
                    if tb.tb_next is None:
                        raise Unsupported(f"call of {f.name}: {e}")
                raise
        if isinstance(f, AClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Opaque):
            self.event("extcall", f.name, tuple(args), dict(kwargs))
            if self.vfs is not None and f.name.rsplit(".", 1)[-1] in ("savefig", "imsave") and (args or "fname" in kwargs):
                self.vfs.put(args[0] if args else kwargs["fname"], ("figure", None))
            return Opaque(f"{f.name}()")
        if isinstance(f, AObj):
            m, _ = f.cls.lookup("__call__")
            if m is MISSING:
                raise PyErr("TypeError", f"'{f.cls.name}' object is not callable")
            return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, type):
            return self.lib.construct(f, args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, Phi):
            return self.join(f.cond, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        raise PyErr("TypeError", f"'{tname(f)}' object is not callable")

    def bind(self, f, args, kwargs):
        vars_ = {}
        nm = f.name
        params = f.params
        if len(args) > len(params) and f.vararg is None:
            raise PyErr("TypeError", f"{f.qual}() takes {len(params)} positional arguments but {len(args)} were given")
        for p, v in zip(params, args):
            vars_[p] = v
        if f.vararg is not None:
            vars_[f.vararg] = tuple(args[len(params):])
        extra = {}
        npos = len(f.node.args.posonlyargs)
        for k, v in kwargs.items():
            if k in params[npos:] or k in f.kwonly:
                if k in vars_:
                    raise PyErr("TypeError", f"{f.qual}() got multiple values for argument '{k}'")
                vars_[k] = v
            elif f.kwarg is not None:
                extra[k] = v
            else:
                raise PyErr("TypeError", f"{f.qual}() got an unexpected keyword argument '{k}'")
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in vars_:
                j = i - (len(params) - nd)
                if j >= 0:
                    vars_[p] = f.defaults[j]
                else:
                    raise PyErr("TypeError", f"{f.qual}() missing required argument: '{p}'")
        for p, d in zip(f.kwonly, f.kwdefaults):
            if p not in vars_:
                if d is MISSING:
                    raise PyErr("TypeError", f"{f.qual}() missing required keyword-only argument: '{p}'")
                vars_[p] = d
        if f.kwarg is not None:
            vars_[f.kwarg] = extra
        return vars_

    def call_func(self, f, args, kwargs):
        key = (f.mod.name, f.qual)
        stub = self.stubs.get(key)
        if stub is not None:
            vars_ = self.bind(f, args, kwargs)
            return stub(self, vars_, f)
        for h in self.call_hooks:
            h(self, f, args, kwargs)
        if len(self.stack) > 120:
            raise PyErr("RecursionError", "maximum recursion depth exceeded")
        vars0 = self.bind(f, args, kwargs)
        self.functions_entered.add((f.mod.file, f.qual))
        try:
            return self._invoke(f, dict(vars0))
        except Split as s:
            if self.journal is None or True:
                return self._split_call(f, vars0, s.cond, 0)

    def _split_call(self, f, vars0, cond, depth):
        if depth > 12:
            raise Unsupported(f"too many undecided conditions in {f.qual}")

        def go(pol):
            def t():
                try:
                    return self._invoke(f, dict(vars0))
                except Split as s:
                    if s.cond.id in self.assume:
                        raise Unsupported(f"undecidable condition in {f.qual}: {s.cond}")
                    return self._split_call(f, vars0, s.cond, depth + 1)

            return t

        return self.join(cond, go(True), go(False))

    def _invoke(self, f, vars_):
        node = f.node
        if f.scope is None:
            if isinstance(node, ast.Lambda):
                f.scope = (set(), set(), set())
                f.is_gen = False
            else:
                f.scope = assigned_names(node.body)
                f.is_gen = has_yield_shallow(node)
        loc, gl, nl = f.scope
        par = f.env
        while par is not None and getattr(par, "is_class", False):
            par = par.parent
        if par is not None and par.vars is par.glob and par.parent is None:
            par = None
        sc = Scope(vars_, par, f.env.glob, gl, nl, loc)
        sc.fn = f
        self.stack.append((f.mod.file, f.qual))
        old = N.cur_site[0]
        # undo-log so that an escaping Split leaves no half-executed effects
        outer = self.journal
        self.journal = []
        nev = len(self.events)
        olda = self.assume
        self.assume = dict(olda)
        ok = False
        try:
            if isinstance(node, ast.Lambda):
                r = self.eval(node.body, sc, f.mod)
            else:
                if f.is_gen:
                    sc.yields = []
                    sc.yield_cb, self.yield_cb = self.yield_cb, None
                try:
                    self.exec_block(node.body, sc, f.mod)
                    r = None
                except Return as e:
                    r = e.v
                if f.is_gen:
                    r = Gen(sc.yields)
            ok = True
            return r
        except PyErr:
            ok = True
            raise
        finally:
            j = self.journal
            self.journal = outer
            if not ok:
                self.undo(j)
                del self.events[nev:]
            elif outer is not None:
                outer.extend(j)
            new = self.assume
            self.assume = olda
            if ok:
                # facts established by dropping raising alternatives persist
                for k, v in new.items():
                    self.assume.setdefault(k, v)
            self.stack.pop()
            N.cur_site[0] = old

    def instantiate(self, cls, args, kwargs):
        if getattr(cls, "members", None) and len(args) == 1:
            for m in cls.members.values():
                if m is args[0] or (m.attrs["value"] if isinstance(m, AObj) else m) == args[0]:
                    return m
            raise PyErr("ValueError", f"{args[0]!r} is not a valid {cls.name}")
        hb = cls.host_base()
        if hb is not None and issubclass(hb, BaseException):
            o = AObj(cls)
            o.attrs["args"] = tuple(args)
            init, _ = cls.lookup("__init__")
            if init is not MISSING:
                self.call(init, [o] + list(args), kwargs)
            return o
        abstract = self.abstract_methods(cls)
        if abstract:
            raise PyErr("TypeError", f"Can't instantiate abstract class {cls.name} without an implementation for abstract methods {sorted(abstract)}")
        o = AObj(cls)
        new, _ = cls.lookup("__new__")
        if new is not MISSING:
            raise Unsupported("__new__")
        init, _ = cls.lookup("__init__")
        if init is not MISSING:
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise PyErr("TypeError", f"{cls.name}() takes no arguments")
        return o

    def abstract_methods(self, cls):
        out = set()
        seen = set()
        for c in cls.mro:
            for k, v in c.ns.items():
                if k in seen:
                    continue
                seen.add(k)
                if getattr(v, "attrs", None) and v.attrs.get("__isabstractmethod__"):
                    out.add(k)
        return out

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, AObj):
            if name in o.attrs:
                v, c = o.cls.lookup(name)
                if not isinstance(v, Property):
                    return o.attrs[name]
            v, c = o.cls.lookup(name)
            if v is not MISSING:
                return self.bindattr(v, o, c)
            if name == "__dict__":
                return o.attrs
            if name == "__class__":
                return o.cls
            g, _ = o.cls.lookup("__getattr__")
            if g is not MISSING:
                return self.call(Bound(g, o), [name], {})
            if name in ("__init__", "__setattr__"):
                return Native(name, lambda *a, **k: None)
            raise PyErr("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, SuperProxy):
            mro = o.obj.cls.mro if isinstance(o.obj, AObj) else o.cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bindattr(c.ns[name], o.obj, c)
            if name in ("__init__", "__post_init__", "__init_subclass__"):
                return Native(f"object.{name}", lambda *a, **k: None)
            raise PyErr("AttributeError", f"'super' object has no attribute '{name}'")
        if isinstance(o, AClass):
            v, c = o.lookup(name)
            if v is not MISSING:
                if isinstance(v, StaticM):
                    return v.fn
                if isinstance(v, ClassM):
                    return Bound(v.fn, o)
                return v
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__dict__":
                return o.ns
            if name == "__module__":
                return o.mod.name
            raise PyErr("AttributeError", f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            if o.opaque:
                return Opaque(f"{o.name}.{name}")
            sub = getattr(o, "getter", None)
            if sub is not None:
                v = sub(name)
                if v is not MISSING:
                    return v
            raise PyErr("AttributeError", f"module '{o.name}' has no attribute '{name}'")
        return self.lib.getattr(o, name)

    def bindattr(self, v, o, c):
        if isinstance(v, (AFunc, LruCached)) or type(v).__name__ == "NativeMethod":
            return Bound(v, o)
        if isinstance(v, Property):
            return self.call(v.fget, [o], {})
        if isinstance(v, StaticM):
            return v.fn
        if isinstance(v, ClassM):
            return Bound(v.fn, o.cls if isinstance(o, AObj) else o)
        return v

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        if isinstance(v, (list, tuple, str, range)):
            return list(v) if isinstance(v, list) else v
        if isinstance(v, (dict, set, frozenset)):
            if isinstance(v, (set, frozenset)):
                self.event("set-iteration", len(v))
                return sorted(v, key=lambda x: (str(type(x)), str(x)))
            return list(v)
        if isinstance(v, Gen):
            return v
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyErr("TypeError", "iteration over a 0-d array")
            if not isinstance(v.shape[0], int):
                raise Unsupported("iteration over a symbolic axis")
            return [v.getitem(i) for i in range(v.shape[0])]
        if isinstance(v, AClass) and getattr(v, "members", None):
            return list(v.members.values())
        if isinstance(v, AObj):
            f, _ = v.cls.lookup("__iter__")
            if f is not MISSING:
                return self.iterate(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup("__getitem__")
            raise PyErr("TypeError", f"'{v.cls.name}' object is not iterable")
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return list(v)
        if isinstance(v, Opaque):
            if getattr(v, "iterable", None) is not None:
                return self.iterate(v.iterable)
            raise Unsupported(f"iteration over external value {v.name}")
        if isinstance(v, Phi):
            raise Split(v.cond)
        if hasattr(v, "model_iter"):
            return v.model_iter(self)
        if isinstance(v, Aff) or isinstance(v, N.Node) or isinstance(v, (int, Fraction)) or v is None:
            raise PyErr("TypeError", f"'{tname(v)}' object is not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")


def has_yield_shallow(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def hostslice(k):
    def f(x):
        if x is None:
            return None
        v = as_int(x)
        if v is None:
            if isinstance(x, N.Node) and x.const is not None:
                v = as_int(x.const)
            if v is None:
                raise PyErr("TypeError", "slice indices must be integers")
        if isinstance(v, Aff):
            raise Unsupported("affine slice of a host sequence")
        return v

    return slice(f(k.start), f(k.stop), f(k.step))


def set_cls(v, c):
    if isinstance(v, AFunc):
        if v.cls is None:
            v.cls = c
    elif isinstance(v, LruCached):
        set_cls(v.fn, c)
    elif isinstance(v, (StaticM, ClassM)):
        set_cls(v.fn, c)
    elif isinstance(v, Property):
        set_cls(v.fget, c)
        if v.fset:
            set_cls(v.fset, c)


class ExcVal:
    def __init__(self, kind, msg=""):
        self.kind = kind
        self.msg = msg

    def __repr__(self):
        return f"{self.kind}({self.msg!r})"


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class LruCached:
    """functools.lru_cache: results are shared between callers, so they are frozen"""

    def __init__(self, fn, maxsize=None):
        self.fn = fn
        self.memo = {}
        self.attrs = getattr(fn, "attrs", {})
        self.maxsize = maxsize

    def call(self, it, args, kwargs):
        def hk(v):
            if isinstance(v, AObj):
                h, _ = v.cls.lookup("__hash__")
                e, _ = v.cls.lookup("__eq__")
                if e is not MISSING and h is MISSING:
                    raise PyErr("TypeError", f"unhashable type: '{v.cls.name}'")
                return ("obj", v.uid)
            if isinstance(v, (AFunc, Bound, Native, AClass, Opaque)):
                return ("id", id(v))
            if isinstance(v, tuple):
                return tuple(hk(x) for x in v)
            return it.hashable(v)

        key = (tuple(hk(a) for a in args), tuple(sorted((k, hk(v)) for k, v in kwargs.items())))
        if key in self.memo:
            return self.memo[key]
        r = it.call(self.fn, args, kwargs)
        freeze(r, f"lru_cache of {getattr(self.fn, 'qual', self.fn)}")
        if it.journal is not None and it.gates:
            return r
        self.memo[key] = r
        return r


def freeze(v, why):
    if isinstance(v, Arr):
        v.buf.frozen = why
    elif isinstance(v, (list, dict)):
        Interp.frozen_ids[id(v)] = (why, v)
        for x in v.values() if isinstance(v, dict) else v:
            freeze(x, why)
    elif isinstance(v, tuple):
        for x in v:
            freeze(x, why)


def tname(o):
    if isinstance(o, AObj):
        return o.cls.name
    if isinstance(o, Arr):
        return "numpy.ndarray"
    if isinstance(o, (N.Node, Fraction)):
        return "float"
    if isinstance(o, Aff):
        return "int"
    if o is None:
        return "NoneType"
    if isinstance(o, (AFunc, Bound, LruCached)):
        return "function"
    if isinstance(o, Module):
        return "module"
    return type(o).__name__
