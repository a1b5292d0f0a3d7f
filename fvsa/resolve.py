"""Whole-package name, attribute, keyword and import resolution (no execution).

Every report is a construct that raises whenever it is reached: a name no scope defines, an attribute no
class of the hierarchy ever gets, a keyword or argument count no candidate definition accepts, an import of
something that does not exist, a local variable read where no assignment can have happened.  Whatever cannot
be resolved (dynamic attributes, unknown decorators or base classes, star arguments) is not judged.
"""
import ast
import builtins
import json
import os
import symtable
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__builtins__", "__class__", "__annotations__", "__debug__", "__dict__", "__module__", "__qualname__"}
OBJECT = set(dir(object)) | {"__dict__", "__module__", "__annotations__", "__name__", "__qualname__", "__weakref__", "__dataclass_fields__", "__post_init__", "__slots__", "__match_args__", "__init_subclass__"}
KNOWN_BASES = {"ABC", "object", "Generic", "Protocol"}
PASS_DECOS = {"staticmethod", "classmethod", "abstractmethod", "lru_cache", "cache", "property", "cached_property", "wraps", "override", "overload"}


def ext():
    with open(os.path.join(HERE, "extnames.json")) as f:
        return json.load(f)


class Sig:
    def __init__(self, a, drop=0):
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        self.npo = max(0, len(a.posonlyargs) - drop)
        self.pos = pos[drop:] if not (drop and a.vararg and not pos) else pos
        nd = len(a.defaults)
        req = pos[: len(pos) - nd]
        self.req = set(req[drop:])
        self.kwonly = {x.arg for x in a.kwonlyargs}
        self.req |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        self.var, self.kw = a.vararg is not None, a.kwarg is not None

    @classmethod
    def fields(cls, fs):
        s = cls.__new__(cls)
        s.npo, s.var, s.kw = 0, False, False
        s.pos = [n for n, _, ko in fs if not ko]
        s.kwonly = {n for n, _, ko in fs if ko}
        s.req = {n for n, d, _ in fs if not d}
        return s

    def accepts(self, call):
        """None, or why the call cannot bind"""
        if any(isinstance(x, ast.Starred) for x in call.args):
            npos = None
        else:
            npos = len(call.args)
        star = any(k.arg is None for k in call.keywords)
        names = [k.arg for k in call.keywords if k.arg is not None]
        if npos is not None and npos > len(self.pos) and not self.var:
            return f"{npos} positional arguments given, {len(self.pos)} accepted"
        for n in names:
            if not self.kw and n not in self.kwonly and n not in self.pos[self.npo:]:
                return f"keyword '{n}' is not accepted"
            if npos is not None and n in self.pos[:npos]:
                return f"argument '{n}' is given twice"
        if npos is not None and not star:
            given = set(self.pos[:npos]) | set(names)
            miss = sorted(self.req - given)
            if miss:
                return f"argument '{miss[0]}' is missing"
        return None


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    return d.id if isinstance(d, ast.Name) else "?"


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.attrs, self.types = {}, set(), {}
        self.subs = []
        self.dynamic = self.opaque = False
        self.decos = [deco_name(d) for d in node.decorator_list]
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods.setdefault(st.name, st)
                self.attrs.add(st.name)
        for x in ast.walk(node):
            if isinstance(x, ast.ClassDef) and x is not node:
                self.attrs.add(x.name)
        for st in ast.walk(ast.Module(body=[s for s in node.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))], type_ignores=[])):
            if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
                self.attrs.add(st.id)
        if any(m in self.methods for m in ("__getattr__", "__getattribute__", "__setattr__")):
            self.dynamic = True
        if node.keywords:
            self.dynamic = self.opaque = True
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars", "exec", "eval", "delattr"):
                if x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    self.attrs.add(x.args[1].value)
                else:
                    self.dynamic = True
            # the attribute dictionary written to
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute) and x.value.attr == "__dict__":
                self.dynamic = True
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.value.attr == "__dict__" and x.attr not in ("items", "keys", "values", "get", "copy"):
                self.dynamic = True
            if isinstance(x, (ast.Assign, ast.Return)) and isinstance(x.value, ast.Attribute) and x.value.attr == "__dict__":
                self.dynamic = True


class Package:
    def __init__(self, root, name):
        self.root, self.name = root, name
        self.mods = {}
        self.ext = ext()
        base = os.path.join(root, name)
        for d, _, fs in sorted(os.walk(base)):
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.mods[rel] = p
        self.src, self.tree, self.err = {}, {}, {}
        for m, p in self.mods.items():
            with open(p) as f:
                self.src[m] = f.read()
            try:
                self.tree[m] = ast.parse(self.src[m], p)
            except SyntaxError as e:
                self.err[m] = e
        self.top = {m: self.bindings(m) for m in self.tree}
        self.cls = {}
        self.stored = set()
        for m, t in self.tree.items():
            for x in ast.walk(t):
                if isinstance(x, ast.ClassDef):
                    self.cls.setdefault((m, x.name), Cls(m, x))
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.stored.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    self.stored.add(x.args[1].value)
        for c in self.cls.values():
            c.bases = []
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.resolve(c.mod, b)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                    r[1].subs.append(c)
                elif not (isinstance(b, ast.Name) and b.id in KNOWN_BASES or isinstance(b, ast.Attribute) and b.attr in KNOWN_BASES):
                    c.dynamic = c.opaque = True
        self.attr_types()

    # ---- tables ----------------------------------------------------------------
    def bindings(self, m):
        """name -> definition of the module scope"""
        out = {}
        t = self.tree[m]

        def put(n, d):
            out.setdefault(n, []).append(d)

        def scan(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    put(st.name, ("func", m, st))
                elif isinstance(st, ast.ClassDef):
                    put(st.name, ("classdef", m, st))
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            put(a.asname, ("module", a.name))
                        else:
                            put(a.name.split(".")[0], ("module", a.name.split(".")[0]))
                elif isinstance(st, ast.ImportFrom):
                    src = self.absolute(m, st)
                    for a in st.names:
                        if a.name == "*":
                            put("*", ("star", src))
                        else:
                            put(a.asname or a.name, ("from", src, a.name))
                else:
                    for x in ast.iter_child_nodes(st):
                        if isinstance(x, ast.expr):
                            for y in ast.walk(x):
                                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                    put(y.id, ("value", m, st))
                                elif isinstance(y, ast.NamedExpr):
                                    put(y.target.id, ("value", m, st))
                    for f in ("body", "orelse", "finalbody"):
                        scan(getattr(st, f, []) or [])
                    for h in getattr(st, "handlers", []) or []:
                        if h.name:
                            put(h.name, ("value", m, st))
                        scan(h.body)
                    for w in getattr(st, "items", []) or []:
                        if w.optional_vars is not None:
                            for y in ast.walk(w.optional_vars):
                                if isinstance(y, ast.Name):
                                    put(y.id, ("value", m, st))
                    for cs in getattr(st, "cases", []) or []:
                        for y in ast.walk(cs.pattern):
                            for q in ("name", "rest"):
                                if getattr(y, q, None):
                                    put(getattr(y, q), ("value", m, st))
                        scan(cs.body)

        scan(t.body)
        for x in ast.walk(t):
            if isinstance(x, ast.Global):
                for n in x.names:
                    put(n, ("value", m, x))
        return out

    def absolute(self, m, st):
        if not st.level:
            return st.module or ""
        parts = m.split(".")
        if not self.mods[m].endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)] if st.level > 1 else parts
        return ".".join(parts + ([st.module] if st.module else []))

    def has(self, mod, name, seen=()):
        """does module mod define name?  None: unknown"""
        if mod in self.tree:
            t = self.top[mod]
            if name in t or f"{mod}.{name}" in self.mods or name in ("__name__", "__file__", "__doc__", "__all__", "__dict__", "__path__", "__version__"):
                return True
            if "__getattr__" in t or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("globals", "exec", "setattr") for x in ast.walk(self.tree[mod])):
                return None
            for _, src in t.get("*", []):
                if src in seen:
                    continue
                r = self.has(src, name, seen + (mod,))
                if r is not False:
                    return r
            return False
        if mod in self.mods:
            return None
        if mod == self.name or mod.startswith(self.name + "."):
            return False
        e = self.ext.get(mod)
        if e is None:
            return None
        return name in e or f"{mod}.{name}" in self.ext

    def definition(self, mod, name, depth=0):
        """('func', mod, node) | ('class', Cls) | ('module', name) | None when not unique"""
        if depth > 8 or mod not in self.tree:
            return None
        ds = self.top[mod].get(name)
        if ds is None:
            if f"{mod}.{name}" in self.mods:
                return ("module", f"{mod}.{name}")
            return None
        if len(ds) != 1:
            return None
        d = ds[0]
        if d[0] == "classdef":
            c = self.cls.get((mod, name))
            return ("class", c) if c and c.node is d[2] else None
        if d[0] == "from":
            if f"{d[1]}.{d[2]}" in self.mods:
                return ("module", f"{d[1]}.{d[2]}")
            if d[1] in self.tree:
                return self.definition(d[1], d[2], depth + 1)
            return ("extern", d[1], d[2])
        if d[0] in ("func", "module"):
            return d
        return None

    def resolve(self, mod, e):
        if isinstance(e, ast.Name):
            return self.definition(mod, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve(mod, e.value)
            if r and r[0] == "module":
                if r[1] in self.tree:
                    return self.definition(r[1], e.attr) or ("unknown",)
                if f"{r[1]}.{e.attr}" in self.ext or f"{r[1]}.{e.attr}" in self.mods:
                    return ("module", f"{r[1]}.{e.attr}")
                return ("extern", r[1], e.attr)
        if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value.isidentifier():
            return self.definition(mod, e.value)
        return None

    def family(self, c):
        """base classes and subclasses, transitively (an instance seen in a method of c may be any of them)"""
        out, todo = [], [c]
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo += x.bases
        low, todo = [], [c]
        while todo:
            x = todo.pop()
            if x not in low:
                low.append(x)
                todo += x.subs
                for b in x.bases:
                    if b not in out:
                        out.append(b)
                        out += [y for y in self.lineage(b) if y not in out]
        return out + [x for x in low if x not in out]

    def lineage(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo += x.bases
        return out

    def attr_types(self):
        """self.x = Class(...) everywhere -> type of x"""
        for c in self.cls.values():
            seen = {}
            for f in c.methods.values():
                if not f.args.args:
                    continue
                me = f.args.args[0].arg
                for x in ast.walk(f):
                    if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With, ast.NamedExpr)):
                        tg = x.targets if isinstance(x, ast.Assign) else [getattr(x, "target", None)]
                        for t in tg:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                r = self.resolve(c.mod, x.value.func) if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Call) else None
                                seen.setdefault(t.attr, []).append(r[1] if r and r[0] == "class" else None)
                            elif t is not None:
                                for y in ast.walk(t):
                                    if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me and isinstance(y.ctx, ast.Store):
                                        seen.setdefault(y.attr, []).append(None)
            c.types = {k: v[0] for k, v in seen.items() if v[0] is not None and all(q is v[0] for q in v)}

    def known_attr(self, c, name):
        fam = self.family(c)
        if any(x.dynamic for x in fam):
            return True
        return name in OBJECT or name in self.stored or any(name in x.attrs for x in fam)

    def method_sigs(self, c, name):
        """candidate signatures of instance.name(...), or None when unknown"""
        out = []
        for x in self.family(c):
            if x.opaque:
                return None
            f = x.methods.get(name)
            if f is None:
                if name in x.attrs:
                    return None
                continue
            ds = [deco_name(d) for d in f.decorator_list]
            if any(d not in PASS_DECOS for d in ds) or "property" in ds or "cached_property" in ds:
                return None
            n = sum(isinstance(s, ast.FunctionDef) and s.name == name for s in x.node.body)
            if n > 1:
                return None
            out.append(Sig(f.args, 0 if "staticmethod" in ds else 1))
        if name in self.stored:
            return None
        return out or None

    def ctor(self, c):
        """signature of C(...), None when unknown"""
        line = self.lineage(c)
        if any(x.opaque for x in line):
            return None
        for x in line:
            if any(d not in ("dataclass", "total_ordering") for d in x.decos):
                return None
            if "__new__" in x.methods:
                return None
            if "__init__" in x.methods:
                f = x.methods["__init__"]
                return None if f.decorator_list else Sig(f.args, 1)
            if "dataclass" in x.decos:
                break
        else:
            return None if any(len(x.bases) > 1 for x in line) else Sig.fields([])
        fs, order = {}, []
        for x in reversed(line):
            if "dataclass" not in x.decos:
                continue
            d = next(q for q in x.node.decorator_list if deco_name(q) == "dataclass")
            kwo = False
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if k.arg == "init":
                        return None
                    if k.arg == "kw_only":
                        kwo = True
            for st in x.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    an = ast.unparse(st.annotation)
                    if "ClassVar" in an:
                        continue
                    if "KW_ONLY" in an:
                        kwo = True
                        continue
                    dflt, ko = st.value is not None, kwo
                    if isinstance(st.value, ast.Call) and deco_name(st.value) == "field":
                        ks = {k.arg: k.value for k in st.value.keywords}
                        if "init" in ks:
                            if isinstance(ks["init"], ast.Constant) and ks["init"].value is False:
                                fs.pop(st.target.id, None)
                                if st.target.id in order:
                                    order.remove(st.target.id)
                                continue
                            if not isinstance(ks["init"], ast.Constant):
                                return None
                        dflt = "default" in ks or "default_factory" in ks
                        if "kw_only" in ks:
                            ko = True
                    if st.target.id not in fs:
                        order.append(st.target.id)
                    fs[st.target.id] = (st.target.id, dflt, ko)
        return Sig.fields([fs[n] for n in order])


# ------------------------------------------------------------------ analyses
class Report:
    def __init__(self):
        self.bad, self.count = [], {}

    def see(self, rule, n=1):
        self.count[rule] = self.count.get(rule, 0) + n

    def fail(self, rule, msg, site):
        self.bad.append((rule, msg, site))


def guarded_lines(tree):
    """lines inside a try whose handlers catch import errors"""
    out = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Try):
            for h in x.handlers:
                ns = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                if h.type is None or any(isinstance(q, ast.Name) and q.id in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException") for q in ns):
                    for st in x.body:
                        out |= set(range(st.lineno, (st.end_lineno or st.lineno) + 1))
        if isinstance(x, ast.If) and "TYPE_CHECKING" in ast.unparse(x.test):
            for st in x.body:
                out |= set(range(st.lineno, (st.end_lineno or st.lineno) + 1))
    return out


def imports(P, m, R):
    guard = guarded_lines(P.tree[m])
    roots = set(sys.stdlib_module_names) | {k.split(".")[0] for k in P.ext}
    for x in ast.walk(P.tree[m]):
        if isinstance(x, ast.Import):
            for a in x.names:
                R.see("imports")
                top = a.name.split(".")[0]
                if top == P.name:
                    if a.name not in P.mods:
                        R.fail("imports", f"module '{a.name}' does not exist", (m, x))
                elif x.lineno not in guard and not installed(top, roots):
                    R.fail("imports", f"module '{a.name}' is not available", (m, x))
        elif isinstance(x, ast.ImportFrom):
            src = P.absolute(m, x)
            top = src.split(".")[0]
            if top == P.name:
                if src not in P.mods:
                    R.see("imports")
                    R.fail("imports", f"module '{src}' does not exist", (m, x))
                    continue
            elif x.lineno not in guard and not installed(top, roots):
                R.see("imports")
                R.fail("imports", f"module '{src}' is not available", (m, x))
                continue
            for a in x.names:
                R.see("imports")
                if a.name != "*" and x.lineno not in guard and P.has(src, a.name) is False:
                    R.fail("imports", f"'{src}' defines no '{a.name}'", (m, x))


def installed(top, roots):
    if top in roots:
        return True
    for d in ("/opt/venv/lib/python3.12/site-packages", "/opt/venv/lib64/python3.12/site-packages"):
        if os.path.isdir(d):
            return any(os.path.exists(os.path.join(d, q)) for q in (top, top + ".py")) or any(f.startswith(top + ".") for f in os.listdir(d))
    return True  # installation not visible: not judged


def names(P, m, R):
    tree = P.tree[m]
    dyn = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("exec", "globals") for x in ast.walk(tree))
    star = any(P.has(s, "\0") is None for _, s in P.top[m].get("*", []))
    if dyn or star:
        return
    stars = [s for _, s in P.top[m].get("*", [])]
    where = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Name):
            where.setdefault(x.id, []).append(x)

    def rec(tab):
        for s in tab.get_symbols():
            if not s.is_referenced():
                continue
            if tab.get_type() == "module":
                free = not s.is_assigned() and not s.is_imported()
            else:
                free = s.is_global()
            if not free:
                continue
            n = s.get_name()
            R.see("names")
            if n in BUILTINS or n in P.top[m] or any(P.has(q, n) for q in stars):
                continue
            lo = tab.get_lineno()
            xs = [x for x in where.get(n, []) if x.lineno >= lo] or where.get(n, [None])
            R.fail("names", f"name '{n}' is not defined", (m, xs[0] or tree.body[0]))
        for ch in tab.get_children():
            if ch.get_type() in ("function", "class") or str(ch.get_type()).endswith(("FUNCTION", "CLASS")):
                rec(ch)

    rec(symtable.symtable(P.src[m], P.mods[m], "exec"))


class Flow:
    """may-assigned analysis of function locals: a read no assignment can reach always fails"""

    def __init__(self, fn, local, report):
        self.local, self.report = local, report
        a = fn.args
        d = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.block(fn.body, d)

    def expr(self, e, d):
        if e is None:
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            if isinstance(e, ast.Lambda):
                for q in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                    self.expr(q, d)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            self.expr(e.generators[0].iter, d)
            for x in ast.walk(e):
                if isinstance(x, ast.NamedExpr):
                    d.add(x.target.id)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                if e.id in self.local and e.id not in d:
                    self.report(e)
            elif isinstance(e.ctx, ast.Store):
                d.add(e.id)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, d)
            d.add(e.target.id)
            return
        for x in ast.iter_child_nodes(e):
            self.expr(x, d)

    def block(self, body, d):
        """returns False when the end is unreachable (then d is irrelevant)"""
        for st in body:
            if self.stmt(st, d) is False:
                return False
        return True

    def join(self, d, *branches):
        live = [b for b, ok in branches if ok is not False]
        for b in live:
            d |= b
        return bool(live)

    def stmt(self, st, d):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for q in st.decorator_list:
                self.expr(q, d)
            d.add(st.name)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                d.add((a.asname or a.name).split(".")[0])
        elif isinstance(st, ast.Assign):
            self.expr(st.value, d)
            for t in st.targets:
                self.expr(t, d)
        elif isinstance(st, ast.AnnAssign):
            self.expr(st.value, d)
            if st.value is not None:
                self.expr(st.target, d)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name) and st.target.id in self.local and st.target.id not in d:
                self.report(st.target)
            self.expr(st.value, d)
            self.expr(st.target, d)
        elif isinstance(st, ast.If):
            self.expr(st.test, d)
            a, b = set(d), set(d)
            return self.join(d, (a, self.block(st.body, a)), (b, self.block(st.orelse, b)))
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            for _ in range(2):  # second round: assignments of an earlier iteration
                quiet = self.report
                if _ == 0:
                    self.report = lambda e: None
                if isinstance(st, ast.While):
                    self.expr(st.test, d)
                else:
                    self.expr(st.iter, d)
                    self.expr(st.target, d)
                b = set(d)
                self.block(st.body, b)
                d |= b
                self.report = quiet
            self.block(st.orelse, d)
            if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(st)):
                return False
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for w in st.items:
                self.expr(w.context_expr, d)
                self.expr(w.optional_vars, d)
            self.block(st.body, d)
        elif isinstance(st, ast.Try) or type(st).__name__ == "TryStar":
            a = set(d)
            alive = [(a, self.block(st.body, a))]
            for h in st.handlers:
                b = set(a)
                self.expr(h.type, b)
                if h.name:
                    b.add(h.name)
                alive.append((b, self.block(h.body, b)))
            if alive[0][1] is not False:
                self.block(st.orelse, a)
            ok = self.join(d, *alive)
            for b, _ in alive:
                d |= b
            if self.block(st.finalbody, d) is False:
                return False
            return ok
        elif isinstance(st, ast.Match):
            self.expr(st.subject, d)
            outs, total = [], False
            for cs in st.cases:
                b = set(d)
                for y in ast.walk(cs.pattern):
                    for q in ("name", "rest"):
                        if isinstance(getattr(y, q, None), str):
                            b.add(getattr(y, q))
                self.expr(cs.guard, b)
                outs.append((b, self.block(cs.body, b)))
                total = total or (isinstance(cs.pattern, ast.MatchAs) and cs.pattern.pattern is None and cs.guard is None)
            if not total:
                outs.append((set(d), True))
            return self.join(d, *outs)
        elif isinstance(st, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(st):
                self.expr(x, d)
            return False
        elif isinstance(st, (ast.Break, ast.Continue)):
            return None  # leaves the block, the state after the loop is the union of everything anyway
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                self.expr(t, d)
        elif isinstance(st, (ast.Global, ast.Nonlocal, ast.Pass)):
            pass
        else:
            for x in ast.iter_child_nodes(st):
                self.expr(x, d)
        return True


def locals_(P, m, R):
    tab = symtable.symtable(P.src[m], P.mods[m], "exec")
    funcs = {}
    for x in ast.walk(P.tree[m]):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            funcs[(x.name, x.lineno)] = x
            for d in x.decorator_list:
                funcs[(x.name, d.lineno)] = x

    def rec(t):
        for ch in t.get_children():
            fn = funcs.get((ch.get_name(), ch.get_lineno()))
            if fn is not None and str(ch.get_type()) in ("function", "SymbolTableType.FUNCTION"):
                local = {s.get_name() for s in ch.get_symbols() if s.is_local()}
                local -= {n for x in ast.walk(fn) if isinstance(x, ast.Nonlocal) for n in x.names}
                R.see("locals", len(local))
                Flow(fn, local, lambda e: R.fail("locals", f"local variable '{e.id}' is read where no assignment can have happened", (m, e)))
            rec(ch)

    rec(tab)


class Uses(ast.NodeVisitor):
    """attributes and calls, with the little type information constructors and annotations give"""

    def __init__(self, P, m, R):
        self.P, self.m, self.R = P, m, R
        self.scopes = [{}]  # name -> Cls | None (local, unknown)
        self.cls = []
        self.visit(P.tree[m])

    # ---- scopes
    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return (True, s[n])
        return (False, None)

    def ann(self, a):
        if a is None:
            return None
        r = self.P.resolve(self.m, a)
        return r[1] if r and r[0] == "class" else None

    def function(self, f, me=None):
        a = f.args
        sc = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            sc[x.arg] = None
            c = self.ann(x.annotation)
            if c is not None:
                sc[x.arg] = ("inst", c)
        for x in (a.vararg, a.kwarg):
            if x:
                sc[x.arg] = None
        if me is not None and (a.posonlyargs + a.args):
            sc[(a.posonlyargs + a.args)[0].arg] = me
        args = set(sc)
        body = f.body if isinstance(f.body, list) else []
        for x in self.own(body):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                sc.setdefault(x.id, None)
                if x.id in args:
                    sc[x.id] = None  # rebound parameter
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                sc[x.name] = None
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for q in x.names:
                    sc[(q.asname or q.name).split(".")[0]] = None
            elif isinstance(x, ast.ExceptHandler) and x.name:
                sc[x.name] = None
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                sc[x.name] = None
        for x in ast.walk(ast.Module(body=body, type_ignores=[])):
            if isinstance(x, (ast.Global,)):
                for n in x.names:
                    sc.pop(n, None)
        # variables bound once, to a constructor call
        stores = {}
        for x in self.own(body):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores[x.id] = stores.get(x.id, 0) + 1
        for x in self.own(body):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and stores.get(x.targets[0].id) == 1 and isinstance(x.value, ast.Call) and x.targets[0].id not in args:
                t = self.target(x.value.func, sc)
                if t and t[0] == "class":
                    sc[x.targets[0].id] = ("inst", t[1])
        return sc

    def own(self, body):
        """nodes of a body without nested functions and comprehensions' scopes (their targets are separate)"""
        todo = list(body)
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo += list(ast.iter_child_nodes(x))

    def visit_FunctionDef(self, f):
        me = None
        ds = getattr(f, "_decos", None) or [deco_name(d) for d in f.decorator_list]
        for d in f.decorator_list:
            self.visit(d)
        for d in f.args.defaults + [x for x in f.args.kw_defaults if x]:
            self.visit(d)
        if self.cls and getattr(f, "_direct", False) and "staticmethod" not in ds:
            me = ("cls" if "classmethod" in ds else "inst", self.cls[-1])
        self.scopes.append(self.function(f, me))
        for st in f.body:
            self.visit(st)
        self.scopes.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, f):
        for d in f.args.defaults + [x for x in f.args.kw_defaults if x]:
            self.visit(d)
        self.scopes.append(self.function(f))
        self.visit(f.body)
        self.scopes.pop()

    def comp(self, e):
        sc = {}
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    sc[x.id] = None
        self.scopes.append(sc)
        self.generic_visit(e)
        self.scopes.pop()

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_ClassDef(self, c):
        for d in c.decorator_list + c.bases:
            self.visit(d)
        k = self.P.cls.get((self.m, c.name))
        self.cls.append(k)
        for st in c.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                st._direct = True
        # names of the class body hide outer ones in the body itself, not in its methods
        body = {x.name for x in c.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))} | {x.id for st in c.body if not isinstance(st, ast.FunctionDef) for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for st in c.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decos, st.decorator_list = st.decorator_list, []
                self.decos = [deco_name(d) for d in decos]
                st._decos = self.decos
                self.visit(st)
                st.decorator_list = decos
                self.scopes.append({n: None for n in body})
                for d in decos:
                    self.visit(d)
                self.scopes.pop()
            else:
                self.scopes.append({n: None for n in body})
                self.visit(st)
                self.scopes.pop()
        self.cls.pop()

    # ---- what an expression denotes
    def target(self, e, extra=None):
        if isinstance(e, ast.Name):
            if extra is not None and e.id in extra:
                return extra[e.id]
            hit, v = self.lookup(e.id)
            if hit:
                return v
            return self.P.definition(self.m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.target(e.value, extra)
            if not r:
                return None
            if r[0] == "module":
                return self.module_attr(r[1], e.attr)
            if r[0] == "inst":
                ts = [x.types[e.attr] for x in self.P.family(r[1]) if e.attr in x.types]
                if ts and all(t is ts[0] for t in ts) and not any(e.attr in x.attrs for x in self.P.family(r[1])):
                    return ("inst", ts[0])
                return ("member", r[1], e.attr)
            if r[0] in ("class", "cls"):
                return ("cmember", r[1], e.attr)
        if isinstance(e, ast.Call):
            r = self.target(e.func, extra)
            if r and r[0] == "class":
                return ("inst", r[1])
            if isinstance(e.func, ast.Name) and e.func.id == "super":
                return None
        return None

    def module_attr(self, mod, name):
        if mod in self.P.tree:
            return self.P.definition(mod, name)
        if f"{mod}.{name}" in self.P.ext or f"{mod}.{name}" in self.P.mods:
            return ("module", f"{mod}.{name}")
        return ("extern", mod, name)

    def visit_Attribute(self, e):
        self.generic_visit(e)
        r = self.target(e.value)
        if not r:
            return
        if r[0] == "module":
            self.R.see("attributes")
            if self.P.has(r[1], e.attr) is False:
                self.R.fail("attributes", f"module '{r[1]}' has no attribute '{e.attr}'", (self.m, e))
        elif r[0] in ("inst", "class", "cls") and isinstance(e.ctx, ast.Load):
            self.R.see("attributes")
            if r[0] in ("class", "cls") and e.attr in ("__name__", "__doc__", "mro", "__mro__", "__subclasses__", "__bases__"):
                return
            if not self.P.known_attr(r[1], e.attr):
                self.R.fail("attributes", f"'{r[1].name}' never gets an attribute '{e.attr}'", (self.m, e))

    def bind(self, sigs, call, what):
        self.R.see("calls")
        whys = [s.accepts(call) for s in sigs]
        if all(w is not None for w in whys):
            self.R.fail("calls", f"{what}: {whys[0]}", (self.m, call))

    def visit_Call(self, call):
        self.generic_visit(call)
        r = self.target(call.func)
        if not r:
            return
        if r[0] == "func":
            ds = [deco_name(d) for d in r[2].decorator_list]
            if all(d in PASS_DECOS for d in ds):
                self.bind([Sig(r[2].args)], call, f"call of {r[1]}.{r[2].name}")
        elif r[0] == "class":
            s = self.P.ctor(r[1])
            if s is not None:
                self.bind([s], call, f"construction of {r[1].name}")
        elif r[0] == "member":
            s = self.P.method_sigs(r[1], r[2])
            if s:
                self.bind(s, call, f"call of {r[1].name}.{r[2]}")
        elif r[0] == "inst":
            s = self.P.method_sigs(r[1], "__call__")
            fam = self.P.family(r[1])
            if s:
                self.bind(s, call, f"call of a {r[1].name}")
            elif not any(x.dynamic for x in fam) and not any("__call__" in x.attrs for x in fam):
                self.R.fail("calls", f"'{r[1].name}' object is not callable", (self.m, call))
        elif r[0] == "extern":
            sig = (self.P.ext.get(r[1]) or {}).get(r[2])
            if sig:
                self.R.see("calls")
                for k in call.keywords:
                    if k.arg is not None and k.arg not in sig[0]:
                        self.R.fail("calls", f"{r[1]}.{r[2]} accepts no keyword '{k.arg}'", (self.m, call))
                if sig[1] is not None and not any(isinstance(x, ast.Starred) for x in call.args) and len(call.args) > sig[1]:
                    self.R.fail("calls", f"{r[1]}.{r[2]} takes at most {sig[1]} positional arguments", (self.m, call))

    def visit_Raise(self, st):
        self.generic_visit(st)
        e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
        if isinstance(e, ast.Name) and not self.lookup(e.id)[0] and e.id not in self.P.top[self.m] and hasattr(builtins, e.id):
            self.R.see("raises")
            v = getattr(builtins, e.id)
            if isinstance(st.exc, ast.Call) and callable(v) and not isinstance(v, type):
                return  # a function returning the exception
            if not (isinstance(v, type) and issubclass(v, BaseException)):
                self.R.fail("raises", f"'{e.id}' is no exception", (self.m, st))
        elif isinstance(st.exc, ast.Constant):
            self.R.see("raises")
            self.R.fail("raises", "a constant is raised", (self.m, st))

    def visit_Assign(self, st):
        self.generic_visit(st)
        t = st.targets[0]
        if len(st.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, ast.Call) and not any(isinstance(x, ast.Starred) for x in t.elts):
            r = self.target(st.value.func)
            fs = []
            if r and r[0] == "func" and all(deco_name(d) in ("lru_cache", "cache") for d in r[2].decorator_list):
                fs = [r[2]]
            elif r and r[0] == "member" and self.P.method_sigs(r[1], r[2]):
                fs = [x.methods[r[2]] for x in self.P.family(r[1]) if r[2] in x.methods]
            n = {k for f in fs for k in self.arity(f)}
            if n and None not in n:
                self.R.see("unpacking")
                if len(t.elts) not in n:
                    self.R.fail("unpacking", f"{len(t.elts)} targets for the {sorted(n)} values {fs[0].name} returns", (self.m, st))

    def arity(self, f):
        out = set()
        for x in self.own(f.body):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return {None}
            if isinstance(x, ast.Return):
                v = x.value
                out.add(len(v.elts) if isinstance(v, ast.Tuple) and not any(isinstance(q, ast.Starred) for q in v.elts) else None)
        return out or {None}


def excused(P, m, rule, msg, x):
    """code that provides for the failure itself: inside try/except of it, or after asking hasattr"""
    want = {"names": {"NameError"}, "locals": {"UnboundLocalError", "NameError"}, "attributes": {"AttributeError"}, "calls": {"TypeError"}, "unpacking": {"ValueError", "TypeError"}, "imports": {"ImportError", "ModuleNotFoundError"}}.get(rule, set()) | {"Exception", "BaseException"}
    for t in ast.walk(P.tree[m]):
        if isinstance(t, ast.Try) and any(st.lineno <= x.lineno <= (st.end_lineno or st.lineno) for st in t.body):
            for h in t.handlers:
                ns = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                if any(q is None or isinstance(q, ast.Name) and q.id in want for q in ns):
                    return True
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "hasattr" and len(t.args) == 2 and isinstance(t.args[1], ast.Constant) and isinstance(x, ast.Attribute) and t.args[1].value == x.attr:
            return True
    return False


def where(P, site):
    m, x = site
    fn = "<module>"
    best = None
    for f in ast.walk(P.tree[m]):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.lineno <= x.lineno <= (f.end_lineno or f.lineno):
            if best is None or f.lineno >= best.lineno:
                best = f
    if best is not None:
        fn = best.name
    return (P.mods[m], x.lineno, fn)


RULES = {"imports": imports, "names": names, "locals": locals_, "uses": lambda P, m, R: Uses(P, m, R)}
