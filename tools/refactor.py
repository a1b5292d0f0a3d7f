"""Behaviour-preserving rewrites of the whole package, for measuring false alarms.

    python3 tools/refactor.py KIND SRC DST     copy SRC (a checkout) to DST with fvhoe/ rewritten
    python3 tools/refactor.py --list
"""
import ast
import copy
import os
import shutil
import sys

NP = ("np",)


def is_doc(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)


class Temps(ast.NodeTransformer):
    """name intermediate results: return E -> tmp = E; return tmp, and operands of assignments"""

    def __init__(self):
        self.k = 0

    def new(self):
        self.k += 1
        return f"_tmp{self.k}"

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def visit_Return(self, st):
        if st.value is None or isinstance(st.value, (ast.Name, ast.Constant)):
            return st
        t = self.new()
        return [ast.Assign([ast.Name(t, ast.Store())], st.value), ast.Return(ast.Name(t, ast.Load()))]

    def visit_Assign(self, st):
        v = st.value
        if isinstance(v, ast.BinOp) and len(st.targets) == 1 and isinstance(st.targets[0], (ast.Name, ast.Subscript, ast.Attribute)):
            a, b = self.new(), self.new()
            return [
                ast.Assign([ast.Name(a, ast.Store())], v.left),
                ast.Assign([ast.Name(b, ast.Store())], v.right),
                ast.Assign(st.targets, ast.BinOp(ast.Name(a, ast.Load()), v.op, ast.Name(b, ast.Load()))),
            ]
        return st


class ArgTemps(ast.NodeTransformer):
    """x = f(A, k=B) -> a = A; b = B; x = f(a, k=b) (evaluation order kept)"""

    def __init__(self):
        self.k = 0

    def visit_Assign(self, st):
        v = st.value
        if not isinstance(v, ast.Call) or any(isinstance(a, ast.Starred) for a in v.args) or any(k.arg is None for k in v.keywords):
            return st
        if not isinstance(v.func, (ast.Name, ast.Attribute)):
            return st
        if isinstance(v.func, ast.Name) and v.func.id == "super":
            return st
        out = []

        def hoist(e):
            if isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
                return e
            self.k += 1
            t = f"_arg{self.k}"
            out.append(ast.Assign([ast.Name(t, ast.Store())], e))
            return ast.Name(t, ast.Load())

        args = [hoist(a) for a in v.args]
        kws = [ast.keyword(k.arg, hoist(k.value)) for k in v.keywords]
        if not out:
            return st
        out.append(ast.Assign(st.targets, ast.Call(v.func, args, kws)))
        return out


class Invert(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, st):
        self.generic_visit(st)
        if st.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), st.test), st.orelse, st.body)
        return st

    def visit_IfExp(self, e):
        self.generic_visit(e)
        return ast.IfExp(ast.UnaryOp(ast.Not(), e.test), e.orelse, e.body)


class Commute(ast.NodeTransformer):
    """a * b -> b * a for numeric products and sums; a < b -> b > a"""

    def visit_BinOp(self, e):
        self.generic_visit(e)
        stringy = any(isinstance(x, (ast.JoinedStr, ast.List, ast.Tuple, ast.ListComp)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (e.left, e.right))
        if isinstance(e.op, ast.Mult) and not stringy:
            return ast.BinOp(e.right, e.op, e.left)
        if isinstance(e.op, ast.Add) and not stringy and (isinstance(e.left, ast.BinOp) or isinstance(e.right, ast.BinOp)) and not any(isinstance(x, (ast.Tuple, ast.List)) or isinstance(x, ast.Attribute) and x.attr in "xyz" for x in ast.walk(e)) and "dirs" not in ast.unparse(e) and "path" not in ast.unparse(e) and "tuple" not in ast.unparse(e):
            return ast.BinOp(e.right, e.op, e.left)
        return e

    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 1:
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}.get(type(e.ops[0]))
            if sw:
                return ast.Compare(e.comparators[0], [sw()], [e.left])
        return e


class Impl(ast.NodeTransformer):
    """move every function body to a helper with the same signature"""

    def __init__(self):
        self.cls = []

    def helper(self, f, method):
        a = f.args
        if f.decorator_list or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return [f]
        if method and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(f)):
            return [f]
        if f.name.startswith("__") or f.name in ("f", "base_ic"):
            return [f]
        name = f"_{f.name.lstrip('_')}_impl"
        h = ast.FunctionDef(name, copy.deepcopy(a), f.body, [], f.returns)
        pos = [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args]
        if method:
            fn, pos = ast.Attribute(pos[0], name, ast.Load()), pos[1:]
        else:
            fn = ast.Name(name, ast.Load())
        if a.vararg:
            pos.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        kws = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
        if a.kwarg:
            kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
        h.args.defaults, h.args.kw_defaults = [], [None] * len(a.kwonlyargs)
        doc = f.body[:1] if is_doc(f.body[0]) else []
        f = ast.FunctionDef(f.name, a, doc + [ast.Return(ast.Call(fn, pos, kws))], [], f.returns)
        return [h, f]

    def visit_Module(self, m):
        out = []
        for st in m.body:
            if isinstance(st, ast.FunctionDef):
                out.extend(self.helper(st, False))
            elif isinstance(st, ast.ClassDef):
                body = []
                for q in st.body:
                    if isinstance(q, ast.FunctionDef) and q.args.args and q.args.args[0].arg == "self":
                        body.extend(self.helper(q, True))
                    else:
                        body.append(q)
                st.body = body
                out.append(st)
            else:
                out.append(st)
        m.body = out
        return m


class MatchIf(ast.NodeTransformer):
    """match on constants -> if/elif"""

    def __init__(self):
        self.k = 0

    def cond(self, p, s):
        if isinstance(p, ast.MatchValue):
            return ast.Compare(s, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(s, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            cs = [self.cond(q, s) for q in p.patterns]
            return None if any(c is None for c in cs) else ast.BoolOp(ast.Or(), cs)
        return None

    def visit_Match(self, st):
        self.generic_visit(st)
        self.k += 1
        s = ast.Name(f"_subject{self.k}", ast.Load())
        arms, default = [], []
        for c in st.cases:
            if c.guard is not None:
                return st
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.pattern.name is None:
                default = c.body
                break
            q = self.cond(c.pattern, s)
            if q is None:
                return st
            arms.append((q, c.body))
        node = default
        for q, b in reversed(arms):
            node = [ast.If(q, b, node)]
        return [ast.Assign([ast.Name(s.id, ast.Store())], st.subject)] + node


class CompLoop(ast.NodeTransformer):
    """x = [e for v in it if c] -> explicit loop"""

    def __init__(self):
        self.k = 0

    def visit_Assign(self, st):
        v = st.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and isinstance(st.targets[0], ast.Name):
            self.k += 1
            acc = f"_acc{self.k}"
            g = v.generators[0]
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [
                ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())),
                ast.For(g.target, g.iter, body, []),
                ast.Assign(st.targets, ast.Name(acc, ast.Load())),
            ]
        return st

    def visit_Return(self, st):
        v = st.value
        if isinstance(v, ast.IfExp):
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return st


class Rename(ast.NodeTransformer):
    """rename local variables (not parameters)"""

    def visit_FunctionDef(self, f):
        inner = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f]
        bad = {a.arg for g in inner + [f] for a in g.args.args + g.args.kwonlyargs + g.args.posonlyargs + [y for y in (g.args.vararg, g.args.kwarg) if y]}
        bad |= {x.name for x in ast.walk(f) if isinstance(x, ast.FunctionDef)}
        for x in ast.walk(f):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                bad |= set(x.names)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                bad |= {(y.asname or y.name).split(".")[0] for y in x.names}
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec"):
                return f
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - bad

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.Name("loc_" + n.id, n.ctx) if n.id in loc else n

            def visit_ExceptHandler(self, h):
                self.generic_visit(h)
                if h.name in loc:
                    h.name = "loc_" + h.name
                return h

            def visit_MatchAs(self, m):
                self.generic_visit(m)
                if m.name in loc:
                    m.name = "loc_" + m.name
                return m

        f.body = [R().visit(s) for s in f.body]
        return f


class NumpyAlias(ast.NodeTransformer):
    """operators instead of functions and the reverse; where(c, a, b) -> where(not c, b, a)"""

    def visit_Call(self, c):
        self.generic_visit(c)
        f = c.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
            if f.attr == "where" and len(c.args) == 3 and not c.keywords:
                return ast.Call(f, [ast.Call(ast.Attribute(f.value, "logical_not", ast.Load()), [c.args[0]], []), c.args[2], c.args[1]], [])
            if f.attr in ("minimum", "maximum") and len(c.args) == 2 and not c.keywords:
                return ast.Call(f, [c.args[1], c.args[0]], [])
            if f.attr == "abs" and len(c.args) == 1:
                return ast.Call(ast.Attribute(f.value, "absolute", ast.Load()), c.args, [])
        return c

    def visit_BinOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and e.right.value == 2:
            return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "square", ast.Load()), [e.left], [])
        return e


class AugToPlain(ast.NodeTransformer):
    """x[...] *= y -> x[...] = x[...] * y; name += 1 -> name = name + 1 (scalars)"""

    def visit_AugAssign(self, st):
        if isinstance(st.target, (ast.Subscript, ast.Attribute)):
            load = copy.deepcopy(st.target)
            load.ctx = ast.Load()
            return ast.Assign([st.target], ast.BinOp(load, st.op, st.value))
        return st


class Guards(ast.NodeTransformer):
    """early returns instead of else branches; statements that do nothing; pass-through locals"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        doc = f.body[:1] if is_doc(f.body[0]) else []
        body = f.body[len(doc):]
        names = [a.arg for a in f.args.args if a.arg not in ("self", "cls")]
        noop = [ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None))]
        if names:
            noop.append(ast.Assign([ast.Name("_first", ast.Store())], ast.Name(names[0], ast.Load())))
        f.body = doc + noop + (body or [ast.Pass()])
        return f


class KwPos(ast.NodeTransformer):
    """positional arguments of package functions become keywords"""

    def __init__(self, sigs=None):
        self.sigs = sigs or {}

    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Name) and c.func.id in self.sigs and not any(isinstance(a, ast.Starred) for a in c.args):
            ps = self.sigs[c.func.id]
            if len(c.args) <= len(ps):
                c.keywords = [ast.keyword(p, a) for p, a in zip(ps, c.args)] + c.keywords
                c.args = []
        return c


class WhileLoop(ast.NodeTransformer):
    """for v in it -> it = iter-list with index and while"""

    def __init__(self):
        self.k = 0

    def visit_For(self, st):
        self.generic_visit(st)
        if st.orelse or any(isinstance(x, (ast.Continue,)) for x in ast.walk(st)):
            return st
        self.k += 1
        seq, i = f"_seq{self.k}", f"_i{self.k}"
        return [
            ast.Assign([ast.Name(seq, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [st.iter], [])),
            ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
            ast.While(
                ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Call(ast.Name("len", ast.Load()), [ast.Name(seq, ast.Load())], [])]),
                [ast.Assign([st.target], ast.Subscript(ast.Name(seq, ast.Load()), ast.Name(i, ast.Load()), ast.Load())),
                 ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))] + st.body,
                [],
            ),
        ]


class DictCall(ast.NodeTransformer):
    """dict(a=1) <-> {"a": 1}; f-strings -> str.format"""

    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Name) and c.func.id == "dict" and not c.args and all(k.arg for k in c.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in c.keywords], [k.value for k in c.keywords])
        return c

    def visit_JoinedStr(self, e):
        fmt, args = "", []
        for v in e.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.conversion != -1:
                    return e
                spec = ""
                if v.format_spec is not None:
                    if not all(isinstance(q, ast.Constant) for q in v.format_spec.values):
                        return e
                    spec = ":" + "".join(q.value for q in v.format_spec.values)
                fmt += "{" + spec + "}"
                args.append(self.visit(v.value))
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])


def signatures(src):
    out, dup = {}, set()
    for fn in sorted(os.listdir(src)):
        if fn.endswith(".py"):
            for st in ast.parse(open(os.path.join(src, fn)).read()).body:
                if isinstance(st, ast.FunctionDef):
                    if st.args.vararg or st.name in out:
                        dup.add(st.name)
                    out[st.name] = [a.arg for a in st.args.args]
    for d in dup:
        out.pop(d)
    return out


KINDS = dict(temps=Temps, argtemps=ArgTemps, invert=Invert, commute=Commute, impl=Impl, matchif=MatchIf, comploop=CompLoop, rename=Rename, numpyalias=NumpyAlias, augplain=AugToPlain, guards=Guards, kwpos=KwPos, whileloop=WhileLoop, dictcall=DictCall)


def main(kind, src, dst):
    if os.path.exists(dst):
        raise SystemExit(f"{dst} exists")
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(".git", "__pycache__", "build", "*.egg-info"))
    pk = os.path.join(dst, "fvhoe")
    sigs = signatures(pk)
    n = 0
    for fn in sorted(os.listdir(pk)):
        if not fn.endswith(".py"):
            continue
        p = os.path.join(pk, fn)
        t = ast.parse(open(p).read())
        before = ast.dump(t)
        for k in kind.split("+"):
            t = (KINDS[k](sigs) if k == "kwpos" else KINDS[k]()).visit(t)
            ast.fix_missing_locations(t)
        n += ast.dump(t) != before
        open(p, "w").write(ast.unparse(t) + "\n")
    print(f"{kind}: {n} files rewritten")


if __name__ == "__main__":
    if sys.argv[1:] == ["--list"]:
        print(*KINDS)
    else:
        main(*sys.argv[1:4])
