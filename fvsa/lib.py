"""Models of the Python builtins and the library modules FVHOE uses."""
import builtins as _bi
import itertools
import math
import operator
from fractions import Fraction

from . import arrays as A
from . import nodes as N
from .aff import Aff, Undecidable, as_int
from .arrays import Arr, PyErr, Unsupported, elementwise
from .interp import (
    AClass,
    AFunc,
    AObj,
    Bound,
    ClassM,
    ExcVal,
    Gen,
    LruCached,
    MISSING,
    Module,
    Native,
    Opaque,
    Partial,
    Phi,
    Property,
    Scope,
    Split,
    StaticM,
    SuperProxy,
    TypeModel,
    tname,
)

HOSTNUM = (bool, int, Fraction)
_CMP = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}
_HOSTOP = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge, "Eq": operator.eq, "NotEq": operator.ne}


def is_numlike(v):
    return isinstance(v, (bool, int, Fraction, Aff, N.Node, Arr, A.Selection))


def sc(v):
    """0-d / const simplification"""
    if isinstance(v, N.Node):
        return A.simplify_scalar(v)
    return v


class RangeSym:
    """range over a symbolic extent"""

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def model_iter(self, it):
        raise Unsupported("loop over a symbolic number of cells")


class Lib:
    def __init__(self, it):
        self.it = it
        self.mods = {}
        self.builtins = self.mk_builtins()
        self.np = None

    def named_tuple(self, name, fields, defaults):
        from .libmods import NT

        def make(*a, **kw):
            vals = list(a)
            if len(vals) > len(fields) or set(kw) - set(fields):
                raise PyErr("TypeError", f"{name}() got unexpected arguments")
            for x in fields[len(a):]:
                if x in kw:
                    vals.append(kw[x])
                elif x in defaults:
                    vals.append(defaults[x])
                else:
                    raise PyErr("TypeError", f"{name}() missing argument '{x}'")
            return NT(name, fields, vals)

        return Native(name, make)

    # ----------------------------------------------------------------- operators
    def binop(self, op, a, b):
        if op == "Div" and (type(a).__name__ == "Path" or type(b).__name__ == "Path"):
            from .vfs import Path
            import posixpath

            return Path(posixpath.normpath(posixpath.join(getattr(a, "s", a), getattr(b, "s", b))))
        if isinstance(a, Phi) or isinstance(b, Phi):
            p = a if isinstance(a, Phi) else b
            fa = self.binop(op, p.a if a is p else a, p.a if b is p else b)
            fb = self.binop(op, p.b if a is p else a, p.b if b is p else b)
            return self.it.merge(p.cond, fa, fb)
        if isinstance(a, AObj) or isinstance(b, AObj):
            nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "BitAnd": "and", "BitOr": "or", "MatMult": "matmul"}.get(op)
            if isinstance(a, AObj):
                f, _ = a.cls.lookup(f"__{nm}__")
                if f is not MISSING:
                    return self.it.call(Bound(f, a), [b], {})
            if isinstance(b, AObj):
                f, _ = b.cls.lookup(f"__r{nm}__")
                if f is not MISSING:
                    return self.it.call(Bound(f, b), [a], {})
            raise PyErr("TypeError", f"unsupported operand type(s) for {op}: '{tname(a)}' and '{tname(b)}'")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op == "Mod" and isinstance(a, str):
                return a
            if isinstance(a, str) or isinstance(b, str):
                if op == "Add":
                    return (a if isinstance(a, str) else f"<{a.name}>") + (b if isinstance(b, str) else f"<{b.name}>")
            if is_numlike(a) or is_numlike(b):
                a = N.leaf(("opaque", a.name)) if isinstance(a, Opaque) else a
                b = N.leaf(("opaque", b.name)) if isinstance(b, Opaque) else b
            else:
                return Opaque(f"({getattr(a, 'name', a)} {op} {getattr(b, 'name', b)})")
        if is_numlike(a) and is_numlike(b):
            return self.numop(op, a, b)
        if isinstance(a, Arr) and isinstance(b, (list, tuple)):
            return self.numop(op, a, A.from_list(list(b)))
        if isinstance(b, Arr) and isinstance(a, (list, tuple)):
            return self.numop(op, A.from_list(list(a)), b)
        if op == "Mod" and isinstance(a, str):
            return self.percent(a, b)
        if op == "Mult":
            if isinstance(a, (str, list, tuple)) and isinstance(b, (int, Aff)):
                if isinstance(b, Aff):
                    raise Unsupported("sequence repeated a symbolic number of times")
                return a * b
            if isinstance(b, (str, list, tuple)) and isinstance(a, int):
                return a * b
        opf = {"Add": operator.add, "Sub": operator.sub, "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor}.get(op)
        if opf is not None:
            if isinstance(a, (AClass, type, Native)) or isinstance(b, (AClass, type, Native)):
                return Opaque("typing")
            try:
                return opf(a, b)
            except TypeError:
                pass
        raise PyErr("TypeError", f"unsupported operand type(s) for {op}: '{tname(a)}' and '{tname(b)}'")

    def percent(self, a, b):
        try:
            if isinstance(b, tuple):
                return a % tuple(self.hostify(x) for x in b)
            return a % self.hostify(b)
        except Exception:
            return a

    def hostify(self, x):
        if isinstance(x, Fraction):
            return float(x)
        if isinstance(x, (int, str)) or x is None:
            return x
        return self.to_str(x)

    def numop(self, op, a, b):
        if isinstance(a, HOSTNUM) and isinstance(b, HOSTNUM):
            return self.hostop(op, a, b)
        if self.it.fp is not None and op in ("Add", "Sub") and (isinstance(a, N.Node) or isinstance(b, N.Node)) and not isinstance(a, (Arr, A.Selection)) and not isinstance(b, (Arr, A.Selection)):
            return A.simplify_scalar(self.it.fp.op(op, a, b))
        if isinstance(a, (Aff, int)) and isinstance(b, (Aff, int)):
            try:
                if op == "Add":
                    return a + b
                if op == "Sub":
                    return a - b
                if op == "Mult":
                    r = a * b
                    if r is not NotImplemented:
                        return r
                if op == "FloorDiv" and isinstance(a, Aff):
                    return a // b
                if op == "Mod" and isinstance(a, Aff):
                    return a % b
            except TypeError:
                pass
        if isinstance(a, Aff) and isinstance(b, Fraction) and b.denominator == 1 or isinstance(b, Aff) and isinstance(a, Fraction) and a.denominator == 1:
            if op in ("Add", "Sub"):
                return a + b if op == "Add" else a - b
            if op == "Mult":
                return a * b
        f = {
            "Add": N.add, "Sub": N.sub, "Mult": N.mul, "Div": N.div, "Pow": N.power,
        }.get(op)
        if f is not None:
            dt = None
            if op == "Div":
                dt = "f"
            elif op in ("Add", "Mult", "Sub"):
                dt = self.arith_dtype(op, a, b)
            return elementwise(f, a, b, dtype=dt)
        if op in ("BitAnd", "BitOr", "BitXor"):
            for x in (a, b):
                if isinstance(x, Arr) and x.dtype in "fs":
                    raise PyErr("TypeError", f"ufunc '{op}' not supported for the input types")
            g = {"BitAnd": N.land, "BitOr": N.lor, "BitXor": lambda x, y: N.land(N.lor(x, y), N.lnot(N.land(x, y)))}[op]
            return elementwise(g, a, b, dtype="b")
        if op == "FloorDiv":
            return elementwise(lambda x, y: self.floor_node(N.div(x, y)), a, b)
        if op == "Mod":
            return elementwise(lambda x, y: N.uf("mod", x, y), a, b)
        if op == "MatMult":
            return self.np.ns["matmul"].fn(a, b)
        raise Unsupported(f"operator {op}")

    def arith_dtype(self, op, a, b):
        ds = [x.dtype if isinstance(x, Arr) else A.scalar_dtype(x) for x in (a, b) if not isinstance(x, A.Selection)]
        if not ds:
            return None
        d = A.join_dtype(*ds)
        if d == "b":
            if op == "Sub":
                raise PyErr("TypeError", "numpy boolean subtract, the `-` operator, is not supported")
            return "b"
        return d

    def floor_node(self, n):
        if n.const is not None:
            return N.const(math.floor(n.const))
        return N.uf("floor", n)

    def hostop(self, op, a, b):
        try:
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "Div":
                if b == 0:
                    raise PyErr("ZeroDivisionError", "division by zero")
                return Fraction(a) / Fraction(b)
            if op == "FloorDiv":
                if b == 0:
                    raise PyErr("ZeroDivisionError", "division by zero")
                r = a // b
                return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
            if op == "Mod":
                if b == 0:
                    raise PyErr("ZeroDivisionError", "modulo by zero")
                return a % b
            if op == "Pow":
                if isinstance(b, Fraction) and b.denominator != 1:
                    return sc(N.power(N.const(a), N.const(b)))
                if b < 0:
                    return Fraction(1) / Fraction(a) ** (-int(b))
                return a ** int(b)
            if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
                return {"BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift}[op](a, b)
        except TypeError as e:
            raise PyErr("TypeError", str(e))
        raise Unsupported(f"operator {op}")

    def compare(self, op, a, b):
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return not self.is_(a, b)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "In":
                return r
            return (not r) if isinstance(r, bool) else N.lnot(r)
        if isinstance(a, Phi) or isinstance(b, Phi):
            p = a if isinstance(a, Phi) else b
            return self.it.merge(p.cond, self.compare(op, p.a if a is p else a, p.a if b is p else b), self.compare(op, p.b if a is p else a, p.b if b is p else b))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b and op == "Eq":
                return True
            return N.truthy(N.leaf(("opaque-cmp", op, str(a), str(b))))
        if isinstance(a, (Arr, A.Selection)) or isinstance(b, (Arr, A.Selection)):
            if isinstance(a, (list, tuple)):
                a = A.from_list(list(a))
            if isinstance(b, (list, tuple)):
                b = A.from_list(list(b))
            if not (is_numlike(a) and is_numlike(b)):
                if op in ("Eq", "NotEq"):
                    return op == "NotEq"
                raise PyErr("TypeError", "bad comparison")
            if op in _CMP:
                rel = _CMP[op]
                return elementwise(lambda x, y: N.cmp(rel, x, y), a, b, dtype="b")
            if op == "Eq":
                return elementwise(N.eq, a, b, dtype="b")
            if op == "NotEq":
                return elementwise(N.ne, a, b, dtype="b")
        if isinstance(a, N.Node) or isinstance(b, N.Node):
            if not (is_numlike(a) and is_numlike(b)):
                if op == "Eq":
                    return False
                if op == "NotEq":
                    return True
                raise PyErr("TypeError", f"'{op}' not supported between '{tname(a)}' and '{tname(b)}'")
            x, y = A.to_node(a), A.to_node(b)
            if op in _CMP:
                r = N.cmp(_CMP[op], x, y)
            elif op == "Eq":
                r = N.eq(x, y)
            else:
                r = N.ne(x, y)
            return A.simplify_bool(r)
        if isinstance(a, Aff) or isinstance(b, Aff):
            if op == "Eq":
                return a == b
            if op == "NotEq":
                return not (a == b)
            if isinstance(a, Fraction) or isinstance(b, Fraction):
                r = N.cmp(_CMP[op], A.to_node(a), A.to_node(b))
                return A.simplify_bool(r)
            return _HOSTOP[op](a, b)
        if isinstance(a, AObj) or isinstance(b, AObj):
            nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            if isinstance(a, AObj):
                f, _ = a.cls.lookup(nm)
                if f is not MISSING:
                    return self.it.call(Bound(f, a), [b], {})
                if a.cls.fields is not None and op in ("Eq", "NotEq") and isinstance(b, AObj) and b.cls is a.cls:
                    r = a is b or all(self.compare("Eq", a.attrs.get(k), b.attrs.get(k)) is True for k in a.cls.fields)
                    return r if op == "Eq" else not r
            if op == "Eq":
                return a is b
            if op == "NotEq":
                return a is not b
            raise PyErr("TypeError", f"'{op}' not supported between instances")
        if isinstance(a, (list, tuple)) and type(a) is type(b) and op in ("Eq", "NotEq"):
            if len(a) != len(b):
                return op == "NotEq"
            r = True
            for x, y in zip(a, b):
                c = x is y or self.compare("Eq", x, y)
                if isinstance(c, Arr):
                    c = self.it.truth(c)
                if c is False:
                    r = False
                    break
                if isinstance(c, N.Node):
                    r = c if r is True else N.land(r, c)
            if op == "Eq":
                return r
            return (not r) if isinstance(r, bool) else N.lnot(r)
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            for x, y in zip(a, b):
                e = self.compare("Eq", x, y)
                if e is True:
                    continue
                return self.compare(op, x, y)
            return _HOSTOP[op](len(a), len(b))
        try:
            return _HOSTOP[op](a, b)
        except TypeError as e:
            raise PyErr("TypeError", str(e))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)) and type(a) is type(b):
            return a == b
        if isinstance(a, Phi) or isinstance(b, Phi):
            p = a if isinstance(a, Phi) else b
            o = b if p is a else a
            x, y = self.is_(p.a, o), self.is_(p.b, o)
            if x == y:
                return x
            return p.cond if x else N.lnot(p.cond)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return False

    def contains(self, c, x):
        if isinstance(c, dict) or isinstance(c, (set, frozenset)) or isinstance(c, (type({}.keys()),)):
            return self.it.hashable(x) in c
        if isinstance(c, str):
            if not isinstance(x, str):
                raise PyErr("TypeError", f"'in <string>' requires string as left operand, not {tname(x)}")
            return x in c
        if isinstance(c, (list, tuple, range)) or isinstance(c, (type({}.values()), type({}.items()))):
            r = False
            for y in c:
                if x is y:
                    return True
                e = self.compare("Eq", x, y)
                if isinstance(e, Arr):
                    e = self.it.truth(e)
                if e is True:
                    return True
                if isinstance(e, N.Node):
                    r = e if r is False else N.lor(r, e)
            return r
        if isinstance(c, Gen):
            return self.contains(list(c), x)
        if isinstance(c, AObj):
            f, _ = c.cls.lookup("__contains__")
            if f is not MISSING:
                return self.it.call(Bound(f, c), [x], {})
            return self.contains(list(self.it.iterate(c)), x)
        if isinstance(c, Arr):
            return self.np.ns["any"].fn(self.compare("Eq", c, x))
        if isinstance(c, Opaque):
            return N.truthy(N.leaf(("opaque-in", c.name, str(x))))
        if hasattr(c, "model_contains"):
            return c.model_contains(self.it, x)
        raise PyErr("TypeError", f"argument of type '{tname(c)}' is not iterable")

    # ----------------------------------------------------------------- strings
    def to_str(self, v):
        if isinstance(v, str):
            return v
        return self.to_repr(v)

    def to_repr(self, v):
        if type(v).__name__ == "Path":
            return v.s
        if isinstance(v, str):
            return repr(v)
        if isinstance(v, bool) or v is None:
            return repr(v)
        if isinstance(v, int):
            return repr(v)
        if isinstance(v, Fraction):
            return repr(float(v))
        if isinstance(v, (list, tuple)):
            s = ", ".join(self.to_repr(x) for x in v)
            return f"[{s}]" if isinstance(v, list) else f"({s}{',' if len(v) == 1 else ''})"
        if isinstance(v, dict):
            return "{" + ", ".join(f"{self.to_repr(k)}: {self.to_repr(x)}" for k, x in v.items()) + "}"
        if isinstance(v, AObj):
            f, _ = v.cls.lookup("__str__")
            if f is MISSING:
                f, _ = v.cls.lookup("__repr__")
            if f is not MISSING:
                return self.it.call(Bound(f, v), [], {})
            return f"<{v.cls.name} object>"
        if isinstance(v, ExcVal):
            return v.msg
        return f"<{v!r}>"

    def fmt(self, v, spec):
        if not spec:
            return self.to_str(v)
        try:
            if isinstance(v, Fraction):
                return format(float(v), spec)
            if isinstance(v, (int, str)):
                return format(v, spec)
        except ValueError as e:
            raise PyErr("ValueError", str(e))
        return f"<{v!r}:{spec}>"

    # ----------------------------------------------------------------- builtins
    def mk_builtins(self):
        it = self.it
        b = {}
        for n in dir(_bi):
            o = getattr(_bi, n)
            if isinstance(o, type) and issubclass(o, BaseException):
                b[n] = o
        for t in (int, float, str, bool, tuple, list, dict, set, frozenset, slice, object, type, complex, bytes):
            b[t.__name__] = t
        b["None"], b["True"], b["False"] = None, True, False
        b["NotImplemented"] = NotImplemented
        b["Ellipsis"] = Ellipsis

        def reg(name):
            def d(f):
                b[name] = Native(name, f)
                return f

            return d

        @reg("len")
        def _len(v):
            if isinstance(v, Arr):
                if v.ndim == 0:
                    raise PyErr("TypeError", "len() of unsized object")
                return v.shape[0]
            if isinstance(v, AObj):
                f, _ = v.cls.lookup("__len__")
                if f is MISSING:
                    raise PyErr("TypeError", f"object of type '{v.cls.name}' has no len()")
                return it.call(Bound(f, v), [], {})
            if isinstance(v, Opaque):
                return N.leaf(("opaque-len", v.name), pos=0)
            if isinstance(v, Gen):
                raise PyErr("TypeError", "object of type 'generator' has no len()")
            if isinstance(v, Phi):
                return it.merge(v.cond, _len(v.a), _len(v.b))
            try:
                return len(v)
            except TypeError:
                raise PyErr("TypeError", f"object of type '{tname(v)}' has no len()")

        @reg("range")
        def _range(*a):
            a = [as_int(x) for x in a]
            if any(x is None for x in a):
                raise PyErr("TypeError", "'float' object cannot be interpreted as an integer")
            if any(isinstance(x, Aff) for x in a):
                return RangeSym(*(a if len(a) == 3 else ([0] + a + [1])[-3:] if len(a) == 1 else a + [1]))
            return range(*a)

        @reg("enumerate")
        def _enum(v, start=0):
            return Gen([(i, x) for i, x in enumerate(it.iterate(v), start)])

        @reg("zip")
        def _zip(*vs, strict=False):
            ls = [list(it.iterate(v)) for v in vs]
            if strict and len({len(x) for x in ls}) > 1:
                raise PyErr("ValueError", "zip() arguments differ in length")
            return Gen(list(zip(*ls)))

        @reg("map")
        def _map(f, *vs):
            return Gen([it.call(f, list(x), {}) for x in zip(*[list(it.iterate(v)) for v in vs])])

        @reg("filter")
        def _filter(f, v):
            return Gen([x for x in it.iterate(v) if it.truth(x if f is None else it.call(f, [x], {}))])

        @reg("reversed")
        def _rev(v):
            return Gen(list(it.iterate(v))[::-1])

        @reg("iter")
        def _iter(v):
            if isinstance(v, Gen):
                return v
            return Gen(it.iterate(v))

        @reg("next")
        def _next(g, *d):
            for x in g:
                return x
            if d:
                return d[0]
            raise PyErr("StopIteration", "")

        @reg("sorted")
        def _sorted(v, key=None, reverse=False):
            xs = list(v) if isinstance(v, (set, frozenset)) else list(it.iterate(v))
            return self.sort(xs, key, reverse)

        def extremum(kind):
            def f(*a, key=None, default=MISSING):
                xs = list(it.iterate(a[0])) if len(a) == 1 else list(a)
                if not xs:
                    if default is not MISSING:
                        return default
                    raise PyErr("ValueError", f"{kind}() arg is an empty sequence")
                if key is None and all(A.is_num(x) for x in xs) and any(isinstance(x, N.Node) for x in xs):
                    return sc(N.nary(kind, [A.to_node(x) for x in xs]))
                if key is None and any(isinstance(x, Arr) for x in xs):
                    xs = [sc(A.to_node(x)) for x in xs]
                    return sc(N.nary(kind, [A.to_node(x) for x in xs]))
                best = xs[0]
                kb = it.call(key, [best], {}) if key is not None else best
                for x in xs[1:]:
                    kx = it.call(key, [x], {}) if key is not None else x
                    c = self.compare("Gt" if kind == "max" else "Lt", kx, kb)
                    if it.truth(c):
                        best, kb = x, kx
                return best

            return f

        b["max"] = Native("max", extremum("max"))
        b["min"] = Native("min", extremum("min"))

        @reg("sum")
        def _sum(v, start=0):
            acc = start
            for x in it.iterate(v):
                acc = it.binop("Add", acc, x)
            return acc

        @reg("abs")
        def _abs(v):
            if isinstance(v, HOSTNUM):
                return abs(v)
            if isinstance(v, Aff):
                return v if v.sign() > 0 else -v
            return elementwise(N.absolute, v)

        @reg("any")
        def _any(v):
            r = False
            for x in it.iterate(v):
                if isinstance(x, N.Node) and x.const is None:
                    r = N.truthy(x) if r is False else N.lor(r, x)
                elif it.truth(x):
                    return True
            return r

        @reg("all")
        def _all(v):
            r = True
            for x in it.iterate(v):
                if isinstance(x, N.Node) and x.const is None:
                    r = N.truthy(x) if r is True else N.land(r, x)
                elif not it.truth(x):
                    return False
            return r

        @reg("isinstance")
        def _isinst(v, t):
            return self.isinstance_(v, t)

        @reg("issubclass")
        def _issub(c, t):
            ts = t if isinstance(t, tuple) else (t,)
            if isinstance(c, AClass):
                return any(x in c.mro for x in ts)
            return any(isinstance(x, type) and issubclass(c, x) for x in ts)

        @reg("callable")
        def _callable(v):
            if isinstance(v, (AFunc, Bound, Native, LruCached, AClass, Partial, type)):
                return True
            if isinstance(v, AObj):
                return v.cls.lookup("__call__")[0] is not MISSING
            return False

        @reg("hasattr")
        def _hasattr(o, n):
            try:
                it.getattr(o, n)
                return True
            except PyErr as e:
                if e.kind == "AttributeError":
                    return False
                raise

        @reg("getattr")
        def _getattr(o, n, *d):
            try:
                return it.getattr(o, n)
            except PyErr as e:
                if d and e.kind == "AttributeError":
                    return d[0]
                raise

        @reg("setattr")
        def _setattr(o, n, v):
            it.setattr(o, n, v)

        @reg("delattr")
        def _delattr(o, n):
            it.delkey(o.attrs, n)

        @reg("print")
        def _print(*a, **k):
            it.event("print", a)

        @reg("id")
        def _id(o):
            if isinstance(o, AObj):
                return o.uid
            return id(o)

        @reg("hash")
        def _hash(o):
            if isinstance(o, AObj):
                f, _ = o.cls.lookup("__hash__")
                if f is not MISSING:
                    return it.call(Bound(f, o), [], {})
                return o.uid
            return hash(it.hashable(o))

        @reg("repr")
        def _repr(o):
            return self.to_repr(o)

        @reg("format")
        def _format(o, s=""):
            return self.fmt(o, s)

        @reg("round")
        def _round(v, nd=None):
            if isinstance(v, HOSTNUM):
                return round(v) if nd is None else round(v, nd)
            return elementwise(lambda x: N.uf(f"round{nd}", x), v)

        @reg("divmod")
        def _divmod(a, c):
            return (self.binop("FloorDiv", a, c), self.binop("Mod", a, c))

        @reg("pow")
        def _pow(a, c):
            return self.binop("Pow", a, c)

        @reg("ord")
        def _ord(c):
            return ord(c)

        @reg("chr")
        def _chr(c):
            return chr(c)

        @reg("vars")
        def _vars(o):
            return it.getattr(o, "__dict__")

        @reg("open")
        def _open(path, mode="r", *a, **k):
            return self.fs_open(path, mode)

        @reg("property")
        def _property(f, fset=None):
            return Property(f, fset)

        @reg("staticmethod")
        def _static(f):
            return StaticM(f)

        @reg("classmethod")
        def _classm(f):
            return ClassM(f)

        @reg("input")
        def _input(*a):
            return Opaque("input")

        @reg("super")
        def _super(c=None, o=None):
            return SuperProxy(c, o)

        return b

    def sort(self, xs, key=None, reverse=False):
        it = self.it
        import functools

        ks = [(it.call(key, [x], {}) if key is not None else x, x) for x in xs]

        def cmpf(p, q):
            a, c = p[0], q[0]
            if it.truth(self.compare("Lt", a, c)):
                return -1
            if it.truth(self.compare("Lt", c, a)):
                return 1
            return 0

        ks.sort(key=functools.cmp_to_key(cmpf), reverse=bool(reverse))
        return [x for _, x in ks]

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(v, Phi):
            a, b = self.isinstance_(v.a, t), self.isinstance_(v.b, t)
            if a == b:
                return a
            return v.cond if a else N.lnot(v.cond)
        if isinstance(t, AClass):
            return isinstance(v, AObj) and t in v.cls.mro
        if isinstance(t, TypeModel):
            return t.pred(v)
        if isinstance(t, type):
            if t is int:
                return isinstance(v, (int, Aff))
            if t is float:
                return isinstance(v, (Fraction, N.Node))
            if t is bool:
                return isinstance(v, bool)
            if t is object:
                return True
            if t is type:
                return isinstance(v, (type, AClass, TypeModel))
            if t in (str, tuple, list, dict, set, frozenset, slice, bytes):
                return isinstance(v, t)
            if t is complex:
                return False
            if issubclass(t, BaseException):
                return isinstance(v, ExcVal) and issubclass(getattr(_bi, v.kind, Exception), t)
            return isinstance(v, t)
        if isinstance(t, Native) and t.name == "Callable":
            return self.builtins["callable"].fn(v)
        if isinstance(t, Native):
            n = {"range": range}.get(t.name)
            if n:
                return isinstance(v, n)
        if isinstance(t, Opaque):
            if isinstance(v, Opaque):
                return N.truthy(N.leaf(("opaque-isinstance", v.name, t.name)))
            nm = t.name.rsplit(".", 1)[-1]
            if nm in ("Callable",):
                return self.builtins["callable"].fn(v)
            if nm in ("Iterable", "Sequence"):
                return isinstance(v, (list, tuple, Arr, str, dict, set, Gen, range))
            if nm in ("Mapping",):
                return isinstance(v, dict)
            return False
        raise PyErr("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")

    def construct(self, t, args, kwargs):
        it = self.it
        if isinstance(t, type) and issubclass(t, BaseException):
            return ExcVal(t.__name__, self.to_str(args[0]) if args else "")
        if t is int:
            if not args:
                return 0
            v = args[0]
            if isinstance(v, Arr):
                v = sc(A.to_node(v))
            if isinstance(v, Fraction):
                return int(v)
            if isinstance(v, (int, Aff)):
                return int(v) if isinstance(v, bool) else v
            if isinstance(v, N.Node):
                if N.isbool(v):
                    return v
                return N.uf("trunc", v)
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError as e:
                    raise PyErr("ValueError", str(e))
            if isinstance(v, Opaque):
                return N.leaf(("opaque", v.name))
            raise PyErr("TypeError", f"int() argument must be a number, not '{tname(v)}'")
        if t is float:
            if not args:
                return Fraction(0)
            v = args[0]
            if isinstance(v, str):
                if v.lstrip("+-") in ("inf", "infinity", "Infinity"):
                    return N.inf(-1 if v.startswith("-") else 1)
                if v.lower() == "nan":
                    return N.leaf("nan")
                return Fraction(v)
            if isinstance(v, HOSTNUM):
                return Fraction(v)
            if isinstance(v, Opaque):
                return N.leaf(("opaque", v.name))
            if v is None:
                raise PyErr("TypeError", "float() argument must be a string or a real number, not 'NoneType'")
            return sc(A.to_node(v))
        if t is bool:
            if not args:
                return False
            v = args[0]
            if isinstance(v, N.Node):
                return A.simplify_bool(N.truthy(v))
            if isinstance(v, Arr) and all(s == 1 for s in v.shape):
                return A.simplify_bool(N.truthy(A.to_node(v)))
            return it.truth(v)
        if t is str:
            return self.to_str(args[0]) if args else ""
        if t is tuple:
            return tuple(it.iterate(args[0])) if args else ()
        if t is list:
            return list(it.iterate(args[0])) if args else []
        if t is set or t is frozenset:
            return t(it.hashable(x) for x in it.iterate(args[0])) if args else t()
        if t is dict:
            d = {}
            if args:
                if isinstance(args[0], dict):
                    d.update(args[0])
                else:
                    for kv in it.iterate(args[0]):
                        k, v = it.iterate(kv)
                        d[it.hashable(k)] = v
            d.update(kwargs)
            return d
        if t is slice:
            return slice(*args)
        if t is object:
            return Opaque("object")
        if t is type and len(args) == 1:
            v = args[0]
            if isinstance(v, AObj):
                return v.cls
            return type(v)
        raise Unsupported(f"construction of {t}")

    # ----------------------------------------------------------------- attributes of host values
    def getattr(self, o, name):
        it = self.it
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, A.Selection):
            raise Unsupported(f"attribute {name} of a masked selection")
        if isinstance(o, N.Node):
            return self.node_attr(o, name)
        if isinstance(o, Opaque):
            return Opaque(f"{o.name}.{name}")
        if isinstance(o, (HOSTNUM, Aff)):
            if isinstance(o, Fraction) or name in ("item", "shape", "ndim", "copy", "astype", "reshape", "dtype", "max", "min", "sum"):
                return self.node_attr(A.to_node(o), name, o)
            if name == "real":
                return o
            raise PyErr("AttributeError", f"'{tname(o)}' object has no attribute '{name}'")
        if isinstance(o, str):
            if not hasattr(o, name):
                raise PyErr("AttributeError", f"'str' object has no attribute '{name}'")

            def sm(*a, **k):
                if name == "join":
                    return o.join(self.to_str(x) if not isinstance(x, Opaque) else f"<{x.name}>" for x in it.iterate(a[0]))
                if name == "format":
                    return o.format(*[self.hostify(x) for x in a], **{kk: self.hostify(x) for kk, x in k.items()})
                try:
                    return getattr(o, name)(*a, **k)
                except (ValueError, TypeError) as e:
                    raise PyErr(type(e).__name__, str(e))

            return Native(f"str.{name}", sm)
        if isinstance(o, list):
            return self.list_attr(o, name)
        if isinstance(o, dict):
            return self.dict_attr(o, name)
        if isinstance(o, (set, frozenset)):
            return self.set_attr(o, name)
        if isinstance(o, tuple):
            if name in getattr(o, "fields", ()):
                return o[o.fields.index(name)]
            if hasattr(o, "fields") and name == "_fields":
                return tuple(o.fields)
            if hasattr(o, "fields") and name == "_asdict":
                return Native(name, lambda: dict(zip(o.fields, o)))
            if hasattr(o, "fields") and name == "_replace":
                return Native(name, lambda **k: type(o)(o.nm, o.fields, [k.get(f, v) for f, v in zip(o.fields, o)]))
            if name in ("index", "count"):
                return Native(name, lambda x: self.list_attr(list(o), name).fn(x))
            raise PyErr("AttributeError", f"'tuple' object has no attribute '{name}'")
        if isinstance(o, slice):
            if name in ("start", "stop", "step"):
                return getattr(o, name)
        if isinstance(o, AFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qual
            if name == "__doc__":
                return None
            if name == "__wrapped__":
                raise PyErr("AttributeError", name)
            raise PyErr("AttributeError", f"'function' object has no attribute '{name}'")
        if isinstance(o, LruCached):
            if name in ("cache_clear",):
                return Native("cache_clear", lambda: o.memo.clear())
            if name in ("__wrapped__",):
                return o.fn
            return self.getattr(o.fn, name)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.fn
            return it.getattr(o.fn, name)
        if isinstance(o, Property):
            if name == "setter":
                return Native("setter", lambda f: Property(o.fget, f))
            if name == "getter":
                return Native("getter", lambda f: Property(f, o.fset))
        if isinstance(o, (Native, type)):
            if name in ("__name__", "__qualname__"):
                return o.name if isinstance(o, Native) else o.__name__
            if isinstance(o, Native) and name in getattr(o, "attrs", {}):
                return o.attrs[name]
            if o is dict and name == "fromkeys":
                return Native("fromkeys", lambda ks, v=None: {it.hashable(k): v for k in it.iterate(ks)})
            if o is str or o is list or o is dict:
                return Native(f"{o.__name__}.{name}", lambda s, *a, **k: it.call(it.getattr(s, name), list(a), k))
            if isinstance(o, TypeModel) or isinstance(o, Native):
                sub = getattr(o, "sub", None)
                if sub and name in sub:
                    return sub[name]
                if isinstance(o, TypeModel):
                    return Opaque(f"{o.name}.{name}")
                if name in ("accumulate", "at", "outer", "reduceat", "reduce", "nin", "nout", "types") and o.name.startswith("numpy."):
                    raise Unsupported(f"{o.name}.{name}")
            raise PyErr("AttributeError", f"'{o}' has no attribute '{name}'")
        if isinstance(o, ExcVal):
            if name == "args":
                return (o.msg,)
            return Opaque(f"exc.{name}")
        if isinstance(o, Phi):
            return it.merge(o.cond, it.getattr(o.a, name), it.getattr(o.b, name))
        if o is None:
            raise PyErr("AttributeError", f"'NoneType' object has no attribute '{name}'")
        if o is NotImplemented or o is Ellipsis:
            raise PyErr("AttributeError", f"'{tname(o)}' object has no attribute '{name}'")
        if hasattr(o, "model_getattr"):
            return o.model_getattr(it, name)
        if isinstance(o, (type({}.keys()), type({}.items()), type({}.values()))):
            if name == "isdisjoint":
                return Native(name, lambda x: o.isdisjoint(x))
        if isinstance(o, Gen):
            if name == "__next__":
                return Native("__next__", lambda: self.builtins["next"].fn(o))
        raise PyErr("AttributeError", f"'{tname(o)}' object has no attribute '{name}'")

    def list_attr(self, o, name):
        it = self.it

        def mut(f):
            def g(*a, **k):
                it.check_frozen(o)
                it.touch(o)
                return f(*a, **k)

            return Native(f"list.{name}", g)

        if hasattr(o, "maxlen"):
            def cut(f, end):
                def g(*a):
                    f(*a)
                    while o.maxlen is not None and len(o) > o.maxlen:
                        del o[end]

                return mut(g)

            if name in ("append", "appendleft"):
                return cut((lambda x: list.append(o, x)) if name == "append" else (lambda x: list.insert(o, 0, x)), 0 if name == "append" else -1)
            if name == "popleft":
                def popleft():
                    if not o:
                        raise PyErr("IndexError", "pop from an empty deque")
                    return o.pop(0)

                return mut(popleft)
            if name == "extend":
                return cut(lambda x: o.extend(list(it.iterate(x))), 0)
            if name == "maxlen":
                return o.maxlen
            if name in ("rotate", "extendleft"):
                raise Unsupported(f"deque.{name}")
        if name == "append":
            return mut(lambda x: o.append(x))
        if name == "extend":
            return mut(lambda x: o.extend(list(it.iterate(x))))
        if name == "insert":
            return mut(lambda i, x: o.insert(as_int(i), x))
        if name == "pop":
            def pop(i=-1):
                if not o:
                    raise PyErr("IndexError", "pop from empty list")
                i = as_int(i)
                if not -len(o) <= i < len(o):
                    raise PyErr("IndexError", "pop index out of range")
                return o.pop(i)

            return mut(pop)
        if name == "remove":
            def rem(x):
                for i, y in enumerate(o):
                    if y is x or it.truth(self.compare("Eq", x, y)):
                        del o[i]
                        return
                raise PyErr("ValueError", "list.remove(x): x not in list")

            return mut(rem)
        if name == "clear":
            return mut(lambda: o.clear())
        if name == "reverse":
            return mut(lambda: o.reverse())
        if name == "sort":
            def srt(key=None, reverse=False):
                o[:] = self.sort(list(o), key, reverse)

            return mut(srt)
        if name == "copy":
            return Native("copy", lambda: list(o))
        if name == "index":
            def idx(x):
                for i, y in enumerate(o):
                    if y is x or it.truth(self.compare("Eq", x, y)):
                        return i
                raise PyErr("ValueError", "x not in list")

            return Native("index", idx)
        if name == "count":
            return Native("count", lambda x: sum(1 for y in o if y is x or it.truth(self.compare("Eq", x, y))))
        raise PyErr("AttributeError", f"'list' object has no attribute '{name}'")

    def dict_attr(self, o, name):
        it = self.it
        if name == "keys":
            return Native("keys", lambda: o.keys())
        if name == "values":
            return Native("values", lambda: list(o.values()))
        if name == "items":
            return Native("items", lambda: list(o.items()))
        if name == "get":
            return Native("get", lambda k, d=None: o.get(it.hashable(k), d))
        if name == "copy":
            return Native("copy", lambda: dict(o))
        if name == "pop":
            def pop(k, *d):
                k = it.hashable(k)
                if k in o:
                    v = o[k]
                    it.check_frozen(o)
                    it.touch(o)
                    del o[k]
                    return v
                if d:
                    return d[0]
                raise PyErr("KeyError", repr(k))

            return Native("pop", pop)
        if name == "setdefault":
            def sd(k, d=None):
                k = it.hashable(k)
                if k not in o:
                    it.setkey(o, k, d)
                return o[k]

            return Native("setdefault", sd)
        if name == "update":
            def up(*a, **k):
                it.check_frozen(o)
                it.touch(o)
                for x in a:
                    if isinstance(x, dict):
                        o.update(x)
                    else:
                        for kk, vv in it.iterate(x):
                            o[kk] = vv
                o.update(k)

            return Native("update", up)
        if name == "clear":
            def cl():
                it.touch(o)
                o.clear()

            return Native("clear", cl)
        raise PyErr("AttributeError", f"'dict' object has no attribute '{name}'")

    def set_attr(self, o, name):
        it = self.it
        if name in ("add", "discard", "remove", "clear", "update"):
            def f(*a):
                it.touch(o)
                if name == "update":
                    for x in a:
                        o.update(it.hashable(y) for y in it.iterate(x))
                    return
                if name == "remove" and it.hashable(a[0]) not in o:
                    raise PyErr("KeyError", repr(a[0]))
                getattr(o, name)(*[it.hashable(x) for x in a])

            return Native(name, f)
        if name in ("issubset", "issuperset", "union", "intersection", "difference", "symmetric_difference", "isdisjoint", "copy"):
            def g(*a):
                return getattr(o, name)(*[x if isinstance(x, (set, dict, type({}.keys()))) else list(it.iterate(x)) for x in a])

            return Native(name, g)
        raise PyErr("AttributeError", f"'set' object has no attribute '{name}'")

    def node_attr(self, n, name, orig=None):
        v = orig if orig is not None else n
        if name == "item":
            return Native("item", lambda: v)
        if name in ("copy", "__copy__"):
            return Native(name, lambda: v)
        if name in ("astype",):
            return Native(name, lambda *a, **k: v)
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "real":
            return v
        if name == "T":
            return v
        if name == "dtype":
            return Opaque("dtype")
        if name in ("max", "min", "sum", "mean", "any", "all", "squeeze"):
            return Native(name, lambda *a, **k: v)
        if name == "reshape":
            return Native(name, lambda *a, **k: self.np.ns["reshape"].fn(A.from_list(v), *a, **k))
        if name == "tolist":
            return Native(name, lambda: v)
        if name == "is_integer":
            return Native(name, lambda: orig.denominator == 1 if isinstance(orig, Fraction) else Unsupported("is_integer"))
        if name == "get":
            return Native(name, lambda: v)
        raise PyErr("AttributeError", f"'float' object has no attribute '{name}'")

    def arr_attr(self, a, name):
        np = self.np.ns
        if name == "shape":
            return tuple(a.shape)
        if name == "ndim":
            return a.ndim
        if name == "size":
            v = 1
            for s in a.shape:
                if isinstance(s, Aff) and isinstance(v, Aff):
                    return A.simplify_scalar(_prod_node(a.shape))
                v = v * s
            return v
        if name == "dtype":
            return DType(a.dtype)
        if name == "T":
            return np["transpose"].fn(a)
        if name == "real":
            return a
        if name == "flat" or name == "data" or name == "strides":
            raise Unsupported(f"ndarray.{name}")
        if name == "copy":
            return Native("copy", lambda *x, **k: a.copy())
        if name == "fill":
            def fl(v):
                a.setitem(Ellipsis, v)

            return Native("fill", fl)
        if name == "item":
            def item(*i):
                if i:
                    return a.getitem(tuple(i))
                return sc(A.to_node(a))

            return Native("item", item)
        if name == "tolist":
            def tl(x=a):
                if x.ndim == 0:
                    return sc(x.elem(()))
                return [tl(y) if isinstance(y, Arr) else y for y in self.it.iterate(x)]

            return Native("tolist", tl)
        if name == "astype":
            return Native("astype", lambda dt, **k: A.astype(a, dtype_of(dt)))
        if name == "reshape":
            def rs(*s, **k):
                if len(s) == 1:
                    return np["reshape"].fn(a, s[0])
                return np["reshape"].fn(a, tuple(s))

            return Native("reshape", rs)
        if name in ("max", "min", "sum", "prod", "any", "all", "mean", "argmin", "argmax", "squeeze", "flatten", "ravel", "transpose", "swapaxes", "clip", "cumsum", "take", "repeat", "round", "std", "dot", "nonzero", "argsort"):
            if name == "transpose":
                return Native(name, lambda *ax: np[name].fn(a, *( [tuple(ax)] if len(ax) > 1 else ax)))
            f = np.get(name)
            if f is None:
                raise Unsupported(f"ndarray.{name}")
            return Native(name, lambda *x, **k: f.fn(a, *x, **k))
        if name == "view":
            return Native("view", lambda *x: a.getitem(Ellipsis) if not x else (_ for _ in ()).throw(Unsupported("ndarray.view with a type")))
        if name == "get":
            if self.it.cupy:
                return Native("get", lambda: a.copy())
            raise PyErr("AttributeError", "'numpy.ndarray' object has no attribute 'get'")
        if name in ("__name__",):
            raise PyErr("AttributeError", name)
        if name == "__array__":
            return Native("__array__", lambda *x: a)
        if name in ("min_", "shape_"):
            pass
        import numpy as _np

        if hasattr(_np.ndarray, name):
            raise Unsupported(f"ndarray.{name}")
        raise PyErr("AttributeError", f"'numpy.ndarray' object has no attribute '{name}'")

    # ----------------------------------------------------------------- modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        from . import libmods

        m = libmods.make(self, name)
        self.mods[name] = m
        return m

    # ----------------------------------------------------------------- file system model
    def fs_open(self, path, mode):
        path = getattr(path, "s", path)
        self.it.event("open", path, mode)
        if self.it.vfs is not None:
            path = self.it.vfs.open(path, mode)
        return FileObj(path, mode)


class FileObj:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.pos = 0

    def __repr__(self):
        return f"<file {self.path!r} {self.mode}>"

    def model_enter(self, it):
        return self

    def model_exit(self, it, e):
        it.event("close", self.path, self.mode)
        return False

    def model_getattr(self, it, name):
        if name in ("write", "writelines"):
            def w(x):
                it.event("write", self.path, self.mode, x)
                if it.vfs is not None:
                    it.vfs.append(self.path, ("pickle", x.obj) if type(x).__name__ == "PickleBytes" else ("text", x))

            return Native(name, w)
        if name in ("read", "readline", "readlines"):
            def r(*a):
                it.event("read", self.path, self.mode)
                if it.vfs is not None and name == "read":
                    c = it.vfs.tree[it.vfs.norm(self.path)]
                    if c and all(k == "text" and isinstance(x, str) for k, x in c):
                        return "".join(x for _, x in c)
                    if len(c) == 1 and c[0][0] == "pickle":
                        from .vfs import PickleBytes

                        return PickleBytes(c[0][1])
                return Opaque(f"read({self.path})")

            return Native(name, r)
        if name == "close":
            return Native(name, lambda: it.event("close", self.path, self.mode))
        if name in ("flush", "seek"):
            return Native(name, lambda *a: None)
        if name == "name":
            return self.path
        return Opaque(f"file.{name}")

    def model_iter(self, it):
        it.event("read", self.path, self.mode)
        return [Opaque("line")]


class DType:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return dtype_of(o) == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return {"f": "float64", "i": "int64", "b": "bool", "s": "float32"}.get(self.k, self.k)

    def model_getattr(self, it, name):
        if name == "kind":
            return "f" if self.k == "s" else self.k
        if name == "name":
            return repr(self)
        return Opaque(f"dtype.{name}")


def dtype_of(dt):
    if dt is None:
        return "f"
    if isinstance(dt, DType):
        return dt.k
    if dt is float:
        return "f"
    if dt is int:
        return "i"
    if dt is bool:
        return "b"
    if isinstance(dt, str):
        if dt.lstrip("<>=|") in ("float32", "float16", "f", "f4", "f2", "e", "single", "half"):
            return "s"
        if dt.startswith(("float", "f", "d", "<f")):
            return "f"
        if dt.startswith(("int", "i", "uint")):
            return "i"
        if dt.startswith(("bool", "?")):
            return "b"
    if isinstance(dt, TypeModel):
        n = dt.name
        if n.rsplit(".", 1)[-1] in ("float32", "float16", "single", "half"):
            return "s"
        if "float" in n or n == "double":
            return "f"
        if "int" in n:
            return "i"
        if "bool" in n:
            return "b"
        if "object" in n:
            return "o"
    if isinstance(dt, Opaque):
        return "f"
    raise Unsupported(f"dtype {dt!r}")


def _prod_node(shape):
    n = N.ONE
    for s in shape:
        n = N.mul(n, A.to_node(s))
    return n
