"""Models of numpy / scipy.ndimage / stdlib modules for the abstract interpreter."""
import itertools
import math
import os as _os
from fractions import Fraction

from . import arrays as A
from . import nodes as N
from .aff import Aff, as_int
from .aff import sym as affsym
from .arrays import Arr, PyErr, Unsupported, elementwise
from .interp import (
    AClass,
    AFunc,
    AObj,
    Bound,
    ExcVal,
    Gen,
    LruCached,
    MISSING,
    Module,
    Native,
    Opaque,
    Partial,
    Phi,
    Property,
    StaticM,
    ClassM,
    TypeModel,
    tname,
)
from .lib import DType, dtype_of, sc
from .vfs import PickleBytes, path_module


class NativeMethod(Native):
    """native function that binds like a method"""


class CtxMgr:
    def __init__(self, name, enter=None, suppress=()):
        self.name = name
        self.val = enter
        self.suppress = suppress

    def model_enter(self, it):
        return self.val

    def model_exit(self, it, e):
        if e is not None and self.suppress:
            import builtins as _bi

            k = getattr(_bi, e.kind, Exception)
            return any(isinstance(s, type) and issubclass(k, s) for s in self.suppress)
        return False

    def __repr__(self):
        return f"<{self.name}>"


class Record:
    """simple attribute record (signature, parameter ...)"""

    def __init__(self, name, /, **kw):
        self.name = name
        self.kw = kw

    def model_getattr(self, it, name):
        if name in self.kw:
            return self.kw[name]
        raise PyErr("AttributeError", f"'{self.name}' object has no attribute '{name}'")

    def __repr__(self):
        return f"<{self.name}>"


def asarr(v, it=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (Gen, range)):
        v = list(v)
    if isinstance(v, Opaque):
        n = N.leaf(("opaque", v.name))
        return A.from_fn((), lambda idx: n)
    if isinstance(v, A.Selection):
        raise Unsupported("masked selection used as an array")
    if isinstance(v, (str, AObj, dict)) or v is None:
        raise Unsupported(f"object array from {tname(v)}")
    return A.from_list(v)


def out0(a):
    if isinstance(a, Arr) and a.ndim == 0:
        return sc(a.elem(()))
    return a


def permute(a, order):
    """view with out axis k = in axis order[k]"""
    inv = {src: k for k, src in enumerate(order)}
    spec = tuple(s if s[0] == "c" else ("a", inv[s[1]], s[2], s[3]) for s in a.spec)
    return Arr(a.buf, [a.shape[o] for o in order], spec)


def node_floor(n):
    if n.const is not None:
        return N.const(math.floor(n.const))
    return N.uf("floor", n)


def node_ceil(n):
    if n.const is not None:
        return N.const(math.ceil(n.const))
    return N.neg(N.uf("floor", N.neg(n)))


def node_round(n):
    if n.const is not None:
        return N.const(round(n.const))
    return N.uf("round", n)


def node_trig(name):
    odd = name in ("sin", "tan", "arcsin", "arctan", "sinh", "tanh", "arcsinh", "cbrt")
    even = name in ("cos", "cosh")
    at0 = {"sin": 0, "tan": 0, "cos": 1, "exp": 1, "log": None, "sinh": 0, "tanh": 0, "cosh": 1, "arctan": 0, "arcsin": 0}

    def f(n):
        if n.const is not None and n.const == 0 and at0.get(name) is not None:
            return N.const(at0[name])
        if name == "log" and n.const == 1:
            return N.ZERO
        if odd or even:
            # parity-normalise on the canonical representative of {n, -n}
            m = N.neg(n)
            k1, k2 = bytes(n.fp.tobytes()), bytes(m.fp.tobytes())
            if k2 < k1:
                r = N.uf(name, m)
                return N.neg(r) if odd else r
        return N.uf(name, n, pos=1 if name in ("exp", "cosh", "exp2") else None)

    return f


def make(lib, name):
    it = lib.it
    top = name.split(".")[0]
    if top in ("cupy", "cupyx"):
        if not it.cupy:
            raise PyErr("ModuleNotFoundError", f"No module named '{top}'")
        if name == "cupy":
            m = Module("cupy", dict(np_module(lib).ns))
            m.ns["asnumpy"] = Native("cupy.asnumpy", lambda a, *r, **k: asarr(a).copy() if isinstance(a, Arr) else a)
            m.getter = np_missing
            return m
        if name == "cupyx.scipy.ndimage":
            return ndimage_module(lib)
        return Module(name, opaque=True)
    f = {
        "numpy": np_module,
        "scipy.ndimage": ndimage_module,
        "functools": functools_module,
        "dataclasses": dataclasses_module,
        "itertools": itertools_module,
        "abc": abc_module,
        "inspect": inspect_module,
        "json": json_module,
        "pickle": pickle_module,
        "pathlib": path_module,
        "os": os_module,
        "os.path": lambda l: os_module(l).ns["path"],
        "shutil": shutil_module,
        "subprocess": subprocess_module,
        "time": time_module,
        "math": math_module,
        "copy": copy_module,
        "numbers": numbers_module,
        "warnings": warnings_module,
        "contextlib": contextlib_module,
        "operator": operator_module,
        "collections": collections_module,
        "types": types_module,
        "tqdm": tqdm_module,
        "tqdm.auto": tqdm_module,
    }.get(name)
    if f is not None:
        return f(lib)
    if name.startswith("numpy."):
        m = np_module(lib)
        for p in name.split(".")[1:]:
            m = it.getattr(m, p)
        return m
    if name == "scipy":
        m = Module("scipy", {"ndimage": lib.module("scipy.ndimage")}, opaque=True)
        return m
    if top in ("typing", "typing_extensions", "matplotlib", "tqdm", "__future__", "logging", "sys", "random",
               "datetime", "collections", "enum", "argparse", "textwrap", "re", "glob", "tempfile",
               "traceback", "mpl_toolkits", "scipy", "pandas", "h5py", "string", "platform", "socket", "uuid", "hashlib",
               "weakref", "threading", "multiprocessing", "concurrent", "gc", "atexit", "signal", "io", "struct"):
        return Module(name, opaque=True)
    raise PyErr("ModuleNotFoundError", f"No module named '{name}'")


def np_missing(name):
    import numpy

    if hasattr(numpy, name):
        raise Unsupported(f"numpy.{name}")
    return MISSING


# ===================================================================== numpy
def np_module(lib):
    if lib.np is not None:
        return lib.np
    it = lib.it
    ns = {}
    m = Module("numpy", ns)
    m.getter = np_missing
    lib.np = m

    def reg(*names):
        def d(f):
            for n in names:
                ns[n] = Native(f"numpy.{n}", f)
            return f

        return d

    # ------------------------------------------------------------ ufuncs
    def ufunc(name, f, nin=2, dtype=None):
        def g(*ops, out=None, where=True, dtype_=None, **kw):
            dt0 = kw.pop("dtype", None)
            for k in kw:
                if k not in ("casting", "order", "subok"):
                    raise PyErr("TypeError", f"{name}() got an unexpected keyword argument '{k}'")
            if len(ops) == nin + 1:
                out = ops[-1]
                ops = ops[:-1]
            if len(ops) != nin:
                raise PyErr("TypeError", f"{name}() takes from {nin} to {nin + 1} positional arguments but {len(ops)} were given")
            if isinstance(out, tuple):
                out = out[0]
            ops2 = []
            for o in ops:
                if isinstance(o, (list, tuple, range, Gen)):
                    o = A.from_list(list(o))
                elif isinstance(o, Opaque):
                    o = N.leaf(("opaque", o.name))
                elif isinstance(o, Phi):
                    p = o
                    ia = [p.a if q is p else q for q in ops]
                    ib = [p.b if q is p else q for q in ops]
                    return it.merge(p.cond, g(*ia, where=where), g(*ib, where=where))
                elif isinstance(o, (AObj, str, dict)) or o is None:
                    raise PyErr("TypeError", f"ufunc '{name}' not supported for the input types ({tname(o)})")
                ops2.append(o)
            dt = dtype
            if callable(dt):
                dt = dt(ops2)
            r = elementwise(f, *ops2, dtype=dt)
            if where is not True:
                if out is None:
                    u = A.empty(r.shape if isinstance(r, Arr) else ())
                    r = elementwise(lambda c, x, y: N.where(c, x, y), where, r, u)
                else:
                    r = elementwise(lambda c, x, y: N.where(c, x, y), where, r, out)
            if out is not None:
                rs = r.shape if isinstance(r, Arr) else ()
                if not isinstance(out, Arr):
                    raise PyErr("TypeError", "return arrays must be of ArrayType")
                A.broadcast_shapes(rs, out.shape)
                if len(rs) > out.ndim:
                    raise PyErr("ValueError", "non-broadcastable output operand")
                if out.dtype in "ib" and isinstance(r, Arr) and r.dtype in "fs":
                    raise PyErr("UFuncTypeError", "Cannot cast ufunc output")
                out.setitem(Ellipsis, r)
                return out
            return r

        nat = Native(f"numpy.{name}", g)
        nat.attrs = {}
        kind = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_or": "any", "logical_and": "all"}.get(name)
        if kind:
            nat.attrs["reduce"] = Native(f"numpy.{name}.reduce", lambda a, axis=0, keepdims=False, **k: A.reduce(kind, seqarr(a), axis, keepdims))
        ns[name] = nat
        return nat

    def seqarr(a):
        if isinstance(a, Arr):
            return a
        if isinstance(a, (Gen, range)):
            a = list(a)
        return A.from_list(a) if isinstance(a, (list, tuple)) else a

    FL = "f"
    ufunc("add", N.add)
    ufunc("subtract", N.sub)
    ufunc("multiply", N.mul)
    ufunc("divide", N.div, dtype=FL)
    ns["true_divide"] = ns["divide"]
    ufunc("power", N.power)
    ufunc("float_power", N.power, dtype=FL)
    ufunc("floor_divide", lambda x, y: node_floor(N.div(x, y)))
    ufunc("mod", lambda x, y: N.uf("mod", x, y))
    ns["remainder"] = ns["mod"]
    ufunc("maximum", lambda x, y: N.nary("max", (x, y)))
    ufunc("minimum", lambda x, y: N.nary("min", (x, y)))
    ns["fmax"], ns["fmin"] = ns["maximum"], ns["minimum"]
    ufunc("negative", N.neg, 1)
    ufunc("positive", lambda x: x, 1)
    ufunc("abs", N.absolute, 1)
    ns["absolute"] = ns["fabs"] = ns["abs"]
    ufunc("sign", N.sign, 1)
    ufunc("square", lambda x: N.mul(x, x), 1)
    ufunc("sqrt", N.sqrt, 1, FL)
    ufunc("reciprocal", lambda x: N.div(N.ONE, x), 1, FL)
    for nm in ("sin", "cos", "tan", "exp", "log", "log10", "log2", "tanh", "sinh", "cosh", "arctan", "arcsin", "arccos", "cbrt", "exp2", "expm1", "log1p", "arcsinh"):
        ufunc(nm, node_trig(nm), 1, FL)
    ufunc("arctan2", lambda x, y: N.uf("arctan2", x, y), 2, FL)
    ufunc("hypot", lambda x, y: N.sqrt(N.add(N.mul(x, x), N.mul(y, y))), 2, FL)
    ufunc("copysign", lambda x, y: N.where(N.cmp("ge", y, N.ZERO), N.absolute(x), N.neg(N.absolute(x))), 2, FL)
    ufunc("heaviside", lambda x, y: N.where(N.cmp("gt", x, N.ZERO), N.ONE, N.where(N.eq(x, N.ZERO), y, N.ZERO)), 2, FL)
    ufunc("floor", node_floor, 1, FL)
    ufunc("ceil", node_ceil, 1, FL)
    ufunc("trunc", lambda x: N.const(int(x.const)) if x.const is not None else N.uf("trunc", x), 1, FL)
    ufunc("rint", node_round, 1, FL)
    ufunc("logical_and", N.land, 2, "b")
    ufunc("logical_or", N.lor, 2, "b")
    ufunc("logical_xor", lambda x, y: N.land(N.lor(x, y), N.lnot(N.land(x, y))), 2, "b")
    ufunc("logical_not", N.lnot, 1, "b")
    ns["bitwise_and"] = Native("numpy.bitwise_and", lambda a, b: lib.numop("BitAnd", a, b))
    ns["bitwise_or"] = Native("numpy.bitwise_or", lambda a, b: lib.numop("BitOr", a, b))
    ns["bitwise_xor"] = Native("numpy.bitwise_xor", lambda a, b: lib.numop("BitXor", a, b))
    ns["invert"] = Native("numpy.invert", lambda a: it.unary("Invert", a))
    ns["bitwise_not"] = ns["invert"]
    for nm, rel in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge")):
        ufunc(nm, lambda x, y, rel=rel: N.cmp(rel, x, y), 2, "b")
    ufunc("equal", N.eq, 2, "b")
    ufunc("not_equal", N.ne, 2, "b")
    ufunc("isnan", lambda x: N.ZERO if x.const is not None else N.truthy(N.uf("isnan", x)), 1, "b")
    ufunc("isinf", lambda x: N.ONE if x.op == "inf" else N.ZERO if x.const is not None else N.truthy(N.uf("isinf", x)), 1, "b")
    ufunc("isfinite", lambda x: N.ONE if x.const is not None else N.ZERO if x.op == "inf" else N.lnot(N.truthy(N.uf("notfinite", x))), 1, "b")
    ufunc("deg2rad", lambda x: N.div(N.mul(x, PI), N.const(180)), 1, FL)
    ns["radians"] = ns["deg2rad"]

    @reg("around", "round", "round_")
    def _round(a, decimals=0, out=None):
        d = as_int(decimals)
        return elementwise(lambda x: node_round(x) if d == 0 else N.uf(f"round{d}", x), a)

    @reg("clip")
    def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
        lo = a_min if a_min is not None else min
        hi = a_max if a_max is not None else max
        r = a
        if lo is not None:
            r = ns["maximum"].fn(r, lo)
        if hi is not None:
            r = ns["minimum"].fn(r, hi)
        if out is not None:
            out.setitem(Ellipsis, r)
            return out
        return r

    @reg("where")
    def _where(c, *xy):
        if len(xy) != 2:
            if len(xy) == 0:
                return _nonzero(c)
            raise PyErr("ValueError", "either both or neither of x and y should be given")
        a, b = xy
        a = A.from_list(list(a)) if isinstance(a, (list, tuple)) else a
        b = A.from_list(list(b)) if isinstance(b, (list, tuple)) else b
        if isinstance(c, (list, tuple)):
            c = A.from_list(list(c))
        if isinstance(c, bool):
            c = N.const(c)
        for o in (a, b):
            if isinstance(o, (str, AObj, dict)) or o is None:
                raise Unsupported("np.where on objects")
        ds = [x.dtype if isinstance(x, Arr) else A.scalar_dtype(x) for x in (a, b)]
        return elementwise(lambda k, x, y: N.where(k, x, y), c, a, b, dtype=A.join_dtype(*ds))

    @reg("select")
    def _select(conds, choices, default=0):
        r = default
        for c, v in reversed(list(zip(it.iterate(conds), it.iterate(choices)))):
            r = _where(c, v, r)
        return r

    @reg("nonzero")
    def _nonzero(c):
        c = asarr(c)
        if c.ndim == 1 and c.host_size():
            out = []
            for i in range(c.shape[0]):
                if it.truth(sc(c.elem((i,)))):
                    out.append(i)
            return (A.from_list(out, "i") if out else A.from_fn((0,), lambda i: N.ZERO, "i"),)
        raise Unsupported("np.nonzero of a symbolic array")

    # ------------------------------------------------------------ constants / types
    global PI
    PI = N.leaf("pi", pos=1)
    ns["pi"] = PI
    ns["e"] = N.uf("exp", N.ONE, pos=1)
    ns["inf"] = ns["Inf"] = N.inf(1)
    ns["nan"] = N.leaf("nan")
    ns["newaxis"] = None
    isarr = lambda v: isinstance(v, Arr)
    isflt = lambda v: isinstance(v, (Fraction, N.Node))
    isint = lambda v: isinstance(v, (int, Aff)) and not isinstance(v, bool)

    def nd_ctor(shape, dtype=None, **k):
        return A.empty(shape, dtype_of(dtype))

    ns["ndarray"] = TypeModel("numpy.ndarray", isarr, nd_ctor)
    conv = lambda dt: (lambda v=0: out0(A.astype(asarr(v), dt)) if isinstance(v, (Arr, list, tuple)) else lib.construct({"f": float, "i": int, "b": bool}[dt], [v], {}))
    for nm in ("float64", "double", "floating", "longdouble"):
        ns[nm] = TypeModel(f"numpy.{nm}", isflt, conv("f"))
    to_single = lambda v=0: out0(A.astype(asarr(v), "s")) if isinstance(v, (Arr, list, tuple)) else (lambda n: n.const if n.const is not None else n)(A.single(A.to_node(lib.construct(float, [v], {}))))
    for nm in ("float32", "float16", "single", "half"):
        ns[nm] = TypeModel(f"numpy.{nm}", isflt, to_single)
    for nm in ("int64", "int32", "integer", "int_", "intp", "int8", "uint8", "uint64", "uint32", "int16"):
        ns[nm] = TypeModel(f"numpy.{nm}", isint, conv("i"))
    ns["bool_"] = TypeModel("numpy.bool_", lambda v: isinstance(v, bool), conv("b"))
    ns["bool"] = ns["bool_"]
    ns["number"] = TypeModel("numpy.number", lambda v: isflt(v) or isint(v))
    ns["generic"] = TypeModel("numpy.generic", lambda v: isflt(v) or isint(v))
    ns["object_"] = TypeModel("numpy.object_", lambda v: False)
    ns["dtype"] = Native("numpy.dtype", lambda d: DType(dtype_of(d)))
    ns["errstate"] = Native("numpy.errstate", lambda **k: CtxMgr("errstate"))
    ns["seterr"] = Native("numpy.seterr", lambda **k: {})
    ns["set_printoptions"] = Native("numpy.set_printoptions", lambda **k: None)

    @reg("finfo")
    def _finfo(d=None):
        eps = Fraction(1, 2**52)
        return Record("finfo", eps=eps, tiny=Fraction(1, 10**300), max=N.leaf("floatmax", pos=1), min=N.neg(N.leaf("floatmax", pos=1)))

    # ------------------------------------------------------------ construction
    @reg("zeros")
    def _zeros(shape, dtype=None, order="C", **k):
        return A.full(shape, 0, dtype_of(dtype))

    @reg("ones")
    def _ones(shape, dtype=None, order="C", **k):
        return A.full(shape, 1, dtype_of(dtype))

    @reg("empty")
    def _empty(shape, dtype=None, order="C", **k):
        return A.empty(shape, dtype_of(dtype))

    @reg("full")
    def _full(shape, fill_value, dtype=None, order="C", **k):
        if isinstance(fill_value, (Arr, list, tuple)):
            r = A.empty(shape, dtype_of(dtype))
            r.setitem(Ellipsis, fill_value)
            return r
        dt = dtype_of(dtype) if dtype is not None else A.scalar_dtype(fill_value)
        return A.full(shape, fill_value, dt)

    def like(a):
        a = asarr(a)
        return a.shape, a.dtype

    @reg("zeros_like")
    def _zl(a, dtype=None, shape=None, **k):
        s, d = like(a)
        return A.full(shape if shape is not None else s, 0, dtype_of(dtype) if dtype is not None else d)

    @reg("ones_like")
    def _ol(a, dtype=None, shape=None, **k):
        s, d = like(a)
        return A.full(shape if shape is not None else s, 1, dtype_of(dtype) if dtype is not None else d)

    @reg("empty_like")
    def _el(a, dtype=None, shape=None, **k):
        s, d = like(a)
        return A.empty(shape if shape is not None else s, dtype_of(dtype) if dtype is not None else d)

    @reg("full_like")
    def _fl(a, fill_value, dtype=None, shape=None, **k):
        s, d = like(a)
        return _full(shape if shape is not None else s, fill_value, DType(dtype_of(dtype) if dtype is not None else d))

    @reg("array")
    def _array(v, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(v, (Gen, range)):
            v = list(v)
        if isinstance(v, (dict, AObj, str)) or v is None:
            raise Unsupported(f"np.array of {tname(v)}")
        if isinstance(v, Opaque):
            return Opaque(f"array({v.name})")
        if isinstance(v, (list, tuple)) and any(isinstance(x, (str, AObj)) for x in v):
            raise Unsupported("object array")
        if isinstance(v, Arr):
            r = v.copy() if copy else v
        else:
            r = A.from_list(v)
        if dtype is not None and dtype_of(dtype) != r.dtype:
            r = A.astype(r, dtype_of(dtype))
        while r.ndim < (as_int(ndmin) or 0):
            r = r.getitem((None, Ellipsis))
        return r

    @reg("asarray", "asanyarray", "ascontiguousarray", "asfarray")
    def _asarray(v, dtype=None, **k):
        if isinstance(v, Arr) and (dtype is None or dtype_of(dtype) == v.dtype):
            return v
        return _array(v, dtype)

    @reg("copy")
    def _copy(v, **k):
        return asarr(v).copy()

    @reg("atleast_1d")
    def _at1(v):
        v = asarr(v)
        return v if v.ndim else v.getitem((None, Ellipsis))

    @reg("arange")
    def _arange(*a, dtype=None):
        if len(a) == 1:
            st, sp, step = 0, a[0], 1
        elif len(a) == 2:
            st, sp, step = a[0], a[1], 1
        else:
            st, sp, step = a
        if all(isinstance(x, (int, Fraction)) for x in (st, sp, step)):
            n = max(0, math.ceil(Fraction(sp - st) / Fraction(step)))
        elif step == 1:
            n = sp - st
        elif step == -1:
            n = st - sp
        else:
            raise Unsupported("arange with symbolic extent")
        if not isinstance(n, (int, Aff)):
            raise Unsupported("arange with symbolic extent")
        dt = dtype_of(dtype) if dtype is not None else ("i" if all(isinstance(x, (int, Aff)) for x in (st, step)) else "f")
        s0, s1 = A.to_node(st), A.to_node(step)
        return A.from_fn((n,), lambda idx: N.add(s0, N.mul(A.to_node(idx[0]), s1)), dt)

    @reg("linspace")
    def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        n = as_int(num)
        if n is None:
            raise PyErr("TypeError", f"'{tname(num)}' object cannot be interpreted as an integer")
        s0, s1 = A.to_node(start), A.to_node(stop)
        den = N.sub(A.to_node(n), N.ONE) if endpoint else A.to_node(n)
        if den.const == 0:
            step = N.ZERO
        else:
            step = N.div(N.sub(s1, s0), den)
        r = A.from_fn((n,), lambda idx: N.add(s0, N.mul(A.to_node(idx[0]), step)))
        return (r, sc(step)) if retstep else r

    @reg("meshgrid")
    def _meshgrid(*xs, indexing="xy", sparse=False, copy=True):
        xs = [asarr(x) for x in xs]
        xs = [x if x.ndim else x.getitem((None,)) for x in xs]
        nd = len(xs)
        order = list(range(nd))
        if indexing == "xy" and nd >= 2:
            order[0], order[1] = 1, 0
        shape = [None] * nd
        for k, x in enumerate(xs):
            shape[order[k]] = x.shape[0]
        out = []
        for k, x in enumerate(xs):
            rd = x.reader()
            o = order[k]
            out.append(A.from_fn(tuple(shape) if not sparse else tuple(s if j == o else 1 for j, s in enumerate(shape)), lambda idx, rd=rd, o=o: rd((idx[o],)), x.dtype))
        return out

    @reg("eye", "identity")
    def _eye(n, M=None, **k):
        n = as_int(n)
        return A.from_fn((n, n if M is None else as_int(M)), lambda idx: N.const(int(idx[0] == idx[1])))

    # ------------------------------------------------------------ reductions
    def red(kind, *names):
        def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
            if isinstance(a, A.Selection):
                return sel_reduce(kind, a)
            r = A.reduce(kind, seqarr(a), axis, keepdims, initial, where)
            if out is not None:
                out.setitem(Ellipsis, r)
                return out
            if isinstance(r, (int, Fraction)) and kind in ("any", "all") and not isinstance(r, bool):
                return bool(r)
            return r

        for n in names:
            ns[n] = Native(f"numpy.{n}", f)

    def sel_reduce(kind, s):
        fn = s.elemfn or s.arr.reader()
        mask = s.mask
        raise Unsupported("reduction of a masked selection")

    red("sum", "sum", "nansum")
    red("prod", "prod")
    red("max", "max", "amax", "nanmax")
    red("min", "min", "amin", "nanmin")
    red("any", "any")
    red("all", "all")
    red("mean", "mean", "nanmean")

    @reg("average")
    def _average(a, axis=None, weights=None, **k):
        if weights is None:
            return ns["mean"].fn(a, axis)
        a, weights = asarr(a), asarr(weights)
        if axis is not None and weights.ndim == 1 and a.ndim > 1:
            ax = as_int(axis) % a.ndim
            num = ns["sum"].fn(lib.binop("Mult", a, weights.getitem(tuple(slice(None) if j == ax else None for j in range(a.ndim)))), ax)
            return lib.binop("Div", num, ns["sum"].fn(weights))
        num = ns["sum"].fn(lib.binop("Mult", asarr(a), asarr(weights)), axis)
        return lib.binop("Div", num, ns["sum"].fn(asarr(weights), axis))

    @reg("std")
    def _std(a, axis=None, **k):
        mu = ns["mean"].fn(a, axis, keepdims=True)
        d = lib.binop("Sub", asarr(a), mu)
        return ns["sqrt"].fn(ns["mean"].fn(lib.binop("Mult", d, d), axis))

    @reg("var")
    def _var(a, axis=None, **k):
        mu = ns["mean"].fn(a, axis, keepdims=True)
        d = lib.binop("Sub", asarr(a), mu)
        return ns["mean"].fn(lib.binop("Mult", d, d), axis)

    @reg("count_nonzero")
    def _cnz(a, axis=None, **k):
        return A.reduce("sum", elementwise(N.truthy, asarr(a), dtype="i"), axis)

    @reg("ptp")
    def _ptp(a, axis=None, **k):
        return lib.binop("Sub", ns["max"].fn(a, axis), ns["min"].fn(a, axis))

    def argext(kind):
        def f(a, axis=None, **k):
            a = seqarr(a)
            if a.ndim != 1:
                raise Unsupported("arg-reduction over several axes")
            n = a.shape[0]
            if isinstance(n, int):
                best = 0
                for i in range(1, n):
                    c = N.cmp("gt" if kind == "max" else "lt", a.elem((i,)), a.elem((best,)))
                    if it.truth(A.simplify_bool(c)):
                        best = i
                return best
            g = a.elem((affsym("iq0"),))
            nm = f"ia{g.id}"
            it.event("argext", kind, g, nm, n)
            return affsym(nm)

        return f

    ns["argmin"] = Native("numpy.argmin", argext("min"))
    ns["argmax"] = Native("numpy.argmax", argext("max"))

    @reg("cumsum")
    def _cumsum(a, axis=None, **k):
        a = seqarr(a)
        if a.ndim == 1 and a.host_size():
            vals, acc = [], N.ZERO
            for i in range(a.shape[0]):
                acc = N.add(acc, a.elem((i,)))
                vals.append(acc)
            return A.from_fn((len(vals),), lambda idx: vals[idx[0]], a.dtype)
        raise Unsupported("cumsum")

    @reg("sort")
    def _sort(a, axis=-1, **k):
        a = seqarr(a)
        if a.ndim == 1 and a.host_size():
            xs = lib.sort([sc(a.elem((i,))) for i in range(a.shape[0])])
            return A.from_list(xs, a.dtype)
        ax = as_int(axis) % a.ndim
        n = a.shape[ax]
        if isinstance(n, int) and n <= 5:
            rows = [a.getitem(tuple([slice(None)] * ax + [i])) for i in range(n)]
            for i in range(n):
                for j in range(n - 1 - i):
                    lo = elementwise(lambda x, y: N.nary("min", (x, y)), rows[j], rows[j + 1])
                    hi = elementwise(lambda x, y: N.nary("max", (x, y)), rows[j], rows[j + 1])
                    rows[j], rows[j + 1] = lo, hi
            return ns["stack"].fn(rows, ax)
        raise Unsupported("np.sort of a symbolic array")

    @reg("median")
    def _median(a, axis=None, **k):
        a = seqarr(a)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("np.median over several axes")
            axis = 0
        ax = as_int(axis) % a.ndim
        s = _sort(a, ax)
        n = s.shape[ax]
        if not isinstance(n, int):
            raise Unsupported("np.median of a symbolic axis")
        at = lambda i: s.getitem(tuple([slice(None)] * ax + [i]))
        return at(n // 2) if n % 2 else lib.binop("Div", lib.binop("Add", at(n // 2 - 1), at(n // 2)), 2)

    @reg("unique")
    def _unique(a, **k):
        s = _sort(a)
        out = []
        for i in range(s.shape[0]):
            v = sc(s.elem((i,)))
            if not out or not it.truth(lib.compare("Eq", out[-1], v)):
                out.append(v)
        return A.from_list(out, s.dtype)

    @reg("searchsorted")
    def _ss(a, v, side="left", **k):
        a = seqarr(a)
        for i in range(a.shape[0]):
            if it.truth(lib.compare("GtE" if side == "left" else "Gt", sc(a.elem((i,))), v)):
                return i
        return a.shape[0]

    # ------------------------------------------------------------ shape
    @reg("shape")
    def _shape(a):
        return asarr(a).shape

    @reg("ndim")
    def _ndim(a):
        return asarr(a).ndim

    @reg("size")
    def _size(a, axis=None):
        a = asarr(a)
        return a.shape[axis] if axis is not None else lib.arr_attr(a, "size")

    @reg("isscalar")
    def _isscalar(v):
        return isinstance(v, (int, Fraction, N.Node, Aff, str))

    @reg("reshape")
    def _reshape(a, shape=None, newshape=None, order="C", **k):
        a = asarr(a)
        if shape is None:
            shape = newshape
        if not isinstance(shape, (tuple, list, Arr)):
            shape = (shape,)
        shape = list(A.norm_shape(shape))
        if -1 in shape:
            j = shape.index(-1)
            rest = [s for i, s in enumerate(shape) if i != j]
            src = list(a.shape)
            for s in list(rest):
                for t in src:
                    if A.dim_eq(s, t):
                        src.remove(t)
                        rest.remove(s)
                        break
            if any(x != 1 for x in rest):
                hs = [t for t in src if isinstance(t, int)]
                p = 1
                for t in hs:
                    p *= t
                q = 1
                for r in rest:
                    if not isinstance(r, int):
                        raise PyErr("ValueError", f"cannot reshape array of size {a.shape} into shape {tuple(shape)}")
                    q *= r
                if p % q:
                    raise PyErr("ValueError", "cannot reshape array")
                sy = [t for t in src if not isinstance(t, int)]
                if len(sy) == 0:
                    shape[j] = p // q
                elif len(sy) == 1 and p == q:
                    shape[j] = sy[0]
                elif len(sy) == 1 and q == 1:
                    shape[j] = sy[0] * p
                else:
                    raise Unsupported("reshape merging symbolic axes")
            else:
                big = [t for t in src if t != 1]
                if not big:
                    shape[j] = 1
                elif len(big) == 1:
                    shape[j] = big[0]
                else:
                    p = 1
                    for t in big:
                        p = p * t
                        if p is NotImplemented:
                            raise Unsupported("reshape merging symbolic axes")
                    shape[j] = p
        s1 = [s for s in a.shape if s != 1]
        s2 = [s for s in shape if s != 1]
        if len(s1) == len(s2) and all(A.dim_eq(x, y) for x, y in zip(s1, s2)):
            # view: drop size-1 axes, insert new ones
            v = a.getitem(tuple(0 if s == 1 else slice(None) for s in a.shape) + (Ellipsis,))
            key, kk = [], 0
            for s in shape:
                key.append(None if s == 1 else slice(None))
            return v.getitem(tuple(key) + (Ellipsis,)) if isinstance(v, Arr) else v
        if a.host_size() and all(isinstance(s, int) for s in shape):
            n1 = math.prod(a.shape)
            if n1 != math.prod(shape):
                raise PyErr("ValueError", f"cannot reshape array of size {n1} into shape {tuple(shape)}")
            rd = a.reader()
            ash = a.shape

            def fn(idx):
                lin = 0
                for i, s in zip(idx, shape):
                    lin = lin * s + i
                out = []
                for s in reversed(ash):
                    out.append(lin % s)
                    lin //= s
                return rd(tuple(reversed(out)))

            return A.from_fn(tuple(shape), fn, a.dtype)
        try:
            t1 = _total(s1)
            t2 = _total(s2)
        except Unsupported:
            t1 = t2 = None
        if t1 is not None and t1 is not t2:
            raise PyErr("ValueError", f"cannot reshape array of shape {a.shape} into shape {tuple(shape)}")
        raise Unsupported(f"reshape {a.shape} -> {tuple(shape)}")

    def _total(s):
        n = N.ONE
        for x in s:
            n = N.mul(n, A.to_node(x))
        return n

    @reg("ravel")
    def _ravel(a, *r):
        a = asarr(a)
        s = [x for x in a.shape if x != 1]
        if len(s) <= 1:
            return _reshape(a, (s[0] if s else 1,))
        return _reshape(a, (-1,))

    ns["flatten"] = Native("flatten", lambda a, *r: _ravel(a).copy())

    @reg("expand_dims")
    def _expand(a, axis):
        a = asarr(a)
        ax = axis if isinstance(axis, (tuple, list)) else (axis,)
        nd = a.ndim + len(ax)
        ax = {as_int(x) % nd for x in ax}
        return a.getitem(tuple(None if k in ax else slice(None) for k in range(nd)))

    @reg("squeeze")
    def _squeeze(a, axis=None):
        a = asarr(a)
        if axis is None:
            ax = [k for k, s in enumerate(a.shape) if s == 1]
        else:
            ax = A.norm_axis(axis, a.ndim)
            if any(a.shape[k] != 1 for k in ax):
                raise PyErr("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
        r = a.getitem(tuple(0 if k in ax else slice(None) for k in range(a.ndim)) + (Ellipsis,))
        return r

    @reg("transpose", "permute_dims")
    def _transpose(a, axes=None):
        a = asarr(a)
        order = list(range(a.ndim))[::-1] if axes is None else [as_int(x) % a.ndim for x in it.iterate(axes)]
        return permute(a, order)

    @reg("moveaxis")
    def _moveaxis(a, src, dst):
        a = asarr(a)
        s = [as_int(x) % a.ndim for x in (src if isinstance(src, (tuple, list)) else (src,))]
        d = [as_int(x) % a.ndim for x in (dst if isinstance(dst, (tuple, list)) else (dst,))]
        order = [k for k in range(a.ndim) if k not in s]
        for dd, ss in sorted(zip(d, s)):
            order.insert(dd, ss)
        return permute(a, order)

    @reg("rollaxis")
    def _rollaxis(a, axis, start=0):
        return _moveaxis(a, axis, start if start <= axis else start - 1)

    @reg("swapaxes")
    def _swapaxes(a, x, y):
        a = asarr(a)
        order = list(range(a.ndim))
        x, y = as_int(x) % a.ndim, as_int(y) % a.ndim
        order[x], order[y] = order[y], order[x]
        return permute(a, order)

    @reg("concatenate", "concat")
    def _concat(xs, axis=0, **k):
        xs = [asarr(x) for x in it.iterate(xs)]
        if axis is None:
            xs = [_ravel(x) for x in xs]
            axis = 0
        ax = A.norm_axis(axis, xs[0].ndim)[0]
        for x in xs[1:]:
            if x.ndim != xs[0].ndim or not all(kk == ax or A.dim_eq(p, q) for kk, (p, q) in enumerate(zip(x.shape, xs[0].shape))):
                raise PyErr("ValueError", "all the input array dimensions except for the concatenation axis must match exactly")
        offs, tot = [], 0
        for x in xs:
            offs.append(tot)
            tot = tot + x.shape[ax]
        shape = list(xs[0].shape)
        shape[ax] = tot
        rds = [x.reader() for x in xs]

        def fn(idx):
            i = idx[ax]
            for o, x, rd in zip(reversed(offs), reversed(xs), reversed(rds)):
                if i >= o and x.shape[ax] != 0:
                    return rd(idx[:ax] + (i - o,) + idx[ax + 1:])
            raise PyErr("IndexError", "concatenate")

        return A.from_fn(tuple(shape), fn, A.join_dtype(*[x.dtype for x in xs]))

    @reg("stack")
    def _stack(xs, axis=0, **k):
        xs = [asarr(x) for x in it.iterate(xs)]
        nd = xs[0].ndim + 1
        ax = as_int(axis) % nd
        return _concat([x.getitem(tuple([slice(None)] * ax + [None]) + (Ellipsis,)) for x in xs], ax)

    @reg("vstack")
    def _vstack(xs, **k):
        xs = [asarr(x) for x in it.iterate(xs)]
        return _concat([x if x.ndim > 1 else x.getitem((None, Ellipsis)) for x in xs], 0)

    @reg("hstack")
    def _hstack(xs, **k):
        xs = [_at1(x) for x in it.iterate(xs)]
        return _concat(xs, 0 if xs[0].ndim == 1 else 1)

    @reg("split", "array_split")
    def _split(a, n, axis=0):
        a = asarr(a)
        ax = as_int(axis) % a.ndim
        L = a.shape[ax]
        if isinstance(n, int) and isinstance(L, int):
            s = L // n
            cuts = [s * k for k in range(n + 1)]
        else:
            cuts = [0] + [as_int(x) for x in it.iterate(n)] + [L]
        return [a.getitem(tuple([slice(None)] * ax + [slice(p, q)])) for p, q in zip(cuts, cuts[1:])]

    @reg("append")
    def _append(a, b, axis=None):
        return _concat([_at1(a), _at1(b)], axis)

    @reg("pad")
    def _pad(a, pad_width, mode="constant", **kw):
        a = asarr(a)
        pw = pad_width
        if isinstance(pw, Arr):
            pw = lib.arr_attr(pw, "tolist").fn()
        if as_int(pw) is not None:
            pw = [(pw, pw)] * a.ndim
        elif isinstance(pw, (list, tuple)) and pw and as_int(pw[0]) is not None:
            if len(pw) == 2:
                pw = [tuple(pw)] * a.ndim
            else:
                pw = [(pw[0], pw[0])] * a.ndim
        elif isinstance(pw, (list, tuple)) and len(pw) == 1 and a.ndim > 1:
            pw = list(pw) * a.ndim
        elif isinstance(pw, dict):
            pw = [pw.get(k, (0, 0)) for k in range(a.ndim)]
        pw = [tuple(as_int(x) for x in it.iterate(p)) if isinstance(p, (list, tuple)) else (as_int(p), as_int(p)) for p in pw]
        pw = [p if len(p) == 2 else (p[0], p[0]) for p in pw]
        if len(pw) != a.ndim:
            raise PyErr("ValueError", f"operands could not be broadcast together with remapped shapes")
        if any(x < 0 for p in pw for x in p):
            raise PyErr("ValueError", "index can't contain negative values")
        shape = tuple(s + p[0] + p[1] for s, p in zip(a.shape, pw))
        rd = a.reader()
        if mode == "empty":
            r = A.empty(shape, a.dtype)
        elif mode == "constant":
            cv = kw.get("constant_values", 0)
            if isinstance(cv, (list, tuple, Arr)):
                raise Unsupported("np.pad per-axis constants")
            r = A.full(shape, cv, a.dtype)
        elif mode in ("edge", "wrap", "reflect", "symmetric"):
            def fn(idx):
                out = []
                for i, n, p in zip(idx, a.shape, pw):
                    j = i - p[0]
                    out.append(border(j, n, mode))
                return rd(tuple(out))

            return A.from_fn(shape, fn, a.dtype)
        else:
            raise Unsupported(f"np.pad mode {mode}")
        inner = r.getitem(tuple(slice(p[0], p[0] + s) for s, p in zip(a.shape, pw)) + (Ellipsis,))
        if isinstance(inner, Arr):
            A.assign_view(inner, a.copy())
        return r

    @reg("roll")
    def _roll(a, shift, axis=None):
        a = asarr(a)
        if axis is None:
            if a.ndim != 1:
                nz = [k for k, s in enumerate(a.shape) if s != 1]
                if len(nz) != 1:
                    raise Unsupported("flattened roll")
                axis = nz[0]
            else:
                axis = 0
        ax = A.norm_axis(axis, a.ndim)
        sh = [as_int(x) for x in it.iterate(shift)] if isinstance(shift, (tuple, list)) else [as_int(shift)] * len(ax)
        tot = {}
        for k, s in zip(ax, sh):
            tot[k] = tot.get(k, 0) + s
        rd = a.reader()
        shp = a.shape

        def fn(idx):
            out = list(idx)
            for k, s in tot.items():
                out[k] = border(idx[k] - s, shp[k], "wrap")
            return rd(tuple(out))

        return A.from_fn(a.shape, fn, a.dtype)

    @reg("flip")
    def _flip(a, axis=None):
        a = asarr(a)
        ax = A.norm_axis(axis, a.ndim)
        return a.getitem(tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim)))

    ns["flipud"] = Native("flipud", lambda a: _flip(a, 0))
    ns["fliplr"] = Native("fliplr", lambda a: _flip(a, 1))

    @reg("rot90")
    def _rot90(a, k=1, axes=(0, 1)):
        a = asarr(a)
        k = as_int(k) % 4
        for _ in range(k):
            a = _flip(_swapaxes(a, axes[0], axes[1]), axes[0])
        return a

    @reg("take")
    def _take(a, indices, axis=None, **k):
        a = asarr(a)
        if axis is None:
            a = _ravel(a)
            axis = 0
        ax = as_int(axis) % a.ndim
        idx = indices if isinstance(indices, (int, Aff)) else asarr(indices)
        if isinstance(idx, Arr) and idx.ndim == 0:
            idx = A.scalar_index(sc(idx.elem(())))
        return a.getitem(tuple([slice(None)] * ax + [idx]))

    @reg("delete")
    def _delete(a, obj, axis=None):
        a = asarr(a)
        ax = 0 if axis is None else as_int(axis) % a.ndim
        n = a.shape[ax]
        js = [as_int(x) for x in it.iterate(obj)] if isinstance(obj, (list, tuple)) else [as_int(obj)]
        js = sorted((j + n if j < 0 else j) for j in js)
        parts, last = [], 0
        for j in js:
            parts.append(a.getitem(tuple([slice(None)] * ax + [slice(last, j)])))
            last = j + 1
        parts.append(a.getitem(tuple([slice(None)] * ax + [slice(last, None)])))
        return _concat([p for p in parts if p.shape[ax] != 0], ax)

    @reg("broadcast_to")
    def _bcto(a, shape, **k):
        a = asarr(a)
        shape = A.norm_shape(shape)
        src = A.broadcast_reader(a, shape)
        return A.from_fn(shape, src, a.dtype)

    @reg("broadcast_arrays")
    def _bca(*xs):
        xs = [asarr(x) for x in xs]
        sh = A.broadcast_shapes(*[x.shape for x in xs])
        return [_bcto(x, sh) for x in xs]

    @reg("broadcast_shapes")
    def _bcs(*xs):
        return A.broadcast_shapes(*xs)

    @reg("tile")
    def _tile(a, reps):
        a = asarr(a)
        reps = [as_int(x) for x in it.iterate(reps)] if isinstance(reps, (tuple, list)) else [as_int(reps)]
        while a.ndim < len(reps):
            a = a.getitem((None, Ellipsis))
        reps = [1] * (a.ndim - len(reps)) + reps
        for ax, r in enumerate(reps):
            if isinstance(r, Aff):
                if a.shape[ax] != 1:
                    raise Unsupported("tile")
                sh = list(a.shape)
                sh[ax] = r
                a = _bcto(a, tuple(sh)).copy()
            elif r != 1:
                a = _concat([a] * r, ax)
        return a

    @reg("repeat")
    def _repeat(a, reps, axis=None):
        a = asarr(a)
        r = as_int(reps)
        ax = (as_int(axis) if axis is not None else 0) % max(a.ndim, 1)
        if a.ndim == 0:
            n = a.elem(())
            return A.from_fn((r,), lambda idx: n, a.dtype)
        if a.shape[ax] == 1:
            sh = list(a.shape)
            sh[ax] = r
            return _bcto(a, tuple(sh)).copy()
        if isinstance(r, int) and isinstance(a.shape[ax], int):
            rd = a.reader()
            sh = list(a.shape)
            sh[ax] = sh[ax] * r
            return A.from_fn(tuple(sh), lambda idx: rd(idx[:ax] + (idx[ax] // r,) + idx[ax + 1:]), a.dtype)
        raise Unsupported("repeat")

    @reg("diff")
    def _diff(a, n=1, axis=-1, **k):
        a = asarr(a)
        ax = as_int(axis) % a.ndim
        for _ in range(as_int(n)):
            hi = a.getitem(tuple([slice(None)] * ax + [slice(1, None)]))
            lo = a.getitem(tuple([slice(None)] * ax + [slice(None, -1)]))
            a = lib.binop("Sub", hi, lo)
        return a

    @reg("copyto")
    def _copyto(dst, src, where=True, **k):
        if where is True:
            dst.setitem(Ellipsis, src)
        else:
            dst.setitem(Ellipsis, elementwise(lambda c, x, y: N.where(c, x, y), where, src, dst))

    @reg("putmask", "place")
    def _putmask(a, mask, values):
        v = asarr(values)
        if v.ndim and not (v.ndim == a.ndim and all(x == y for x, y in zip(v.shape, a.shape))):
            raise Unsupported("np.putmask with repeated values")
        _copyto(a, values, mask)

    @reg("put")
    def _put(a, *r, **k):
        raise Unsupported("np.put")

    @reg("isclose")
    def _isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
        r, t = A.to_node(rtol), A.to_node(atol)
        return elementwise(lambda x, y: N.cmp("le", N.absolute(N.sub(x, y)), N.add(t, N.mul(r, N.absolute(y)))), asarr(a) if isinstance(a, (list, tuple)) else a, asarr(b) if isinstance(b, (list, tuple)) else b, dtype="b")

    @reg("allclose")
    def _allclose(a, b, *r, **k):
        return ns["all"].fn(_isclose(a, b, *r, **k))

    @reg("array_equal")
    def _aeq(a, b, **k):
        a, b = asarr(a), asarr(b)
        if a.ndim != b.ndim or not all(A.dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
            return False
        return ns["all"].fn(lib.compare("Eq", a, b))

    @reg("may_share_memory", "shares_memory")
    def _share(a, b):
        return isinstance(a, Arr) and isinstance(b, Arr) and a.buf is b.buf

    @reg("matmul", "dot", "inner")
    def _matmul(a, b, **k):
        a, b = asarr(a), asarr(b)
        if a.ndim == 0 or b.ndim == 0:
            return lib.binop("Mult", a, b)
        if a.ndim == 1 and b.ndim == 1:
            return ns["sum"].fn(lib.binop("Mult", a, b))
        if a.ndim == 1:
            return _tensordot(a, b, ([0], [b.ndim - 2]))
        if b.ndim == 1:
            return _tensordot(a, b, ([a.ndim - 1], [0]))
        if a.ndim == 2 and b.ndim == 2:
            return _tensordot(a, b, ([1], [0]))
        raise Unsupported("batched matmul")

    @reg("tensordot")
    def _tensordot(a, b, axes=2):
        a, b = asarr(a), asarr(b)
        if as_int(axes) is not None:
            n = as_int(axes)
            ax, bx = list(range(a.ndim - n, a.ndim)), list(range(n))
        else:
            ax, bx = [list(it.iterate(x)) if isinstance(x, (list, tuple)) else [x] for x in axes]
            ax, bx = [as_int(x) % a.ndim for x in ax], [as_int(x) % b.ndim for x in bx]
        fa = [k for k in range(a.ndim) if k not in ax]
        fb = [k for k in range(b.ndim) if k not in bx]
        ra, rb = a.reader(), b.reader()
        cs = [a.shape[k] for k in ax]
        for x, y in zip(ax, bx):
            if not A.dim_eq(a.shape[x], b.shape[y]):
                raise PyErr("ValueError", "shape-mismatch for sum")
        if not all(isinstance(s, int) for s in cs):
            raise Unsupported("contraction over a symbolic axis")
        shape = tuple(a.shape[k] for k in fa) + tuple(b.shape[k] for k in fb)

        def fn(idx):
            acc = N.ZERO
            for h in A.host_indices(tuple(cs)):
                ia, ib = [0] * a.ndim, [0] * b.ndim
                for k, v in zip(fa, idx):
                    ia[k] = v
                for k, v in zip(fb, idx[len(fa):]):
                    ib[k] = v
                for x, y, v in zip(ax, bx, h):
                    ia[x] = ib[y] = v
                acc = N.add(acc, N.mul(ra(tuple(ia)), rb(tuple(ib))))
            return acc

        return out0(A.from_fn(shape, fn))

    @reg("einsum")
    def _einsum(spec, *ops, **k):
        ops = [asarr(o) for o in ops]
        spec = spec.replace(" ", "")
        ins, _, out = spec.partition("->")
        terms = ins.split(",")
        if "..." in spec:
            # ellipsis: give it explicit letters
            letters = [c for c in "ABCDEFGH"]
            n = max(o.ndim - len(t.replace("...", "")) for t, o in zip(terms, ops) if "..." in t)
            nt = []
            for t, o in zip(terms, ops):
                if "..." in t:
                    m_ = o.ndim - len(t.replace("...", ""))
                    nt.append(t.replace("...", "".join(letters[n - m_:n])))
                else:
                    nt.append(t)
            terms = nt
            out = out.replace("...", "".join(letters[:n]))
        if not _:
            allc = "".join(terms)
            out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
        dims = {}
        for t, o in zip(terms, ops):
            if len(t) != o.ndim:
                raise PyErr("ValueError", "einstein sum subscripts string does not match operand")
            for c, s in zip(t, o.shape):
                if c in dims and dims[c] != 1 and s != 1 and not A.dim_eq(dims[c], s):
                    raise PyErr("ValueError", "operands could not be broadcast")
                if c not in dims or dims[c] == 1:
                    dims[c] = s
        con = [c for c in dims if c not in out]
        if not all(isinstance(dims[c], int) for c in con):
            raise Unsupported("einsum over a symbolic axis")
        rds = [o.reader() for o in ops]

        def fn(idx):
            env = dict(zip(out, idx))
            acc = N.ZERO
            for h in A.host_indices(tuple(dims[c] for c in con)):
                env.update(zip(con, h))
                p = N.ONE
                for t, o, rd in zip(terms, ops, rds):
                    p = N.mul(p, rd(tuple(0 if s == 1 else env[c] for c, s in zip(t, o.shape))))
                acc = N.add(acc, p)
            return acc

        return out0(A.from_fn(tuple(dims[c] for c in out), fn))

    @reg("convolve")
    def _convolve(a, v, mode="full"):
        a, v = asarr(a), asarr(v)
        if isinstance(a.shape[0], int) and not isinstance(v.shape[0], int):
            a, v = v, a
        if not isinstance(v.shape[0], int):
            raise Unsupported("convolve of two symbolic arrays")
        m_ = v.shape[0]
        n = a.shape[0]
        ra, rv = a.reader(), v.reader()
        off = {"full": 0, "same": (m_ - 1) // 2, "valid": m_ - 1}[mode]
        ln = {"full": n + m_ - 1, "same": n, "valid": n - m_ + 1}[mode]

        def fn(idx):
            acc = N.ZERO
            for j in range(m_):
                i = idx[0] + off - j
                if i >= 0 and i < n:
                    acc = N.add(acc, N.mul(ra((i,)), rv((j,))))
            return acc

        return A.from_fn((ln,), fn)

    @reg("outer")
    def _outer(a, b, **k):
        return lib.binop("Mult", asarr(a).getitem((slice(None), None)), asarr(b).getitem((None, slice(None))))

    @reg("gradient")
    def _grad(a, *h, axis=None, edge_order=1, **k):
        a = seqarr(a)
        if axis is None and a.ndim == 1:
            axis = 0
        if axis is None or isinstance(axis, (tuple, list)) or len(h) > 1 or edge_order != 1 or (h and isinstance(h[0], Arr) and h[0].ndim):
            raise Unsupported("np.gradient")
        ax = as_int(axis) % a.ndim
        h = h[0] if h else 1
        at = lambda s: a.getitem(tuple([slice(None)] * ax + [s]))
        d = lambda p, q, w: lib.binop("Div", lib.binop("Sub", at(p), at(q)), w)
        return _concat([d(slice(1, 2), slice(0, 1), h), d(slice(2, None), slice(None, -2), lib.binop("Mult", 2, h)), d(slice(-1, None), slice(-2, -1), h)], ax)

    @reg("polyval")
    def _polyval(p, x):
        r = 0
        for q in it.iterate(p):
            r = lib.binop("Add", lib.binop("Mult", r, x), q)
        return r

    @reg("column_stack")
    def _cstack(xs):
        xs = [asarr(x) for x in it.iterate(xs)]
        return _concat([x if x.ndim > 1 else x.getitem((slice(None), None)) for x in xs], 1)

    @reg("ndindex")
    def _ndindex(*a):
        import itertools

        sh = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        if not all(isinstance(q, int) for q in sh):
            raise Unsupported("np.ndindex of a symbolic shape")
        return [tuple(q) for q in itertools.product(*map(range, sh))]

    @reg("ndenumerate")
    def _ndenum(a):
        a = seqarr(a)
        return [(i, sc(a.elem(i))) for i in _ndindex(*a.shape)]

    @reg("apply_along_axis", "vectorize", "fromfunction", "interp", "trapz", "cross")
    def _uns(*a, **k):
        raise Unsupported("numpy function")

    @reg("nan_to_num")
    def _ntn(a, *r, **k):
        return elementwise(lambda x: x if x.const is not None else N.where(N.truthy(N.uf("isnan", x)), N.ZERO, x), a)

    @reg("save", "savetxt", "savez", "savez_compressed")
    def _save(path, *a, **k):
        it.event("open", path, "wb")
        it.event("npsave", path, a, k)

    @reg("load", "loadtxt")
    def _load(path, *a, **k):
        it.event("open", path, "rb")
        return Opaque(f"npload({path})")

    @reg("ix_")
    def _ix(*a):
        out = []
        for k, x in enumerate(a):
            x = asarr(x)
            out.append(x.getitem(tuple(slice(None) if j == k else None for j in range(len(a)))))
        return tuple(out)

    @reg("s_")
    def _s(*a):
        raise Unsupported("np.s_")

    class SIndex:
        def model_getitem(self, it_, k):
            return k

    ns["s_"] = SIndex()
    ns["index_exp"] = SIndex()

    @reg("triu_indices", "indices")
    def _ind(*a, **k):
        raise Unsupported("index grids")

    # polynomial.legendre.leggauss
    def leggauss(deg):
        d = as_int(deg)
        if not isinstance(d, int):
            raise Unsupported("symbolic quadrature degree")
        if d < 1:
            raise PyErr("ValueError", "deg must be a positive integer")
        xs = [None] * d
        ws = [None] * d
        h = d // 2
        acc = N.ZERO
        for i in range(h):
            x = N.leaf(("GLx", d, i), pos=1)
            xs[i] = N.neg(x)
            xs[d - 1 - i] = x
            if d % 2 == 0 and i == h - 1:
                w = N.sub(N.ONE, acc)
            else:
                w = N.leaf(("GLw", d, i), pos=1)
            acc = N.add(acc, w)
            ws[i] = ws[d - 1 - i] = w
        if d % 2:
            xs[h] = N.ZERO
            ws[h] = N.sub(N.const(2), N.mul(N.const(2), acc))
        return (A.from_fn((d,), lambda i: xs[i[0]]), A.from_fn((d,), lambda i: ws[i[0]]))

    leg = Module("numpy.polynomial.legendre", {"leggauss": Native("leggauss", leggauss)})
    ns["polynomial"] = Module("numpy.polynomial", {"legendre": leg})

    class Rand:
        pass

    rnd = Module("numpy.random", {})

    def rand(*shape, **k):
        return A.from_fn(A.norm_shape(shape), lambda idx: N.leaf(("random",) + tuple(idx)))

    rnd.ns["rand"] = Native("rand", rand)
    rnd.ns["seed"] = Native("seed", lambda *a: None)
    rnd.opaque = True
    ns["random"] = rnd
    lin = Module("numpy.linalg", {}, opaque=True)
    lin.ns["norm"] = Native("norm", lambda a, ord=None, axis=None, keepdims=False: ns["sqrt"].fn(A.reduce("sum", elementwise(lambda x: N.mul(x, x), seqarr(a)), axis, keepdims)) if ord in (None, 2) else (_ for _ in ()).throw(Unsupported("norm")))
    ns["linalg"] = lin
    ns["testing"] = Module("numpy.testing", opaque=True)

    def sliding(a, window_shape, axis=None, **k):
        a = asarr(a)
        w = as_int(window_shape if not isinstance(window_shape, (tuple, list)) else window_shape[0])
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("sliding_window_view")
            axis = 0
        ax = as_int(axis if not isinstance(axis, (tuple, list)) else axis[0]) % a.ndim
        rd = a.reader()
        sh = list(a.shape)
        sh[ax] = sh[ax] - w + 1
        return A.from_fn(tuple(sh) + (w,), lambda idx: rd(idx[:ax] + (idx[ax] + idx[-1],) + idx[ax + 1:-1]), a.dtype)

    st = Module("numpy.lib.stride_tricks", {"sliding_window_view": Native("sliding_window_view", sliding)})
    ns["lib"] = Module("numpy.lib", {"stride_tricks": st}, opaque=True)
    return m


def border(j, n, mode):
    """map a possibly out-of-range index onto [0, n)"""
    if mode == "edge":
        return 0 if j < 0 else (n - 1 if j >= n else j)
    if mode == "wrap":
        if isinstance(j, int) and isinstance(n, int):
            return j % n
        k = 0
        while j < 0:
            j = j + n
            k += 1
            if k > 4:
                raise Unsupported("wrap")
        while j >= n:
            j = j - n
            k += 1
            if k > 8:
                raise Unsupported("wrap")
        return j
    if mode == "reflect":  # numpy reflect / ndimage mirror
        if isinstance(n, int):
            if n == 1:
                return 0
            p = 2 * (n - 1)
            j = j % p
            return j if j < n else p - j
        if j < 0:
            return -j
        if j >= n:
            return (n - 1) * 2 - j
        return j
    if mode == "symmetric":  # ndimage reflect
        if isinstance(n, int):
            p = 2 * n
            j = j % p
            return j if j < n else p - 1 - j
        if j < 0:
            return -j - 1
        if j >= n:
            return n * 2 - 1 - j
        return j
    raise Unsupported(mode)


# ===================================================================== scipy.ndimage
def ndimage_module(lib):
    it = lib.it
    np_module(lib)

    def filt(kind):
        def f(input, size=None, footprint=None, output=None, mode="reflect", cval=0, origin=0, **k):
            a = asarr(input)
            if footprint is not None:
                fp = asarr(footprint)
                if fp.ndim != a.ndim:
                    raise PyErr("RuntimeError", "footprint array has incorrect shape.")
                offs = [ix for ix in A.host_indices(fp.shape) if it.truth(A.simplify_bool(N.truthy(fp.elem(ix))))]
                fshape = fp.shape
            elif size is not None:
                sz = [as_int(x) for x in it.iterate(size)] if isinstance(size, (tuple, list)) else [as_int(size)] * a.ndim
                if len(sz) != a.ndim:
                    raise PyErr("RuntimeError", "size must have the same length as the input")
                fshape = tuple(sz)
                offs = list(A.host_indices(fshape))
            else:
                raise PyErr("RuntimeError", "no footprint or size provided")
            org = [as_int(x) for x in it.iterate(origin)] if isinstance(origin, (tuple, list)) else [as_int(origin)] * a.ndim
            rd = a.reader()
            shp = a.shape
            c = A.to_node(cval)
            md = {"reflect": "symmetric", "mirror": "reflect", "nearest": "edge", "wrap": "wrap", "grid-wrap": "wrap", "grid-mirror": "symmetric", "constant": "constant", "grid-constant": "constant"}.get(mode)
            if md is None:
                raise PyErr("RuntimeError", "boundary mode not supported")

            def fn(idx):
                vals = []
                for o in offs:
                    src, oob = [], False
                    for i, x, s, n, g in zip(idx, o, fshape, shp, org):
                        j = i + (x - s // 2 - g if kind != "none" else 0)
                        if md == "constant":
                            if j < 0 or j >= n:
                                oob = True
                                break
                            src.append(j)
                        else:
                            src.append(border(j, n, md))
                    vals.append(c if oob else rd(tuple(src)))
                return N.nary(kind, vals)

            r = A.from_fn(shp, fn, a.dtype)
            if isinstance(output, Arr):
                output.setitem(Ellipsis, r)
                return output
            return r

        return f

    ns = {"maximum_filter": Native("maximum_filter", filt("max")), "minimum_filter": Native("minimum_filter", filt("min"))}

    def f1(kind):
        g = filt(kind)

        def h(input, size, axis=-1, output=None, mode="reflect", cval=0, origin=0):
            a = asarr(input)
            ax = as_int(axis) % a.ndim
            sz = [1] * a.ndim
            sz[ax] = as_int(size)
            og = [0] * a.ndim
            og[ax] = as_int(origin)
            return g(a, size=tuple(sz), mode=mode, cval=cval, origin=tuple(og), output=output)

        return h

    ns["maximum_filter1d"] = Native("maximum_filter1d", f1("max"))
    ns["minimum_filter1d"] = Native("minimum_filter1d", f1("min"))

    def gst(rank, conn):
        r, c = as_int(rank), as_int(conn)
        return A.from_fn((3,) * r, lambda idx: N.const(int(sum(abs(i - 1) for i in idx) <= c)), "b")

    ns["generate_binary_structure"] = Native("generate_binary_structure", gst)
    return Module("scipy.ndimage", ns)


# ===================================================================== stdlib
def functools_module(lib):
    it = lib.it

    def lru_cache(maxsize=128, typed=False):
        if isinstance(maxsize, (AFunc, LruCached)):
            return LruCached(maxsize)
        return Native("lru_cache", lambda f: LruCached(f, maxsize))

    def partial(f, *a, **k):
        return Partial(f, a, k)

    def wraps(f, *a, **k):
        return Native("wraps", lambda g: g)

    def reduce(f, xs, *init):
        xs = list(it.iterate(xs))
        if init:
            acc = init[0]
        else:
            if not xs:
                raise PyErr("TypeError", "reduce() of empty iterable with no initial value")
            acc = xs.pop(0)
        for x in xs:
            acc = it.call(f, [acc, x], {})
        return acc

    def cached_property(f):
        return Property(f)

    return Module("functools", {
        "lru_cache": Native("lru_cache", lru_cache),
        "cache": Native("cache", lambda f: LruCached(f)),
        "partial": Native("partial", partial),
        "wraps": Native("wraps", wraps),
        "reduce": Native("reduce", reduce),
        "cached_property": Native("cached_property", cached_property),
        "total_ordering": Native("total_ordering", lambda c: c),
    }, opaque=True)


class FieldSpec:
    def __init__(self, default=MISSING, factory=MISSING, init=True):
        self.default, self.factory, self.init = default, factory, init


def dataclasses_module(lib):
    it = lib.it

    def field(default=MISSING, default_factory=MISSING, init=True, repr=True, compare=True, hash=None, kw_only=False, metadata=None):
        return FieldSpec(default, default_factory, init)

    def dataclass(cls=None, **opts):
        if cls is None:
            return Native("dataclass", lambda c: dataclass(c, **opts))
        fields = {}
        for c in reversed(cls.mro[1:]):
            if c.fields:
                fields.update(c.fields)
        for nme in cls.ann:
            v = cls.ns.get(nme, MISSING)
            if isinstance(v, FieldSpec):
                fields[nme] = v
                if v.default is not MISSING:
                    cls.ns[nme] = v.default
                else:
                    cls.ns.pop(nme, None)
            else:
                if isinstance(v, (list, dict, set)):
                    raise PyErr("ValueError", f"mutable default {tname(v)} for field {nme} is not allowed: use default_factory")
                fields[nme] = FieldSpec(v)
        seen_default = None
        for nme, f in fields.items():
            if not f.init:
                continue
            if f.default is not MISSING or f.factory is not MISSING:
                seen_default = nme
            elif seen_default is not None and not opts.get("kw_only"):
                raise PyErr("TypeError", f"non-default argument '{nme}' follows default argument '{seen_default}'")
        cls.fields = fields
        if "__init__" not in cls.ns and opts.get("init", True):
            def init(self, *args, **kwargs):
                names = [k for k, f in fields.items() if f.init]
                if len(args) > len(names):
                    raise PyErr("TypeError", f"{cls.name}.__init__() takes {len(names) + 1} positional arguments but {len(args) + 1} were given")
                vals = dict(zip(names, args))
                for k, v in kwargs.items():
                    if k not in names:
                        raise PyErr("TypeError", f"{cls.name}.__init__() got an unexpected keyword argument '{k}'")
                    if k in vals:
                        raise PyErr("TypeError", f"{cls.name}.__init__() got multiple values for argument '{k}'")
                    vals[k] = v
                for k, f in fields.items():
                    if k not in vals:
                        if f.factory is not MISSING:
                            vals[k] = it.call(f.factory, [], {})
                        elif f.default is not MISSING:
                            vals[k] = f.default
                        elif f.init:
                            raise PyErr("TypeError", f"{cls.name}.__init__() missing 1 required positional argument: '{k}'")
                        else:
                            continue
                    it.setkey(self.attrs, k, vals[k])
                p, _ = self.cls.lookup("__post_init__")
                if p is not MISSING:
                    it.call(Bound(p, self), [], {})

            cls.ns["__init__"] = NativeMethod(f"{cls.name}.__init__", init)
        return cls

    def asdict(o):
        return {k: o.attrs[k] for k in o.cls.fields}

    def replace(o, **k):
        d = asdict(o)
        d.update(k)
        return it.call(o.cls, [], d)

    return Module("dataclasses", {
        "dataclass": Native("dataclass", dataclass),
        "field": Native("field", field),
        "asdict": Native("asdict", asdict),
        "replace": Native("replace", replace),
        "fields": Native("fields", lambda o: [Record("Field", name=k) for k in (o.cls if isinstance(o, AObj) else o).fields]),
    }, opaque=True)


def itertools_module(lib):
    it = lib.it
    L = lambda v: list(it.iterate(v))
    ns = {}
    ns["product"] = Native("product", lambda *a, repeat=1: Gen(list(itertools.product(*[L(x) for x in a], repeat=as_int(repeat)))))
    chain = Native("chain", lambda *a: Gen([y for x in a for y in it.iterate(x)]))
    chain.attrs = {"from_iterable": Native("from_iterable", lambda a: Gen([y for x in it.iterate(a) for y in it.iterate(x)]))}
    ns["chain"] = chain
    ns["combinations"] = Native("combinations", lambda a, r: Gen(list(itertools.combinations(L(a), as_int(r)))))
    ns["permutations"] = Native("permutations", lambda a, r=None: Gen(list(itertools.permutations(L(a), as_int(r) if r is not None else None))))
    ns["zip_longest"] = Native("zip_longest", lambda *a, fillvalue=None: Gen(list(itertools.zip_longest(*[L(x) for x in a], fillvalue=fillvalue))))
    ns["islice"] = Native("islice", lambda a, *s: Gen(list(itertools.islice(L(a), *[None if x is None else as_int(x) for x in s]))))
    ns["repeat"] = Native("repeat", lambda v, n=None: Gen([v] * as_int(n)) if n is not None else (_ for _ in ()).throw(Unsupported("infinite repeat")))
    ns["starmap"] = Native("starmap", lambda f, a: Gen([it.call(f, L(x), {}) for x in it.iterate(a)]))

    def accumulate(a, f=None, initial=MISSING):
        out, acc = [], initial
        for x in it.iterate(a):
            if acc is MISSING:
                acc = x
            else:
                acc = it.call(f, [acc, x], {}) if f is not None else it.binop("Add", acc, x)
            out.append(acc)
        return Gen(out)

    ns["accumulate"] = Native("accumulate", accumulate)
    ns["pairwise"] = Native("pairwise", lambda a: Gen(list(zip(L(a), L(a)[1:]))))
    return Module("itertools", ns, opaque=True)


def abc_module(lib):
    def abstractmethod(f):
        f.attrs["__isabstractmethod__"] = True
        return f

    return Module("abc", {"ABC": object, "abstractmethod": Native("abstractmethod", abstractmethod), "ABCMeta": object}, opaque=True)


def inspect_module(lib):
    def signature(f):
        bound = 0
        if isinstance(f, Bound):
            f, bound = f.fn, 1
        if isinstance(f, AObj):
            m, _ = f.cls.lookup("__call__")
            f, bound = m, 1
        if isinstance(f, LruCached):
            f = f.fn
        if isinstance(f, Partial):
            raise Unsupported("signature of partial")
        if isinstance(f, AClass):
            m, _ = f.lookup("__init__")
            f, bound = m, 1
        if not isinstance(f, AFunc):
            raise Unsupported("signature of a native")
        E = Opaque("inspect._empty")
        params = {}
        nd = len(f.defaults)
        for i, p in enumerate(f.params):
            j = i - (len(f.params) - nd)
            params[p] = Record("Parameter", name=p, default=f.defaults[j] if j >= 0 else EMPTY, kind=1, annotation=EMPTY)
        if f.vararg:
            params[f.vararg] = Record("Parameter", name=f.vararg, default=EMPTY, kind=2, annotation=EMPTY)
        for p, d in zip(f.kwonly, f.kwdefaults):
            params[p] = Record("Parameter", name=p, default=EMPTY if d is MISSING else d, kind=3, annotation=EMPTY)
        if f.kwarg:
            params[f.kwarg] = Record("Parameter", name=f.kwarg, default=EMPTY, kind=4, annotation=EMPTY)
        for k in list(params)[:bound]:
            del params[k]
        return Record("Signature", parameters=params)

    EMPTY = Opaque("inspect._empty")

    def getfullargspec(f):
        s = signature(f.fn if isinstance(f, Bound) else f)
        return Record("FullArgSpec", args=[k for k, v in s.kw["parameters"].items() if v.kw["kind"] == 1])

    return Module("inspect", {
        "signature": Native("signature", signature),
        "getfullargspec": Native("getfullargspec", getfullargspec),
        "Parameter": Record("ParameterType", empty=EMPTY, POSITIONAL_OR_KEYWORD=1, VAR_POSITIONAL=2, KEYWORD_ONLY=3, VAR_KEYWORD=4, POSITIONAL_ONLY=0),
        "isfunction": Native("isfunction", lambda f: isinstance(f, (AFunc, LruCached))),
        "ismethod": Native("ismethod", lambda f: isinstance(f, Bound)),
        "isclass": Native("isclass", lambda f: isinstance(f, (AClass, type))),
    }, opaque=True)


def json_bad(v, default=None, it=None):
    """first value in v that json cannot serialise, or None"""
    if isinstance(v, dict):
        for k, x in v.items():
            if not isinstance(k, (str, int, Fraction, bool, type(None), N.Node, Aff)):
                return ("key", k)
            b = json_bad(x)
            if b is not None:
                return b
        return None
    if isinstance(v, (list, tuple)):
        for x in v:
            b = json_bad(x)
            if b is not None:
                return b
        return None
    if isinstance(v, (str, int, Fraction, bool, N.Node, Aff)) or v is None:
        return None
    return ("value", v)


def json_module(lib):
    it = lib.it

    def prep(obj, default):
        if default is None:
            return obj
        if isinstance(obj, dict):
            return {k: prep(v, default) for k, v in obj.items()}
        if isinstance(obj, (list, tuple)):
            return [prep(v, default) for v in obj]
        if json_bad(obj) is not None:
            return prep(it.call(default, [obj], {}), None)
        return obj

    def dump(obj, f, default=None, **k):
        o = prep(obj, default)
        b = json_bad(o)
        it.event("json.dump", obj, f)
        if b is not None:
            raise PyErr("TypeError", f"Object of type {tname(b[1])} is not JSON serializable")
        it.event("write", getattr(f, "path", None), getattr(f, "mode", None), ("json", o))
        if it.vfs is not None:
            it.vfs.append(f.path, ("json", deepcopy(o)))

    def dumps(obj, default=None, **k):
        b = json_bad(prep(obj, default))
        if b is not None:
            raise PyErr("TypeError", f"Object of type {tname(b[1])} is not JSON serializable")
        return lib.to_repr(obj)

    def load(f, **k):
        it.event("read", getattr(f, "path", None), "json")
        if it.vfs is not None:
            for k_, v in it.vfs.tree[it.vfs.norm(f.path)]:
                if k_ == "json":
                    return deepcopy(v)
        return Opaque("json")

    return Module("json", {"dump": Native("json.dump", dump), "dumps": Native("json.dumps", dumps), "load": Native("json.load", load), "loads": Native("json.loads", lambda s, **k: Opaque("json"))}, opaque=True)


def pickle_module(lib):
    it = lib.it

    def dump(obj, f, *a, **k):
        it.event("pickle.dump", obj, getattr(f, "path", None), getattr(f, "mode", None))
        it.event("write", getattr(f, "path", None), getattr(f, "mode", None), ("pickle", obj))
        if it.vfs is not None:
            if not (set(f.mode) & set("wax+")):
                raise PyErr("UnsupportedOperation", "write")
            if "b" not in f.mode:
                raise PyErr("TypeError", "write() argument must be str, not bytes")
            it.vfs.append(f.path, ("pickle", deepcopy(obj)))
            return
        it.setkey(it.fs, ("pickle", getattr(f, "path", None)), deepcopy(obj))

    def dumps(obj, *a, **k):
        return PickleBytes(deepcopy(obj))

    def loads(b, **k):
        return deepcopy(b.obj) if isinstance(b, PickleBytes) else Opaque("pickle")

    def load(f, **k):
        p = getattr(f, "path", None)
        it.event("pickle.load", p, getattr(f, "mode", None))
        if it.vfs is not None:
            if "b" not in f.mode:
                raise PyErr("UnicodeDecodeError", "binary file opened as text")
            n = 0
            for k_, v in it.vfs.tree[it.vfs.norm(p)]:
                if k_ == "pickle":
                    n += 1
                    if n > f.pos:
                        f.pos += 1
                        return deepcopy(v)
            raise PyErr("EOFError", "Ran out of input")
        if ("pickle", p) in it.fs:
            return deepcopy(it.fs[("pickle", p)])
        return Opaque(f"pickle({p})")

    return Module("pickle", {"dump": Native("pickle.dump", dump), "load": Native("pickle.load", load), "dumps": Native("pickle.dumps", dumps), "loads": Native("pickle.loads", loads), "HIGHEST_PROTOCOL": 5}, opaque=True)


def os_module(lib):
    it = lib.it

    def exists(p, kinds=("dir", "file")):
        p = getattr(p, "s", p)
        it.event("exists", p)
        if it.vfs is not None:
            return it.vfs.kind(p) in kinds
        if ("exists", p) in it.fs:
            return it.fs[("exists", p)]
        return N.truthy(N.leaf(("exists", str(p))))

    def st(p):
        p = getattr(p, "s", p)
        if isinstance(p, str):
            return p
        if isinstance(p, Opaque):
            return f"<{p.name}>"
        raise PyErr("TypeError", f"expected str, bytes or os.PathLike object, not {tname(p)}")

    def join(*a):
        return _os.path.join(*[st(x) for x in a])

    path = Module("os.path", {
        "join": Native("join", join),
        "exists": Native("exists", exists),
        "isfile": Native("isfile", lambda p: exists(p, ("file",))),
        "isdir": Native("isdir", lambda p: exists(p, ("dir",))),
        "lexists": Native("lexists", exists),
        "getsize": Native("getsize", lambda p: it.fresh("size", pos=1)),
        "relpath": Native("relpath", lambda p, start=".": _os.path.relpath(_os.path.join("/cwd", st(p)), _os.path.join("/cwd", st(start)))),
        "commonpath": Native("commonpath", lambda ps: _os.path.commonpath([st(p) for p in it.iterate(ps)])),
        "dirname": Native("dirname", lambda p: _os.path.dirname(st(p))),
        "basename": Native("basename", lambda p: _os.path.basename(st(p))),
        "normpath": Native("normpath", lambda p: _os.path.normpath(st(p))),
        "abspath": Native("abspath", lambda p: _os.path.normpath(_os.path.join("/cwd", st(p)))),
        "realpath": Native("realpath", lambda p: _os.path.normpath(_os.path.join("/cwd", st(p)))),
        "splitext": Native("splitext", lambda p: _os.path.splitext(st(p))),
        "split": Native("split", lambda p: _os.path.split(st(p))),
        "expanduser": Native("expanduser", lambda p: p),
        "isabs": Native("isabs", lambda p: st(p).startswith("/")),
        "sep": "/",
    }, opaque=True)

    def eff(kind):
        def f(*a, **k):
            it.event(kind, *a)
            if it.vfs is not None:
                v = it.vfs
                if kind in ("makedirs", "mkdir"):
                    ex = k.get("exist_ok", a[2] if len(a) > 2 else False)
                    return v.mkdir(a[0], exist_ok=it.truth(ex), parents=kind == "makedirs")
                if kind == "remove":
                    return v.remove(a[0], it.truth(k.get("missing_ok", False)))
                if kind == "rmdir":
                    return v.rmdir(a[0])
                if kind in ("rename", "replace"):
                    return v.rename(a[0], a[1])
                raise Unsupported(f"os.{kind} on the abstract file system")
            if kind in ("makedirs", "mkdir") and a:
                it.setkey(it.fs, ("exists", a[0]), True)
            if kind in ("remove", "rmdir") and a:
                it.setkey(it.fs, ("exists", a[0]), False)

        return Native(f"os.{kind}", f)

    ns = {"path": path, "sep": "/", "environ": {}, "getcwd": Native("getcwd", lambda: "/cwd"), "PathLike": Opaque("os.PathLike"),
          "listdir": Native("listdir", lambda p=".": it.vfs.listdir(p) if it.vfs is not None else Opaque(f"listdir({p})")),
          "getenv": Native("getenv", lambda k, d=None: d),
          "getpid": Native("getpid", lambda: it.fresh("pid", pos=1)),
          "name": "posix", "cpu_count": Native("cpu_count", lambda: 8),
          "fspath": Native("fspath", st)}
    for k in ("makedirs", "mkdir", "remove", "unlink", "rmdir", "removedirs", "rename", "replace", "system", "chdir", "symlink"):
        ns[k] = eff({"unlink": "remove"}.get(k, k))
    return Module("os", ns)


def shutil_module(lib):
    it = lib.it

    def rmtree(p, *a, **k):
        it.event("rmtree", p)
        if it.vfs is not None:
            return it.vfs.rmtree(p, it.truth(k.get("ignore_errors", a[0] if a else False)))
        it.setkey(it.fs, ("exists", p), False)

    def eff(kind):
        def f(*a, **k):
            it.event(f"shutil.{kind}", *a)
            if it.vfs is not None:
                v = it.vfs
                if kind == "move":
                    b = v.norm(a[1])
                    if v.kind(b) == "dir":
                        b = _os.path.join(b, _os.path.basename(v.norm(a[0])))
                    return v.rename(a[0], b)
                if kind == "copytree":
                    return v.copytree(a[0], a[1], it.truth(k.get("dirs_exist_ok", False)))
                return v.copy(a[0], a[1])

        return Native(f"shutil.{kind}", f)

    return Module("shutil", {"rmtree": Native("rmtree", rmtree), "copy": eff("copy"), "move": eff("move"), "copytree": eff("copytree"), "copyfile": eff("copyfile"), "copy2": eff("copy2"), "which": Native("which", lambda x: Opaque("which"))})


def subprocess_module(lib):
    it = lib.it

    def run(*a, **k):
        it.event("subprocess.run", a, k)
        mode = getattr(it, "git", "ok")
        if mode == "error" and it.truth(k.get("check", False)):
            raise PyErr("CalledProcessError", "git failed")
        text = "" if mode == "error" else "0123abc|A. Author|2024-01-02 03:04:05 +0000|HEAD -> main, origin/main"
        if k.get("text") or k.get("universal_newlines") or k.get("encoding"):
            return Record("CompletedProcess", stdout=text, stderr="", returncode=0 if mode == "ok" else 128)
        return Opaque("CompletedProcess")

    return Module("subprocess", {"run": Native("subprocess.run", run), "PIPE": -1, "DEVNULL": -3, "CalledProcessError": Opaque("subprocess.CalledProcessError"), "TimeoutExpired": Opaque("subprocess.TimeoutExpired")}, opaque=True)


def time_module(lib):
    it = lib.it
    ns = {}
    for k in ("time", "perf_counter", "monotonic", "process_time"):
        def f(k=k):
            v = it.fresh(("clock"), pos=1)
            it.event("clock", k, v)
            return v

        ns[k] = Native(f"time.{k}", f)
    ns["sleep"] = Native("time.sleep", lambda s: None)
    return Module("time", ns, opaque=True)


def math_module(lib):
    np = np_module(lib).ns
    ns = {}
    for k in ("sqrt", "sin", "cos", "tan", "exp", "log", "log10", "log2", "tanh", "sinh", "cosh", "isnan", "isinf", "isfinite", "fabs", "hypot", "copysign"):
        ns[k] = Native(f"math.{k}", np[k].fn)
    ns["atan"], ns["atan2"], ns["asin"], ns["acos"] = (Native(f"math.{k}", np[v].fn) for k, v in (("atan", "arctan"), ("atan2", "arctan2"), ("asin", "arcsin"), ("acos", "arccos")))
    ns["pi"], ns["e"], ns["inf"], ns["nan"] = np["pi"], np["e"], np["inf"], np["nan"]

    def toint(f):
        def g(v):
            if isinstance(v, (int, Fraction)):
                return f(v)
            if isinstance(v, Aff):
                return v
            n = {math.ceil: node_ceil, math.floor: node_floor, math.trunc: lambda x: N.uf("trunc", x)}[f](A.to_node(v))
            return int(n.const) if n.const is not None else n

        return g

    for k in ("ceil", "floor", "trunc"):
        ns[k] = Native(f"math.{k}", toint(getattr(math, k)))
    ns["isclose"] = Native("math.isclose", lambda a, b, rel_tol=Fraction(1, 10**9), abs_tol=0: lib.compare("LtE", np["abs"].fn(lib.binop("Sub", a, b)), np["maximum"].fn(lib.binop("Mult", rel_tol, np["maximum"].fn(np["abs"].fn(a), np["abs"].fn(b))), abs_tol)))
    ns["pow"] = Native("math.pow", lambda a, b: lib.binop("Pow", a, b))

    def prod(xs, start=1):
        acc = start
        for x in lib.it.iterate(xs):
            acc = lib.binop("Mult", acc, x)
        return acc

    ns["prod"] = Native("math.prod", prod)
    ns["fsum"] = Native("math.fsum", lambda xs: lib.builtins["sum"].fn(xs))
    for k in ("gcd", "lcm", "factorial", "comb", "perm"):
        ns[k] = Native(f"math.{k}", lambda *a, k=k: getattr(math, k)(*[as_int(x) for x in a]))
    return Module("math", ns)


def deepcopy(v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)][0]

    def keep(r):
        memo[id(v)] = (r, v)
        return r

    if isinstance(v, Arr):
        return keep(v.copy())
    if isinstance(v, list):
        r = keep([])
        r.extend(deepcopy(x, memo) for x in v)
        return r
    if isinstance(v, dict):
        r = keep(type(v)() if type(v) is not dict else {})
        for k, x in v.items():
            r[k] = deepcopy(x, memo)
        if hasattr(v, "factory"):
            r.factory = v.factory
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy(x, memo) for x in v)
    if isinstance(v, set):
        return set(v)
    if isinstance(v, AObj):
        o = keep(AObj(v.cls))
        for k, x in v.attrs.items():
            o.attrs[k] = deepcopy(x, memo)
        return o
    return v


def copy_module(lib):
    def copy(v):
        if isinstance(v, Arr):
            return v.copy()
        if isinstance(v, list):
            return list(v)
        if isinstance(v, dict):
            return dict(v)
        if isinstance(v, set):
            return set(v)
        if isinstance(v, AObj):
            o = AObj(v.cls)
            o.attrs.update(v.attrs)
            return o
        return v

    return Module("copy", {"copy": Native("copy.copy", copy), "deepcopy": Native("copy.deepcopy", lambda v, *a: deepcopy(v))})


def numbers_module(lib):
    isnum = lambda v: isinstance(v, (bool, int, Fraction, Aff, N.Node))
    isint = lambda v: isinstance(v, (bool, int, Aff))
    return Module("numbers", {"Number": TypeModel("numbers.Number", isnum), "Real": TypeModel("numbers.Real", isnum), "Integral": TypeModel("numbers.Integral", isint), "Rational": TypeModel("numbers.Rational", isint), "Complex": TypeModel("numbers.Complex", isnum)})


def warnings_module(lib):
    it = lib.it
    return Module("warnings", {"warn": Native("warnings.warn", lambda *a, **k: it.event("warn", *a) and None), "catch_warnings": Native("catch_warnings", lambda **k: CtxMgr("catch_warnings")), "simplefilter": Native("simplefilter", lambda *a, **k: None), "filterwarnings": Native("filterwarnings", lambda *a, **k: None)}, opaque=True)


class GenCtx:
    """context manager made from a generator function: interprets the body around its yield"""

    def __init__(self, fn, args, kwargs):
        self.gen_fn, self.args, self.kwargs = fn, args, kwargs


def contextlib_module(lib):
    def contextmanager(f):
        return NativeMethod("contextmanager", lambda *a, **k: GenCtx(f, a, k))

    return Module("contextlib", {"contextmanager": Native("contextmanager", contextmanager), "suppress": Native("suppress", lambda *a: CtxMgr("suppress", None, a)), "nullcontext": Native("nullcontext", lambda v=None: CtxMgr("nullcontext", v))}, opaque=True)


def tqdm_module(lib):
    def tqdm(iterable=None, *a, **k):
        lib.it.event("extcall", "tqdm.tqdm", (iterable,) + a, dict(k))
        o = Opaque("tqdm.tqdm()")
        o.iterable = iterable
        return o

    t = Native("tqdm.tqdm", tqdm)
    r = Native("tqdm.trange", lambda *a, **k: tqdm(range(*[int(x) for x in a])))
    return Module("tqdm", {"tqdm": t, "trange": r}, opaque=True)


def operator_module(lib):
    it = lib.it
    ns = {}
    for k, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("and_", "BitAnd"), ("or_", "BitOr"), ("matmul", "MatMult")):
        ns[k] = Native(f"operator.{k}", lambda a, b, op=op: it.binop(op, a, b))
    for k, op in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
        ns[k] = Native(f"operator.{k}", lambda a, b, op=op: it.compare(op, a, b))
    ns["neg"] = Native("neg", lambda a: it.unary("USub", a))
    ns["not_"] = Native("not_", lambda a: it.unary("Not", a))
    ns["itemgetter"] = Native("itemgetter", lambda *ks: Native("ig", lambda o: it.getitem(o, ks[0]) if len(ks) == 1 else tuple(it.getitem(o, k) for k in ks)))
    ns["attrgetter"] = Native("attrgetter", lambda n: Native("ag", lambda o: it.getattr(o, n)))
    return Module("operator", ns)


class DefaultDict(dict):
    factory = None


def collections_module(lib):
    it = lib.it

    def defaultdict(f=None, *a, **k):
        d = DefaultDict()
        d.factory = f
        if a:
            d.update(a[0])
        d.update(k)
        return d

    def deque(a=(), maxlen=None):
        d = Deque(it.iterate(a))
        d.maxlen = maxlen
        while maxlen is not None and len(d) > maxlen:
            del d[0]
        return d

    def namedtuple(name, fields, **k):
        fl = fields.replace(",", " ").split() if isinstance(fields, str) else list(fields)
        df = list(k.get("defaults") or ())
        return lib.named_tuple(name, fl, dict(zip(fl[len(fl) - len(df):], df)))

    return Module("collections", {
        "defaultdict": Native("defaultdict", defaultdict),
        "OrderedDict": Native("OrderedDict", lambda *a, **k: lib.construct(dict, list(a), k)),
        "namedtuple": Native("namedtuple", namedtuple),
        "deque": Native("deque", deque),
    }, opaque=True)


class Deque(list):
    maxlen = None


class NT(tuple):
    def __new__(cls, name, fields, vals):
        t = tuple.__new__(cls, vals)
        t.nm, t.fields = name, fields
        return t


def types_module(lib):
    def sns(**k):
        o = AObj(AClass("SimpleNamespace", [], {}, None))
        o.attrs.update(k)
        return o

    return Module("types", {"SimpleNamespace": Native("SimpleNamespace", sns), "FunctionType": TypeModel("FunctionType", lambda v: isinstance(v, (AFunc, LruCached))), "MappingProxyType": Native("MappingProxyType", lambda d: d)}, opaque=True)
