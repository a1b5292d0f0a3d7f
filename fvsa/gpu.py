"""Host/device effect system for the GPU path.

Every abstract array carries the memory it lives in.  The rules are those of CuPy's documented
behaviour: NumPy functions called with device arrays dispatch to the device, operations on a mix of host
and device arrays raise TypeError, converting a device array to NumPy implicitly raises TypeError,
reductions of device arrays stay on the device (0-d arrays) until .item()/float()/.get() brings
them back, cupy.asarray copies to the device, cupy.asnumpy to the host.
"""
from fractions import Fraction

from . import arrays as A
from . import interp as I
from . import nodes as N
from .aff import Aff
from .arrays import Arr, PyErr

IMPLICIT = "Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly."
NO_DISPATCH = {"array", "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "fromiter", "save", "savez", "savetxt"}
METADATA = {"shape", "ndim", "size", "isscalar", "result_type", "dtype", "issubdtype", "can_cast", "iterable", "may_share_memory", "shares_memory"}
TO_HOST = {"float", "int", "bool", "str", "repr", "format", "len", "isinstance", "type", "id", "hash", "callable", "hasattr", "getattr", "print", "numpy.float64"}
ATTR_META = {"shape", "ndim", "size", "dtype", "nbytes", "itemsize", "flags", "strides"}


def is_dev(v):
    return isinstance(v, (Arr, A.Selection)) and getattr(v, "dev", False)


def arrs(v, out, depth=4):
    if isinstance(v, (Arr, A.Selection)):
        out.append(v)
    elif depth and isinstance(v, (list, tuple)):
        for x in v:
            arrs(x, out, depth - 1)
    elif depth and isinstance(v, dict):
        for x in v.values():
            arrs(x, out, depth - 1)
    return out


def tag(v, old=()):
    """mark a result as device memory; scalars become 0-d device arrays"""
    if isinstance(v, (Arr, A.Selection)):
        if not getattr(v, "dev", False) and not any(v is o for o in old):
            v.dev = True
        return v
    if isinstance(v, bool) or isinstance(v, (int, Fraction, Aff, N.Node)):
        n = A.to_node(v)
        r = A.from_fn((), lambda i: n, "b" if isinstance(v, bool) or isinstance(v, N.Node) and N.isbool(v) else "f")
        r.dev = True
        return r
    if isinstance(v, tuple):
        return tuple(tag(x, old) for x in v)
    if isinstance(v, list):
        return [tag(x, old) for x in v]
    return v


def plain(v):
    """0-d device array -> its node (for host-side models)"""
    if isinstance(v, Arr) and v.ndim == 0 and getattr(v, "dev", False):
        return A.simplify_scalar(v.elem(()))
    if isinstance(v, list):
        return [plain(x) for x in v]
    if type(v) is tuple:
        return tuple(plain(x) for x in v)
    return v


class GpuInterp(I.Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, cupy=True, **k)
        self.transfers = []  # (direction, site)
        self._np()

    # -- library ------------------------------------------------------------------
    def _np(self):
        from . import libmods

        np = libmods.np_module(self.lib)
        self.np_fns = {id(v): n for n, v in np.ns.items() if isinstance(v, I.Native)}
        isarr = np.ns["ndarray"].pred
        np.ns["ndarray"] = I.TypeModel("numpy.ndarray", lambda v: isarr(v) and not is_dev(v), np.ns["ndarray"].fn)
        self.np_fns[id(np.ns["ndarray"])] = "ndarray"
        cp = I.Module("cupy", dict(np.ns))
        self.cp_fns = {}
        for n, v in list(cp.ns.items()):
            if isinstance(v, I.TypeModel):
                continue
            if isinstance(v, I.Native):
                w = I.Native("cupy." + n, v.fn)
                for q in ("attrs",):
                    if hasattr(v, q):
                        setattr(w, q, getattr(v, q))
                cp.ns[n] = w
                self.cp_fns[id(w)] = n
        cp.ns["ndarray"] = I.TypeModel("cupy.ndarray", lambda v: isarr(v) and is_dev(v), np.ns["ndarray"].fn)

        def to_dev(a, dtype=None, copy=None, **k):
            if is_dev(a) and not copy:
                return a
            if isinstance(a, (list, tuple)) and any(is_dev(x) for x in arrs(a, [])):
                a = np.ns["array"].fn(plain(a))
            r = np.ns["array"].fn(a) if not isinstance(a, Arr) else a.copy()
            if not isinstance(r, Arr):
                n = A.to_node(r)
                r = A.from_fn((), lambda i: n, "f")
            if dtype is not None:
                r = np.ns["array"].fn(r, dtype=dtype)
            self.transfers.append(("to device", N.cur_site[0]))
            r.dev = True
            return r

        def to_host(a, *r, **k):
            if isinstance(a, Arr):
                if is_dev(a):
                    self.transfers.append(("to host", N.cur_site[0]))
                    b = a.copy()
                    b.dev = False
                    return b
                return a
            return np.ns["asarray"].fn(a)

        for n, f in (("asarray", to_dev), ("asanyarray", to_dev), ("ascontiguousarray", to_dev), ("array", lambda a, dtype=None, copy=True, **k: to_dev(a, dtype, copy)), ("asnumpy", to_host)):
            cp.ns[n] = I.Native("cupy:" + n, f)
        cp.getter = np.getter
        self.cp_mod = cp
        nd = libmods.ndimage_module(self.lib)
        self.nd_fns = {}
        cnd = I.Module("cupyx.scipy.ndimage", dict(nd.ns))
        for n, v in list(cnd.ns.items()):
            if isinstance(v, I.Native):
                w = I.Native("cupyx." + n, v.fn)
                cnd.ns[n] = w
                self.cp_fns[id(w)] = n
        self.cnd_mod = cnd

    def import_module(self, name):
        if name == "cupy":
            return self.cp_mod
        if name == "cupyx.scipy.ndimage":
            return self.cnd_mod
        return super().import_module(name)

    def err(self, msg):
        raise PyErr("TypeError", msg)

    def mixed(self, xs):
        d = [getattr(x, "dev", False) for x in xs]
        return any(d) and not all(d)

    # -- operators ----------------------------------------------------------------
    def _op(self, f, a, b):
        xs = [x for x in (a, b) if isinstance(x, (Arr, A.Selection))]
        if not any(is_dev(x) for x in xs):
            return f(a, b)
        if self.mixed(xs):
            self.err("Unsupported type <class 'numpy.ndarray'> (operands in host and device memory)")
        return tag(f(plain(a), plain(b)))

    def binop(self, op, a, b):
        return self._op(lambda x, y: super(GpuInterp, self).binop(op, x, y), a, b)

    def compare(self, op, a, b):
        if op in ("Is", "IsNot", "In", "NotIn"):
            return super().compare(op, a, b)
        return self._op(lambda x, y: super(GpuInterp, self).compare(op, x, y), a, b)

    def unary(self, op, v):
        if not is_dev(v):
            return super().unary(op, v)
        r = super().unary(op, plain(v))
        return r if op == "Not" else tag(r)

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr) and isinstance(v, Arr) and self.mixed([cur, v]):
            self.err("Unsupported type <class 'numpy.ndarray'> (in-place operation across host and device)")
        if is_dev(cur) and cur.ndim == 0:
            return tag(self.binop(op, cur, v))
        return super().inplace(op, cur, v)

    def merge(self, cond, a, b):
        r = super().merge(cond, plain(a), plain(b))
        if is_dev(a) or is_dev(b):
            return tag(r)
        return r

    # -- indexing -----------------------------------------------------------------
    def _key(self, o, k):
        ks = arrs(k if isinstance(k, tuple) else (k,), [])
        if isinstance(o, (Arr, A.Selection)) and not is_dev(o) and any(is_dev(x) and x.ndim for x in ks):
            self.err(IMPLICIT)
        return plain(k)

    def getitem(self, o, k):
        if isinstance(o, (Arr, A.Selection)):
            k = self._key(o, k)
            r = super().getitem(o, k)
            return tag(r) if is_dev(o) else r
        return super().getitem(o, plain(k) if isinstance(k, Arr) else k)

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            k = self._key(o, k)
            xs = arrs(v, [])
            if any(is_dev(x) != is_dev(o) for x in xs):
                self.err(IMPLICIT if not is_dev(o) else "Unsupported type <class 'numpy.ndarray'> (host values assigned to a device array)")
            if is_dev(o) and isinstance(v, (list,)):
                self.err("Unsupported type <class 'list'>")
            v = plain(v)
        super().setitem(o, k, v)

    def iterate(self, v):
        r = super().iterate(v)
        if is_dev(v):
            return [tag(x) for x in r]
        return r

    def truth(self, v):
        return super().truth(plain(v))

    # -- attributes and calls ------------------------------------------------------
    def getattr(self, o, name):
        if not isinstance(o, Arr):
            return super().getattr(o, name)
        if not is_dev(o):
            if name in ("get", "device"):
                raise PyErr("AttributeError", f"'numpy.ndarray' object has no attribute '{name}'")
            return super().getattr(o, name)
        if name in ATTR_META:
            return super().getattr(o, name)
        if name == "get":
            def get(*a, **k):
                self.transfers.append(("to host", N.cur_site[0]))
                r = o.copy()
                r.dev = False
                return r

            return I.Native("get", get)
        if name in ("item", "tolist"):
            self.transfers.append(("to host", N.cur_site[0]))
            return super().getattr(o, name)
        if name == "__array__":
            self.err(IMPLICIT)
        r = super().getattr(o, name)
        if isinstance(r, I.Native):
            def m(*a, **k):
                xs = arrs(a, []) + arrs(k, [])
                if any(not is_dev(x) for x in xs):
                    self.err(f"Unsupported type <class 'numpy.ndarray'> (ndarray.{name} across host and device)")
                return tag(r.fn(*[plain(x) for x in a], **{q: plain(x) for q, x in k.items()}), (o,))

            return I.Native(r.name, m)
        return tag(r)

    def call(self, f, args, kwargs):
        if isinstance(f, I.Opaque):
            if any(is_dev(x) for x in arrs(list(args), []) + arrs(kwargs, [])) and not f.name.startswith(("cupy", "tqdm")):
                self.err(IMPLICIT + f" (argument of {f.name})")
            return super().call(f, args, kwargs)
        if not isinstance(f, I.Native) or isinstance(f, I.TypeModel) and id(f) not in self.np_fns:
            return super().call(f, args, kwargs)
        name = f.name
        if name.startswith("cupy:"):
            return super().call(f, args, kwargs)
        xs = arrs(list(args), []) + arrs(kwargs, [])
        devs = [x for x in xs if is_dev(x)]
        if id(f) in self.cp_fns:
            n = self.cp_fns[id(f)]
            if n.endswith("_filter") and isinstance(kwargs.get("footprint"), Arr):  # cupyx converts footprints itself
                fp = kwargs["footprint"].copy()
                fp.dev = True
                kwargs = dict(kwargs, footprint=fp)
                xs = arrs(list(args), []) + arrs(kwargs, [])
            if any(not is_dev(x) for x in xs):
                self.err(f"cupy.{n}: Unsupported type <class 'numpy.ndarray'>")
            r = super().call(f, plain(list(args)), {k: plain(v) for k, v in kwargs.items()})
            return r if n in METADATA else tag(r, xs)
        if not devs:
            return super().call(f, args, kwargs)
        if id(f) in self.np_fns:
            n = self.np_fns[id(f)]
            if n in NO_DISPATCH:
                self.err(IMPLICIT + f" (numpy.{n})")
            if n in METADATA:
                return super().call(f, plain(list(args)), kwargs)
            if any(not is_dev(x) for x in xs):
                self.err(f"numpy.{n}: Unsupported type <class 'numpy.ndarray'> (arguments in host and device memory)")
            r = super().call(f, plain(list(args)), {k: plain(v) for k, v in kwargs.items()})
            return tag(r, xs)
        if name.startswith(("scipy.", "ndimage", "maximum_filter", "minimum_filter")) and not name.startswith("cupyx."):
            self.err(IMPLICIT + f" ({name})")
        if name in TO_HOST:
            if name in ("isinstance", "type", "callable", "hasattr", "getattr", "id", "print", "len"):
                return super().call(f, args, kwargs)
            return super().call(f, plain(list(args)), {k: plain(v) for k, v in kwargs.items()})
        if name in ("min", "max", "abs", "sum", "round", "pow"):
            return tag(super().call(f, plain(list(args)), {k: plain(v) for k, v in kwargs.items()}), xs)
        r = super().call(f, args, kwargs)
        old = {id(x) for x in xs}
        for q in arrs(r, []):
            if id(q) not in old and not getattr(q, "dev", False) and not name.startswith(("cupy.asnumpy", "get", "item", "tolist")):
                q.dev = True
        return r
