"""Abstract arrays: unbounded extents (affine sizes), lazily evaluated value-graph contents.

A Buffer is a storage location (the unit of aliasing); an Arr is a view of a buffer.  Writes
are recorded as region-guarded versions, so slicing, aliasing and in-place update have numpy's
semantics while the contents stay symbolic for every cell of a grid of any size.
"""
from fractions import Fraction
import numpy as np

from . import nodes as N
from .aff import Aff, Undecidable, as_int
from .aff import sym as affsym

_site = N.cur_site


class Unsupported(Exception):
    """the analyser has no model for a construct"""


class PyErr(Exception):
    """an exception the analysed program would raise"""

    def __init__(self, kind, msg="", obj=None):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.obj = obj
        self.site = _site[0]


# hooks installed by the interpreter
class _Hooks:
    journal = None  # callable(buf) before a write

    @staticmethod
    def on_write(buf):
        pass


HOOKS = _Hooks()
_affnode = {}
N.on_reset.append(_affnode.clear)


def node_of_aff(v):
    n = _affnode.get(v)
    if n is None:
        n = N.const(v.c)
        for s, k in v.s:
            n = N.add(n, N.mul(N.const(k), N.leaf(("sym", s), pos=1)))
        _affnode[v] = n
    return n


def to_node(v):
    if isinstance(v, N.Node):
        return v
    if isinstance(v, (bool, int, Fraction)):
        return N.const(v)
    if isinstance(v, Aff):
        return node_of_aff(v)
    if isinstance(v, Arr):
        if all(s == 1 for s in v.shape):
            return v.elem((0,) * v.ndim)
        raise PyErr("TypeError", "only size-1 arrays can be converted to scalars")
    if isinstance(v, complex):
        raise Unsupported("complex number")
    raise PyErr("TypeError", f"not a number: {type(v).__name__}")


def is_num(v):
    return isinstance(v, (bool, int, Fraction, Aff, N.Node))


def simplify_scalar(n):
    """constant nodes become host numbers"""
    if n.const is not None:
        c = n.const
        return c
    return n


def single(n):
    """value stored with reduced precision"""
    if n.const is not None and float(np.float32(float(n.const))) == n.const:
        return n
    if N.isbool(n) or (n.op == "uf" and n.args[0] in ("f32", "trunc")):
        return n
    return N.uf("f32", n)


class Buffer:
    __slots__ = ("shape", "dtype", "fn", "writes", "memo", "label", "frozen", "site", "nwrites")

    def __init__(self, shape, fn, dtype="f", label=None):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.fn = fn
        self.writes = []
        self.memo = {}
        self.label = label
        self.frozen = None
        self.site = _site[0]
        self.nwrites = 0

    def read(self, idx, ver=None):
        ver = len(self.writes) if ver is None else ver
        return _read(self.writes, self.fn, self, idx, ver)

    def cast(self, n):
        if self.dtype == "b":
            return N.truthy(n)
        if self.dtype == "i":
            if n.const is not None:
                return N.const(int(n.const))
            if N.isbool(n):
                return n
            if n.op == "uf" and n.args[0] == "trunc":
                return n
            return N.uf("trunc", n)
        if self.dtype == "s":
            return single(n)
        return n


_wid = [0]


class Write:
    __slots__ = ("map", "src", "cond", "site", "id", "full")

    def __init__(self, map_, src, cond=None, full=False):
        self.map = map_
        self.src = src
        self.cond = cond
        self.site = _site[0]
        self.full = full
        _wid[0] += 1
        self.id = _wid[0]


def _read(writes, fn, buf, idx, ver):
    # the memo key is the last write that can matter (write identity, not position)
    while ver > 0:
        w = writes[ver - 1]
        m = idx if w.full else w.map(idx)
        if m is None:
            ver -= 1
            continue
        key = (w.id, idx)
        r = buf.memo.get(key)
        if r is not None:
            return r
        old = _site[0]
        _site[0] = w.site
        try:
            v = w.src(m)
            if w.cond is not None:
                c = w.cond(m)
                if c.const is not None:
                    if c.const == 0:
                        v = _read(writes, fn, buf, idx, ver - 1)
                else:
                    v = N.where(c, buf.cast(v), _read(writes, fn, buf, idx, ver - 1))
            v = buf.cast(v)
        finally:
            _site[0] = old
        buf.memo[key] = v
        return v
    key = (0, idx)
    r = buf.memo.get(key)
    if r is None:
        old = _site[0]
        _site[0] = buf.site
        try:
            r = fn(idx)
        finally:
            _site[0] = old
        buf.memo[key] = r
    return r


_bufcount = [0]


class Arr:
    __slots__ = ("buf", "shape", "spec", "ro", "dev")

    def __init__(self, buf, shape=None, spec=None):
        self.buf = buf
        if shape is None:
            shape = buf.shape
            spec = tuple(("a", k, 0, 1) for k in range(len(shape)))
        self.shape = tuple(shape)
        self.spec = spec

    # -- basic -------------------------------------------------------------
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.buf.dtype

    def __repr__(self):
        return f"Arr{self.shape}"

    def bidx(self, idx):
        out = []
        for s in self.spec:
            if s[0] == "c":
                out.append(s[1])
            else:
                _, ax, st, step = s
                i = idx[ax]
                if step == 1:
                    out.append(i + st if st != 0 else i)
                else:
                    out.append(st + i * step)
        return tuple(out)

    def elem(self, idx, ver=None):
        return self.buf.read(self.bidx(idx), ver)

    def reader(self):
        """immutable element function capturing the current contents"""
        ver = len(self.buf.writes)
        writes = list(self.buf.writes)
        buf = self.buf
        fn = buf.fn
        bidx = self.bidx
        if self.is_full_view():
            return lambda idx: _read(writes, fn, buf, idx, ver)

        def rd(idx):
            return _read(writes, fn, buf, bidx(idx), ver)

        return rd

    def is_full_view(self):
        return self.shape == self.buf.shape and all(
            s[0] == "a" and s[1] == k and s[2] == 0 and s[3] == 1 for k, s in enumerate(self.spec)
        )

    def host_size(self):
        return all(isinstance(s, int) for s in self.shape)

    def copy(self):
        return from_fn(self.shape, self.reader(), self.dtype)

    # -- indexing ----------------------------------------------------------
    def getitem(self, key):
        v = self._view(key)
        if isinstance(v, Arr):
            if v.ndim == 0 and not _keep0d(key):
                return simplify_scalar(v.elem(()))
            return v
        return v()  # fancy

    def _norm(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n_real = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, Arr) and k.dtype == "b":
                n_real += k.ndim
            else:
                n_real += 1
        if n_real > self.ndim:
            raise PyErr("IndexError", f"too many indices for array: array is {self.ndim}-dimensional, but {n_real} were indexed")
        out = []
        ell = False
        for k in key:
            if k is Ellipsis:
                if ell:
                    raise PyErr("IndexError", "an index can only have a single ellipsis")
                ell = True
                out.extend([slice(None)] * (self.ndim - n_real))
            else:
                out.append(k)
        if not ell:
            out.extend([slice(None)] * (self.ndim - n_real))
        return out

    def _view(self, key):
        keys = self._norm(key)
        fancy = [k for k in keys if isinstance(k, (list, Arr))]
        if fancy:
            return self._fancy(keys)
        newshape = []
        axmap = {}  # in-axis -> ('c', idx) | ('a', outaxis, start, step)
        ax = 0
        for k in keys:
            if k is None:
                newshape.append(1)
                continue
            n = self.shape[ax]
            if isinstance(k, slice):
                st, ln, step = slice_bounds(k, n)
                axmap[ax] = ("a", len(newshape), st, step)
                newshape.append(ln)
            else:
                i = scalar_index(k)
                if i < 0:
                    i = i + n
                if not (i >= 0 and i < n):
                    raise PyErr("IndexError", f"index {k} is out of bounds for axis {ax} with size {n}")
                axmap[ax] = ("c", i)
            ax += 1
        spec = []
        for s in self.spec:
            if s[0] == "c":
                spec.append(s)
                continue
            _, a, st, step = s
            m = axmap[a]
            if m[0] == "c":
                spec.append(("c", st + m[1] * step))
            else:
                _, o, st2, step2 = m
                spec.append(("a", o, st + st2 * step if step == 1 or isinstance(st2, int) else st + st2 * step, step * step2))
        return Arr(self.buf, newshape, tuple(spec))

    def _fancy(self, keys):
        """returns a thunk producing the (copied) result; attributes used for setitem"""
        pos = [i for i, k in enumerate(keys) if isinstance(k, (list, Arr))]
        # boolean mask
        if any(isinstance(keys[p], Arr) and keys[p].dtype == "b" for p in pos):
            return _MaskIndex(self, keys, pos)
        if len(pos) > 1:
            # several index arrays of the same host length: pointwise selection
            return _FancyIndex(self, keys, pos)
        return _FancyIndex(self, keys, pos)

    def setitem(self, key, value):
        check_writable(self)
        v = self._view(key)
        if isinstance(v, Arr):
            assign_view(v, value)
        else:
            v.assign(value)

    def fill(self, fn, cond=None):
        """write fn(idx of this view) over the whole view"""
        check_writable(self)
        write_view(self, fn, cond)


def _keep0d(key):
    return key is Ellipsis or (isinstance(key, tuple) and len(key) == 0) or (isinstance(key, tuple) and Ellipsis in [k for k in key if not isinstance(k, Arr)])


class CacheWrite(Exception):
    pass


frozen_writes = []


def check_writable(arr):
    HOOKS.on_write(arr.buf)
    if arr.buf.frozen:
        frozen_writes.append((arr.buf.frozen, _site[0], arr.buf.label))


def scalar_index(k):
    i = as_int(k)
    if i is None and isinstance(k, N.Node) and k.const is not None:
        i = as_int(k.const)
    if i is None:
        if isinstance(k, N.Node):
            raise Unsupported(f"symbolic index {k}")
        raise PyErr("IndexError", f"only integers, slices and arrays are valid indices, got {k!r}")
    return i


def slice_bounds(k, n):
    step = k.step
    step = 1 if step is None else as_int(step)
    if step == 0:
        raise PyErr("ValueError", "slice step cannot be zero")

    def norm(b, lo, hi):
        b2 = as_int(b)
        if b2 is None:
            if isinstance(b, N.Node) and b.const is not None:
                b2 = as_int(b.const)
            if b2 is None:
                raise PyErr("TypeError", f"slice indices must be integers, got {b!r}")
        if b2 < 0:
            b2 = b2 + n
            if b2 < lo:
                b2 = lo
        elif b2 > hi:
            b2 = hi
        return b2

    if step > 0:
        st = 0 if k.start is None else norm(k.start, 0, n)
        sp = n if k.stop is None else norm(k.stop, 0, n)
        d = sp - st
    else:
        st = n - 1 if k.start is None else norm(k.start, -1, n - 1)
        sp = -1 if k.stop is None else norm(k.stop, -1, n - 1)
        d = st - sp
    if not (d > 0):
        return st, 0, step
    a = abs(step)
    if a == 1:
        return st, d, step
    if isinstance(d, int):
        return st, -(-d // a), step
    return st, (d + (a - 1)) // a, step


class _FancyIndex:
    def __init__(self, arr, keys, pos):
        self.arr = arr
        lists = {}
        shapes = None
        for p in pos:
            k = keys[p]
            if isinstance(k, list):
                k = from_list(k)
            if not k.host_size():
                raise Unsupported("fancy index of symbolic length")
            lists[p] = k
            shapes = k.shape if shapes is None else broadcast_shapes(shapes, k.shape)
        if pos != list(range(pos[0], pos[0] + len(pos))):
            raise Unsupported("separated fancy indices")
        # ints adjacent to fancy are advanced too; only support them after/before contiguous
        self.nf = len(shapes)
        shape = []
        self.plan = []  # per arr axis: ('f', Arr) ('a', out, st, step) ('c', i)
        ax = 0
        placed = False
        self.fshape = shapes
        hasint = any(not isinstance(k, (slice, list, Arr)) and k is not None for k in keys)
        if hasint:
            # numpy: advanced ints broadcast with the fancy index; only contiguous handled
            ip = [i for i, k in enumerate(keys) if not isinstance(k, slice) and k is not None]
            if ip != list(range(ip[0], ip[0] + len(ip))):
                raise Unsupported("mixed advanced indices")
        for i, k in enumerate(keys):
            if k is None:
                shape.append(1)
                continue
            n = arr.shape[ax]
            if i in lists:
                if not placed:
                    self.fstart = len(shape)
                    shape.extend(shapes)
                    placed = True
                host = [scalar_index(simplify_scalar(lists[i].elem(ix))) for ix in host_indices(lists[i].shape)]
                for h in host:
                    if not (h >= -n if isinstance(n, int) else True) or not (h < n):
                        raise PyErr("IndexError", f"index {h} is out of bounds for axis {ax} with size {n}")
                self.plan.append(("f", lists[i], n))
            elif isinstance(k, slice):
                st, ln, step = slice_bounds(k, n)
                self.plan.append(("a", len(shape), st, step))
                shape.append(ln)
            else:
                j = scalar_index(k)
                if j < 0:
                    j = j + n
                self.plan.append(("c", j))
            ax += 1
        self.shape = tuple(shape)

    def src_idx(self, idx):
        out = []
        f = idx[self.fstart:self.fstart + self.nf]
        for p in self.plan:
            if p[0] == "c":
                out.append(p[1])
            elif p[0] == "a":
                out.append(p[2] + idx[p[1]] * p[3])
            else:
                k = p[1]
                fi = tuple(0 if s == 1 else x for s, x in zip(k.shape, f[self.nf - k.ndim:]))
                j = scalar_index(simplify_scalar(k.elem(fi)))
                out.append(j + p[2] if j < 0 else j)
        return tuple(out)

    def __call__(self):
        rd = self.arr.reader()
        return from_fn(self.shape, lambda idx: rd(self.src_idx(idx)), self.arr.dtype)

    def assign(self, value):
        src = broadcast_reader(value, self.shape)
        # one write per fancy tuple
        for f in host_indices(self.fshape):
            sub = []
            for p in self.plan:
                if p[0] == "c":
                    sub.append(p[1])
                elif p[0] == "a":
                    sub.append(p)
                else:
                    k = p[1]
                    fi = tuple(0 if s == 1 else x for s, x in zip(k.shape, f[self.nf - k.ndim:]))
                    sub.append(scalar_index(simplify_scalar(k.elem(fi))))
            newkeys = []
            amap = []
            for ax, s in enumerate(sub):
                if isinstance(s, tuple):
                    newkeys.append(_ViewSlice(s[2], self.shape[s[1]], s[3]))
                    amap.append(s[1])
                else:
                    newkeys.append(s)
            view = _raw_view(self.arr, newkeys)

            def fn(idx, f=f, amap=tuple(amap)):
                full = [0] * len(self.shape)
                full[self.fstart:self.fstart + self.nf] = list(f)
                for o, x in zip(amap, idx):
                    full[o] = x
                return src(tuple(full))

            write_view(view, fn)


class _ViewSlice:
    def __init__(self, st, ln, step):
        self.st, self.ln, self.step = st, ln, step


def _raw_view(arr, keys):
    shape = []
    axmap = {}
    for ax, k in enumerate(keys):
        if isinstance(k, _ViewSlice):
            axmap[ax] = ("a", len(shape), k.st, k.step)
            shape.append(k.ln)
        else:
            n = arr.shape[ax]
            axmap[ax] = ("c", k + n if k < 0 else k)
    spec = []
    for s in arr.spec:
        if s[0] == "c":
            spec.append(s)
            continue
        _, a, st, step = s
        m = axmap[a]
        if m[0] == "c":
            spec.append(("c", st + m[1] * step))
        else:
            spec.append(("a", m[1], st + m[2] * step, step * m[3]))
    return Arr(arr.buf, shape, tuple(spec))


class _MaskIndex:
    def __init__(self, arr, keys, pos):
        self.arr = arr
        if len(pos) != 1:
            raise Unsupported("mixed boolean mask")
        self.p = pos[0]
        self.keys = keys
        self.mask = keys[self.p]
        if any(not (isinstance(k, slice) and k == slice(None)) for i, k in enumerate(keys) if i != self.p):
            # view first with the basic keys, then mask
            nb = self.mask.ndim
            basic = []
            for i, k in enumerate(keys):
                if i == self.p:
                    basic.extend([slice(None)] * nb)
                else:
                    basic.append(k)
            ints_before = sum(1 for k in keys[: self.p] if not isinstance(k, slice) and k is not None)
            self.arr = arr._view(tuple(basic))
            self.p = self.p - ints_before
        self.ax0 = self.p

    def __call__(self):
        mask = self.mask
        if mask.host_size():
            sel = []
            for ix in host_indices(mask.shape):
                c = mask.elem(ix).const
                if c is None:
                    return Selection(self.arr, self.mask, self.ax0)
                if c:
                    sel.append(ix)
            rd = self.arr.reader()
            a0, nb = self.ax0, mask.ndim
            shape = self.arr.shape[:a0] + (len(sel),) + self.arr.shape[a0 + nb:]
            return from_fn(shape, lambda idx: rd(idx[:a0] + sel[idx[a0]] + idx[a0 + 1:]), self.arr.dtype)
        return Selection(self.arr, self.mask, self.ax0)

    def assign(self, value):
        arr, mask, a0 = self.arr, self.mask, self.ax0
        mr = mask.reader()
        nb = mask.ndim

        def cond(idx):
            sub = idx[a0:a0 + nb]
            sub = tuple(0 if s == 1 else x for s, x in zip(mask.shape, sub))
            return N.truthy(mr(sub))

        if isinstance(value, Selection):
            if value.mask_sig() != Selection(arr, mask, a0).mask_sig():
                raise Unsupported("masked assignment from a different selection")
            rd = value.arr.reader()
            write_view(arr, value.elemfn or rd, cond)
            return
        if isinstance(value, Arr) and value.ndim > 0 and any(s != 1 for s in value.shape[-1:]) and nb:
            # value broadcast along selected axis unknown: only leading axes may vary
            if value.shape[-1] != 1:
                raise Unsupported("masked assignment of an array")
        src = broadcast_reader(value, (1,) * 0) if not isinstance(value, Arr) else None
        if src is None:
            rd = value.reader()
            vs = value.shape

            def srcf(idx):
                head = idx[:a0]
                full = head + (0,)
                full = full[len(full) - len(vs):]
                return rd(tuple(0 if s == 1 else x for s, x in zip(vs, full)))

            write_view(arr, srcf, cond)
        else:
            write_view(arr, lambda idx: src(()), cond)


class Selection:
    """value of arr[mask] for a symbolic mask: a lazily masked array (elementwise use only)"""

    def __init__(self, arr, mask, ax0, elemfn=None):
        self.arr = arr
        self.mask = mask
        self.ax0 = ax0
        self.elemfn = elemfn

    def mask_sig(self):
        mr = self.mask
        idx = tuple(affsym(f"m{k}") if isinstance(s, Aff) else 0 for k, s in enumerate(mr.shape))
        return (self.ax0, mr.elem(idx).id)


# ------------------------------------------------------------------ writes
def write_view(view, fn, cond=None):
    """record a write over a view; fn/cond take view indices"""
    buf = view.buf
    if any((not isinstance(s, Aff)) and s == 0 for s in view.shape):
        return
    spec = view.spec
    shape = view.shape
    nd = len(shape)
    if view.is_full_view():
        buf.writes = buf.writes + [Write(None, fn, cond, full=True)]
        return
    mapped = [None] * nd
    for k, s in enumerate(spec):
        if s[0] == "a":
            mapped[s[1]] = k

    def map_(idx):
        out = [0] * nd
        for k, s in enumerate(spec):
            if s[0] == "c":
                if idx[k] != s[1]:
                    # distinct symbolic positions are distinct cells
                    return None
            else:
                _, o, st, step = s
                d = idx[k] - st
                if step == -1:
                    d = -d if isinstance(d, (int, Aff)) else d
                elif step != 1:
                    if step < 0:
                        d = -d
                    a = abs(step)
                    if isinstance(d, int):
                        if d % a:
                            return None
                        d = d // a
                    else:
                        if d % a != 0:
                            return None
                        d = d // a
                if d < 0 or d >= shape[o]:
                    return None
                out[o] = d
        return tuple(out)

    buf.writes = buf.writes + [Write(map_, fn, cond)]


def broadcast_reader(value, shape):
    """element function of value broadcast to shape (numpy assignment rules)"""
    if isinstance(value, Arr):
        vs = list(value.shape)
        while len(vs) > len(shape) and vs[0] == 1:
            vs = vs[1:]
        drop = value.ndim - len(vs)
        if len(vs) > len(shape):
            raise PyErr("ValueError", f"could not broadcast input array from shape {value.shape} into shape {tuple(shape)}")
        off = len(shape) - len(vs)
        for k, s in enumerate(vs):
            if s != 1 and not dim_eq(s, shape[off + k]):
                raise PyErr("ValueError", f"could not broadcast input array from shape {value.shape} into shape {tuple(shape)}")
        rd = value.reader()
        ones = [s == 1 for s in vs]

        def f(idx):
            return rd((0,) * drop + tuple(0 if o else x for o, x in zip(ones, idx[off:])))

        return f
    if isinstance(value, (list, tuple)):
        return broadcast_reader(from_list(list(value)), shape)
    if isinstance(value, Selection):
        raise Unsupported("masked value used as a whole array")
    n = to_node(value)
    return lambda idx: n


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b


def assign_view(view, value):
    src = broadcast_reader(value, view.shape)
    write_view(view, src)


# ------------------------------------------------------------------ construction
def from_fn(shape, fn, dtype="f", label=None):
    return Arr(Buffer(shape, fn, dtype, label))


def host_indices(shape):
    if not shape:
        yield ()
        return
    n = shape[0]
    if not isinstance(n, int):
        raise Unsupported("enumeration of a symbolic axis")
    for i in range(n):
        for r in host_indices(shape[1:]):
            yield (i,) + r


def scalar_dtype(v):
    if isinstance(v, bool):
        return "b"
    if isinstance(v, (int, Aff)):
        return "i"
    if isinstance(v, N.Node):
        return "f"
    return "f"


_order = {"b": 0, "i": 1, "s": 2, "f": 3}


def join_dtype(*ds):
    return max(ds, key=lambda d: _order.get(d, 3))


def from_list(v, dtype=None):
    """nested host list of numbers / arrays -> Arr"""

    if isinstance(v, Arr):
        return v if dtype is None or dtype == v.dtype else astype(v, dtype)
    if not isinstance(v, (list, tuple)):
        n = to_node(v)
        return from_fn((), lambda idx: n, dtype or scalar_dtype(v))
    items = [from_list(x) for x in v]
    if not items:
        return from_fn((0,), lambda idx: N.ZERO, dtype or "f")
    sh = items[0].shape
    for it in items:
        if len(it.shape) != len(sh) or not all(dim_eq(a, b) for a, b in zip(it.shape, sh)):
            raise PyErr("ValueError", "inhomogeneous shape")
    rds = [it.reader() for it in items]
    dt = dtype or join_dtype(*[it.dtype for it in items])
    out = from_fn((len(items),) + sh, lambda idx: rds[idx[0]](idx[1:]), dt)
    if dtype is not None:
        return astype(out, dtype)
    return out


def astype(a, dt):
    if dt == a.dtype:
        return a.copy()
    rd = a.reader()
    tmp = Buffer((), None, dt)
    return from_fn(a.shape, lambda idx: tmp.cast(rd(idx)), dt)


def full(shape, value, dtype="f"):
    n = to_node(value)
    n = Buffer((), None, dtype).cast(n)
    return from_fn(norm_shape(shape), lambda idx: n, dtype)


_undef = [0]


def empty(shape, dtype="f"):
    _undef[0] += 1
    site = _site[0]
    tag = _undef[0]
    return from_fn(
        norm_shape(shape),
        lambda idx: N.undef(("uninitialised", tag, str(site)) + tuple(map(str, idx))),
        dtype,
    )


def norm_shape(shape):
    if isinstance(shape, Arr):
        shape = [scalar_index(simplify_scalar(shape.elem((i,)))) for i in range(shape.shape[0])]
    if isinstance(shape, (list, tuple)):
        out = []
        for s in shape:
            v = as_int(s)
            if v is None:
                raise PyErr("TypeError", f"'{s}' cannot be interpreted as an integer")
            out.append(v)
        return tuple(out)
    v = as_int(shape)
    if v is None:
        raise PyErr("TypeError", f"'{shape}' cannot be interpreted as an integer")
    return (v,)


def broadcast_shapes(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        dims = []
        for s in shapes:
            j = k - (nd - len(s))
            if j >= 0 and s[j] != 1:
                dims.append(s[j])
        if not dims:
            out.append(1)
            continue
        d = dims[0]
        for e in dims[1:]:
            if not dim_eq(d, e):
                raise PyErr("ValueError", f"operands could not be broadcast together with shapes {' '.join(map(str, shapes))}")
        out.append(d)
    return tuple(out)


def elementwise(f, *ops, dtype=None):
    """apply node function f over broadcast operands (Arr or scalars)"""
    sel = [o for o in ops if isinstance(o, Selection)]
    if sel:
        return _sel_elementwise(f, ops, sel, dtype)
    arrs = [o for o in ops if isinstance(o, Arr)]
    if not arrs:
        return simplify_scalar(f(*[to_node(o) for o in ops]))
    shape = broadcast_shapes(*[a.shape for a in arrs])
    rds = []
    for o in ops:
        if isinstance(o, Arr):
            off = len(shape) - o.ndim
            ones = [s == 1 for s in o.shape]
            if all((not b) or shape[off + k] == 1 for k, b in enumerate(ones)):
                ones = None
            rds.append((o.reader(), off, ones))
        else:
            rds.append((to_node(o), None, None))

    def fn(idx):
        vals = []
        for r, off, ones in rds:
            if off is None:
                vals.append(r)
            else:
                if off:
                    idx2 = idx[off:]
                else:
                    idx2 = idx
                if ones is None:
                    vals.append(r(idx2))
                else:
                    vals.append(r(tuple([0 if o else x for o, x in zip(ones, idx2)])))
        return f(*vals)

    if dtype is None:
        dtype = join_dtype(*[o.dtype if isinstance(o, Arr) else scalar_dtype(o) for o in ops])
    out = from_fn(shape, fn, dtype)
    return out


def _sel_elementwise(f, ops, sel, dtype):
    sig = sel[0].mask_sig()
    for s in sel[1:]:
        if s.mask_sig() != sig:
            raise Unsupported("combination of different masked selections")
    fns = []
    for o in ops:
        if isinstance(o, Selection):
            fns.append(o.elemfn or o.arr.reader())
        elif isinstance(o, Arr) and o.ndim > 0:
            raise Unsupported("array combined with masked selection")
        else:
            n = to_node(o)
            fns.append(lambda idx, n=n: n)
    return Selection(sel[0].arr, sel[0].mask, sel[0].ax0, lambda idx: f(*[g(idx) for g in fns]))


# ------------------------------------------------------------------ reductions
class RedInfo:
    """what a symbolic reduction ranges over (for coverage checks)"""

    def __init__(self, kind, arr_shape, axes, generic):
        self.kind = kind
        self.shape = arr_shape
        self.axes = axes
        self.generic = generic


red_log = {}
N.on_reset.append(red_log.clear)


def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        ax = tuple(as_int(a) for a in axis)
    else:
        ax = (as_int(axis),)
    out = []
    for a in ax:
        if not -nd <= a < nd:
            raise PyErr("AxisError", f"axis {a} is out of bounds for array of dimension {nd}")
        out.append(a % nd)
    return tuple(out)


FOLD = {
    "sum": lambda xs: _fold(N.add, xs, N.ZERO),
    "prod": lambda xs: _fold(N.mul, xs, N.ONE),
    "max": lambda xs: N.nary("max", xs),
    "min": lambda xs: N.nary("min", xs),
    "any": lambda xs: _fold(N.lor, [N.truthy(x) for x in xs], N.ZERO),
    "all": lambda xs: _fold(N.land, [N.truthy(x) for x in xs], N.ONE),
}


def _fold(f, xs, z):
    xs = list(xs)
    if not xs:
        return z
    acc = xs[0]
    for x in xs[1:]:
        acc = f(acc, x)
    return acc


def reduce(kind, a, axis=None, keepdims=False, initial=None, where=None):
    if not isinstance(a, Arr):
        if isinstance(a, (list, tuple)):
            a = from_list(a)
        else:
            n = to_node(a)
            return simplify_scalar(N.truthy(n) if kind in ("any", "all") else n)
    if where is not None and where is not True:
        neutral = {"sum": 0, "prod": 1, "any": 0, "all": 1}.get(kind)
        if neutral is None:
            if initial is None:
                raise Unsupported("masked max/min reduction")
            neutral = initial
        a = elementwise(lambda c, x, z: N.where(c, x, z), where, a, neutral)
    axes = norm_axis(axis, a.ndim)
    keep = [k for k in range(a.ndim) if k not in axes]
    outshape = tuple(1 if k in axes else a.shape[k] for k in range(a.ndim)) if keepdims else tuple(a.shape[k] for k in keep)
    rd = a.reader()
    host = [k for k in axes if isinstance(a.shape[k], int)]
    symb = [k for k in axes if not isinstance(a.shape[k], int)]
    if kind == "mean":
        tot = reduce("sum", a, axis, keepdims)
        cnt = N.ONE
        for k in axes:
            cnt = N.mul(cnt, to_node(a.shape[k]))
        return elementwise(lambda x: N.div(x, cnt), tot)
    dt = {"any": "b", "all": "b"}.get(kind, a.dtype if kind != "sum" or a.dtype != "b" else "i")
    shp = a.shape
    foldk = FOLD[kind]

    def fn(idx):
        base = [None] * len(shp)
        if keepdims:
            for k in keep:
                base[k] = idx[k]
        else:
            for k, x in zip(keep, idx):
                base[k] = x
        vals = []
        for h in host_indices(tuple(shp[k] for k in host)):
            b = list(base)
            for k, x in zip(host, h):
                b[k] = x
            vals.append(_red_symbolic(kind, rd, b, symb, shp))
        if not vals and kind in ("max", "min"):
            raise PyErr("ValueError", "zero-size array to reduction operation")
        v = foldk(vals)
        if initial is not None:
            v = foldk([v, to_node(initial)])
        return v

    if not outshape:
        return simplify_scalar(fn(()))
    return from_fn(outshape, fn, dt)


red_hook = [None]
_red_depth = [0]


def _red_symbolic(kind, rd, base, symb, shp):
    if not symb:
        return rd(tuple(base))
    b = list(base)
    names = {k: f"iq{k}_{_red_depth[0]}" for k in symb}
    for k in symb:
        b[k] = affsym(names[k])
    _red_depth[0] += 1
    try:
        return _red_body(kind, rd, base, b, symb, shp, set(names.values()))
    finally:
        _red_depth[0] -= 1


def _red_body(kind, rd, base, b, symb, shp, names):
    g = rd(tuple(b))
    # uniform array?
    if not depends_on_bound(g, names):
        edges_same = True
        for k in symb:
            for e in (0, shp[k] - 1):
                c = list(b)
                c[k] = e
                if rd(tuple(c)) is not g:
                    edges_same = False
        if edges_same:
            if kind in ("max", "min"):
                return g
            if kind in ("any", "all"):
                return N.truthy(g)
            if kind == "sum":
                v = g
                for k in symb:
                    v = N.mul(v, to_node(shp[k]))
                return v
    if kind in ("any", "all"):
        g = N.truthy(g)
    gc = canon_bound(g, names)
    r = N.red((kind,), gc)
    red_log.setdefault((N.neg(r) if r.op == "neg" else r).id, []).append((kind, tuple(shp), tuple(symb), tuple(base), g, rd))
    return r


def _leaf_affs(nm):
    return [x for x in nm if isinstance(x, Aff)] if isinstance(nm, tuple) else []


def depends_on_bound(g, names):
    for lf in N.leaves(g).values():
        nm = lf.args[0]
        if isinstance(nm, tuple):
            if nm[0] == "sym" and nm[1] in names:
                return True
            for x in _leaf_affs(nm):
                if any(s in names for s, _ in x.s):
                    return True
    return False


def canon_bound(g, names):
    """close a reduction body: bound indices are shift-normalised and renamed canonically
    (invariance under reindexing and under permuting the array axes)"""
    lo, sig = {}, {s: set() for s in names}
    rev = {}
    level = 0
    for lf in N.leaves(g).values():
        nm = lf.args[0]
        if isinstance(nm, tuple) and nm[0] == "sym" and isinstance(nm[1], str):
            if nm[1] in names:
                sig[nm[1]].add(("sym", 0))
            if nm[1].startswith("ib"):
                level = max(level, 1 + int(nm[1][2:].split("_")[0]))
        if not isinstance(nm, tuple):
            continue
        for pos, x in enumerate(nm):
            if not isinstance(x, Aff):
                continue
            for s, k in x.s:
                if s in names:
                    sig[s].add((str(nm[0]), pos))
                    rest = x - affsym(s) * k
                    rev.setdefault((s, k), []).append(rest)
                    if k == 1:
                        if s not in lo or (lo[s] is not None and x.c < lo[s]):
                            lo[s] = x.c
                    else:
                        lo[s] = None
                elif s.startswith("ib"):
                    level = max(level, 1 + int(s[2:].split("_")[0]))
    # indices that only ever run backwards are reversed
    back = {}
    for s in names:
        if (s, -1) in rev and not any((s, k) in rev for k in (1, 2, -2)):
            base = rev[(s, -1)][0]
            offs = [r - base for r in rev[(s, -1)]]
            if all(isinstance(o, int) or not o.s for o in offs):
                m = min(o if isinstance(o, int) else o.c for o in offs)
                back[s] = base + m
    order = sorted(names, key=lambda s: (sorted(sig[s]), s))
    new = {s: affsym(f"ib{level}_{j}") for j, s in enumerate(order)}

    def lm(lf):
        nm = lf.args[0]
        if not isinstance(nm, tuple):
            return None
        if nm[0] == "sym" and nm[1] in names:
            if nm[1] in back:
                return to_node(back[nm[1]] - new[nm[1]])
            return to_node(new[nm[1]] - (lo.get(nm[1]) or 0))
        out = []
        ch = False
        for x in nm:
            if isinstance(x, Aff):
                for s, k in x.s:
                    if s in back:
                        x = x + affsym(s) - back[s] + new[s]
                        ch = True
                    elif s in names:
                        x = x - affsym(s) * k + (new[s] - (lo.get(s) or 0)) * k
                        ch = True
            out.append(x)
        if ch:
            return N.leaf(tuple(out), pos=lf.pos)
        return None

    return N.rebuild(g, lm)


def simplify_bool(n):
    if n.const is not None:
        return bool(n.const)
    return n
