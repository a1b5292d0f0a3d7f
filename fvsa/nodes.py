"""Hash-consed value graph with algebraic value numbering.

Every abstract scalar is a node of a DAG.  Two nodes denote the same value number iff their
fingerprints agree; a fingerprint is a vector of residues modulo a prime obtained by giving
each *opaque* operand (leaf, uninterpreted function, comparison) independent pseudo-random
residues/bits and interpreting + - * / exactly ("random interpretation" global value
numbering).  The numbering therefore is closed under ring/field identities, distributes over
gates (`where`) and treats comparisons as uninterpreted except for the axioms coded here
(antisymmetry, positive scaling, sign rules, max/min as commutative-associative-idempotent).
Nothing of the analysed program is executed: no input values exist.
"""
import hashlib
import os
from fractions import Fraction

import numpy as np

P = (1 << 31) - 1
L = 96
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
_C1 = np.uint64(0x9E3779B97F4A7C15)
_C2 = np.uint64(0xBF58476D1CE4E5B9)
_C3 = np.uint64(0x94D049BB133111EB)
_SALT = np.random.default_rng(SEED).integers(1, 1 << 62, size=L).astype(np.uint64)


def _seed_of(name):
    h = hashlib.blake2b(repr(name).encode(), digest_size=8).digest()
    return np.uint64(int.from_bytes(h, "little"))


_seedcache = {}


def seed_of(name):
    s = _seedcache.get(name)
    if s is None:
        s = _seedcache[name] = _seed_of(name)
    return s


def _mix(h):
    h = h + _SALT
    h = (h ^ (h >> np.uint64(30))) * _C2
    h = (h ^ (h >> np.uint64(27))) * _C3
    return h ^ (h >> np.uint64(31))


def mixname(name):
    return (_mix(np.full(L, seed_of(name), dtype=np.uint64)) % np.uint64(P)).astype(np.int64)


def mixvals(name, fps):
    h = np.full(L, seed_of(name), dtype=np.uint64)
    for f in fps:
        h = _mix(h * _C1 + f.astype(np.uint64))
    return h


def inv(a):
    """modular inverse, lane-wise (0 -> 0)"""
    # a^(P-2)
    r = np.ones(L, dtype=np.int64)
    b = a.copy()
    e = P - 2
    while e:
        if e & 1:
            r = r * b % P
        b = b * b % P
        e >>= 1
    return r


def ratrec(v):
    """rational reconstruction of a residue; None if not small"""
    r0, r1 = P, int(v)
    t0, t1 = 0, 1
    B = 30000
    while r1 > B:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        t0, t1 = t1, t0 - q * t1
    if t1 == 0 or abs(t1) > B:
        return None
    if t1 < 0:
        r1, t1 = -r1, -t1
    return Fraction(r1, t1)


class Node:
    __slots__ = ("id", "op", "args", "fp", "const", "pos", "site", "_sgn", "_leaves", "_neg")

    def __repr__(self):
        return pretty(self, 4)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_table = {}
_count = 0
cur_site = [None]
nodes_list = []


on_reset = []  # caches of nodes kept elsewhere


def reset():
    global _count
    for f in on_reset:
        f()
    _table.clear()
    _reps.clear()
    _rfcache.clear()
    _leafpos.clear()
    set_model(None)
    _count = 0
    _init()


def mk(op, args, fp, const=None, pos=None):
    global _count
    key = fp.tobytes()
    n = _table.get(key)
    if n is not None:
        if n.const is None and const is not None:
            n.const = const
            n.op, n.args = "const", (const,)
        if pos is not None and n.pos is None:
            n.pos = pos
        return n
    n = Node()
    n.id = _count
    _count += 1
    n.op, n.args, n.fp, n.const, n.pos = op, args, fp, const, pos
    n.site = cur_site[0]
    n._sgn = None
    n._leaves = None
    n._neg = None
    if const is None and op != "const":
        f0 = fp[0]
        if f0 == fp[1] and f0 == fp[2] and (fp == f0).all():
            r = ratrec(f0)
            if r is not None:
                n.const = r
                n.op, n.args = "const", (r,)
    _table[key] = n
    return n


def const(c):
    if isinstance(c, bool):
        c = int(c)
    c = Fraction(c)
    v = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
    return mk("const", (c,), np.full(L, v, dtype=np.int64), const=c)


def leaf(name, pos=None):
    """name: hashable description; pos: 1 if known positive, 0 if known non-negative"""
    return mk("leaf", (name,), mixname(("leaf", name)), pos=pos)


ZERO = None
ONE = None


def _init():
    global ZERO, ONE
    ZERO = const(0)
    ONE = const(1)


def uf(name, *args, pos=None):
    args = tuple(args)
    fp = (mixvals(("uf", name), [a.fp for a in args]) % np.uint64(P)).astype(np.int64)
    return mk("uf", (name,) + args, fp, pos=pos)


def add(a, b):
    if a.op == "inf":
        return a
    if b.op == "inf":
        return b
    if a.const is not None:
        if b.const is not None:
            return const(a.const + b.const)
        if a.const == 0:
            return b
    elif b.const is not None and b.const == 0:
        return a
    return mk("add", (a, b), (a.fp + b.fp) % P)


def sub(a, b):
    if a.op == "inf":
        return a
    if b.op == "inf":
        return inf(-b.args[0])
    if b.const is not None:
        if a.const is not None:
            return const(a.const - b.const)
        if b.const == 0:
            return a
    if a is b:
        return ZERO
    if a.const is not None and a.const == 0:
        return neg(b)
    return mk("sub", (a, b), (a.fp - b.fp) % P)


def neg(a):
    if a.op == "inf":
        return inf(-a.args[0])
    if a.const is not None:
        return const(-a.const)
    if a._neg is None:
        if a.op == "neg":
            a._neg = a.args[0]
        else:
            a._neg = mk("neg", (a,), (-a.fp) % P)
    return a._neg


def mul(a, b):
    if a.op == "inf" or b.op == "inf":
        x, y = (a, b) if a.op == "inf" else (b, a)
        sy = _infsign(y) or sign_info(y)
        if sy:
            return inf(x.args[0] * sy)
    if a.const is not None:
        if b.const is not None:
            return const(a.const * b.const)
        if a.const == 0:
            return ZERO
        if a.const == 1:
            return b
    elif b.const is not None:
        if b.const == 0:
            return ZERO
        if b.const == 1:
            return a
    return mk("mul", (a, b), a.fp * b.fp % P)


class DivByZero(Exception):
    pass


def div(a, b):
    if b.const is not None:
        if b.const == 0:
            return uf("div0", a)
        if a.const is not None:
            return const(a.const / b.const)
        return mul(a, const(1 / b.const))
    if a.const is not None and a.const == 0:
        return ZERO
    i = inv(b.fp)
    fp = a.fp * i % P
    z = b.fp == 0
    if z.any():
        h = (mixvals("div0", [a.fp]) % np.uint64(P)).astype(np.int64)
        fp = np.where(z, h, fp)
    return mk("div", (a, b), fp)


def power(a, b):
    if b.const is not None and b.const.denominator == 1 and abs(b.const) <= 16:
        e = b.const.numerator
        if e == 0:
            return ONE
        r = a
        for _ in range(abs(e) - 1):
            r = mul(r, a)
        return r if e > 0 else div(ONE, r)
    if b.const is not None and b.const == Fraction(1, 2):
        return sqrt(a)
    return uf("pow", a, b)


def sqrt(a):
    if a.const is not None and a.const >= 0:
        import math

        n, d = a.const.numerator, a.const.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
    s = sign_info(a)
    return uf("sqrt", a, pos=1 if s == 1 else 0)


def isbool(n):
    return bool((n.fp <= 1).all())


def truthy(n):
    """0/1 node for the truth value of n"""
    if isbool(n):
        return n
    return ne(n, ZERO)


def lnot(a):
    return sub(ONE, truthy(a))


def land(a, b):
    a, b = truthy(a), truthy(b)
    return mk2("and", a, b, a.fp * b.fp % P)


def lor(a, b):
    a, b = truthy(a), truthy(b)
    return mk2("or", a, b, (a.fp + b.fp - a.fp * b.fp) % P)


def mk2(op, a, b, fp):
    return mk(op, (a, b), fp)


def where(c, a, b):
    c = truthy(c)
    if c.const is not None:
        return a if c.const != 0 else b
    if a is b:
        return a
    # a negated condition selects the other way round
    while c.op == "sub" and c.args[0].const == 1 and isbool(c.args[1]):
        c, a, b = c.args[1], b, a
    # canonicalise selections that are max/min
    if c.op == "cmp":
        d = c.args[1]
        rel = c.args[0]
        df = (a.fp - b.fp) % P
        if (d.fp == df).all():
            if rel in ("gt", "ge"):
                return nary("max", (a, b))
            if rel in ("lt", "le"):
                return nary("min", (a, b))
        elif (d.fp == (-df) % P).all():
            if rel in ("gt", "ge"):
                return nary("min", (a, b))
            if rel in ("lt", "le"):
                return nary("max", (a, b))
    return mk("where", (c, a, b), (c.fp * a.fp + (1 - c.fp) * b.fp) % P)


# ---------------------------------------------------------------- signs
_reps = {}


def sign_info(n):
    """1 / -1 if provably positive / negative, 0 if provably zero, else None"""
    if n.const is not None:
        return (n.const > 0) - (n.const < 0)
    s = signfp(n)
    if (s == s[0]).all():
        return int(s[0])
    return None


def nonneg(n, depth=0):
    """provably >= 0 (conservative, structural)"""
    if n.const is not None:
        return n.const >= 0
    if n.pos is not None and n.pos >= 0:
        return True
    if depth > 8:
        return False
    op, a = n.op, n.args
    if isbool(n):
        return True
    if op == "add":
        return nonneg(a[0], depth + 1) and nonneg(a[1], depth + 1)
    if op == "mul":
        if a[0] is a[1]:
            return True
        return (nonneg(a[0], depth + 1) and nonneg(a[1], depth + 1)) or (
            nonpos(a[0], depth + 1) and nonpos(a[1], depth + 1)
        )
    if op == "div":
        return nonneg(a[0], depth + 1) and nonneg(a[1], depth + 1)
    if op == "neg":
        return nonpos(a[0], depth + 1)
    if op == "sub":
        return le_struct(a[1], a[0], depth + 1)
    if op == "max":
        return any(nonneg(x, depth + 1) for x in a) or (
            len(a) == 2 and neg(a[0]) is a[1]
        )
    if op == "min":
        return all(nonneg(x, depth + 1) for x in a)
    if op == "where":
        return nonneg(a[1], depth + 1) and nonneg(a[2], depth + 1)
    if op == "uf" and a[0] in ("sqrt", "exp", "abs"):
        return True
    return False


def nonpos(n, depth=0):
    if n.const is not None:
        return n.const <= 0
    if depth > 8:
        return False
    op, a = n.op, n.args
    if op == "neg":
        return nonneg(a[0], depth + 1)
    if op == "sub":
        return le_struct(a[0], a[1], depth + 1)
    if op == "mul":
        return (nonneg(a[0], depth + 1) and nonpos(a[1], depth + 1)) or (
            nonpos(a[0], depth + 1) and nonneg(a[1], depth + 1)
        )
    if op == "add":
        return nonpos(a[0], depth + 1) and nonpos(a[1], depth + 1)
    if op == "max":
        return all(nonpos(x, depth + 1) for x in a)
    if op == "min":
        return any(nonpos(x, depth + 1) for x in a)
    if op == "where":
        return nonpos(a[1], depth + 1) and nonpos(a[2], depth + 1)
    return False


def le_struct(a, b, depth=0):
    """provably a <= b"""
    if a is b:
        return True
    if a.const is not None and b.const is not None:
        return a.const <= b.const
    if depth > 8:
        return False
    if a.op == "min" and any(le_struct(x, b, depth + 1) for x in a.args):
        return True
    if b.op == "max" and any(le_struct(a, x, depth + 1) for x in b.args):
        return True
    if a.op == "max":
        return all(le_struct(x, b, depth + 1) for x in a.args)
    if b.op == "min":
        return all(le_struct(a, x, depth + 1) for x in b.args)
    if nonpos(a, depth + 1) and nonneg(b, depth + 1):
        return True
    return False


# optional ordered-field model: a consistent real interpretation of the opaque operands per lane.
# With it, comparisons of expressions over those operands are decided lane-wise by the model (so all
# equivalent ways of writing a comparison agree, and ties occur); without it they are uninterpreted.
model = [None]
_mvals = {}


def set_model(f):
    """f(node) -> float vector of L lanes for opaque nodes it interprets, or None"""
    model[0] = f
    _mvals.clear()


REALF = {k: getattr(np, k) for k in ("sin", "cos", "tan", "exp", "log", "tanh", "sinh", "cosh", "arctan", "cbrt", "exp2", "expm1", "log10", "log2", "trunc", "floor", "ceil")}
REALF["f32"] = lambda x: np.asarray(x, dtype=np.float32).astype(float)


def realval(n):
    if n.const is not None:
        return float(n.const)
    r = _mvals.get(n.id, False)
    if r is not False:
        return r
    _mvals[n.id] = None
    r = model[0](n)
    if r is None:
        a = n.args
        op = n.op
        v = realval
        try:
            if op in ("add", "sub", "mul", "div"):
                x, y = v(a[0]), v(a[1])
                if x is not None and y is not None:
                    with np.errstate(all="ignore"):
                        r = x + y if op == "add" else x - y if op == "sub" else x * y if op == "mul" else x / y
            elif op == "neg":
                x = v(a[0])
                r = None if x is None else -x
            elif op in ("max", "min"):
                xs = [v(x) for x in a]
                if all(x is not None for x in xs):
                    r = (np.maximum if op == "max" else np.minimum).reduce([x + np.zeros(L) for x in xs])
            elif op == "where":
                x, y = v(a[1]), v(a[2])
                if x is not None and y is not None:
                    r = np.where(a[0].fp == 1, x, y)
                elif x is not None and (a[0].fp == 1).all():
                    r = x
                elif y is not None and (a[0].fp == 0).all():
                    r = y
            elif op in ("cmp", "eq", "truthy", "and", "or") or isbool(n):
                r = n.fp.astype(float)
            elif op == "sign":
                r = signfp(a[0]).astype(float)
            elif op == "inf":
                r = np.full(L, np.inf * a[0])
            elif op == "uf" and a[0] == "sqrt":
                x = v(a[1])
                r = None if x is None else np.sqrt(np.maximum(x, 0))
            elif op == "uf" and a[0] in REALF and len(a) == 2:
                x = v(a[1])
                with np.errstate(all="ignore"):
                    r = None if x is None else REALF[a[0]](x + np.zeros(L))
        except (TypeError, AttributeError):
            r = None
    if r is not None and not isinstance(r, float):
        if np.isnan(r).any():
            r = None
    _mvals[n.id] = r
    return r


def signfp(n):
    if n._sgn is not None:
        return n._sgn
    s = None
    if model[0] is not None and n.const is None:
        v = realval(n)
        if v is not None:
            s = np.sign(v + np.zeros(L)).astype(np.int64)
            s[n.fp == 0] = 0  # exactly zero, whatever the rounding of the model's evaluation
    if s is None:
        s = _signfp(n)
    n._sgn = s
    return s


def _projkey(fp):
    nz = np.nonzero(fp)[0]
    if len(nz) == 0:
        return None, None
    k = int(nz[0])
    scal = int(fp[k])
    proj = fp * pow(scal, P - 2, P) % P
    return (k, proj.tobytes()), scal


def _structsign(n):
    op, a = n.op, n.args
    if op == "neg":
        return -signfp(a[0])
    if op == "mul" or op == "div":
        return signfp(a[0]) * signfp(a[1])
    if op == "where":
        return np.where(a[0].fp == 1, signfp(a[1]), signfp(a[2]))
    if op == "max":
        return np.max([signfp(x) for x in a], axis=0)
    if op == "min":
        return np.min([signfp(x) for x in a], axis=0)
    if op in ("add", "sub"):
        s0, s1 = signfp(a[0]), signfp(a[1])
        if op == "sub":
            s1 = -s1
        agree = s0 == s1
        if agree.all() and (s0 == s0[0]).all() and s0[0] != 0:
            return s0
    r = _rational_sign(n)
    if r is not None:
        return np.full(L, r, dtype=np.int64)
    return None


def _signfp(n):
    """per-lane sign; all scalar multiples of one value share one sign vector (up to the factor)"""
    if n.const is not None:
        return np.full(L, (n.const > 0) - (n.const < 0), dtype=np.int64)
    if n.pos == 1:
        return np.ones(L, dtype=np.int64)
    q = n.fp * 16 % P
    small = q <= 65536
    if (small | (q >= P - 65536)).all():
        # a combination of truth values: its sign is known in every lane
        return np.where(q == 0, 0, np.where(small, 1, -1)).astype(np.int64)
    st = _structsign(n)
    uniform = st is not None and st[0] != 0 and (st == st[0]).all()
    fp = n.fp
    key, scal = _projkey(fp)
    if key is None:
        return np.zeros(L, dtype=np.int64)
    rep = _reps.get(key)
    if rep is not None and not uniform:
        rscal, s = rep
        ratio = ratrec(scal * pow(rscal, P - 2, P) % P)
        if ratio is None or ratio > 0:
            return s
        return -s
    if st is None:
        m = np.minimum(fp, P - fp)
        bit = (mixvals("sign", [m]) & np.uint64(1)).astype(np.int64) * 2 - 1
        st = np.where(fp == m, bit, -bit)
        st = np.where(fp == 0, 0, st)
        if n.pos == 0:
            st = np.abs(st)
    _reps[key] = (scal, st)
    return st


def _leafset(n):
    """frozenset of opaque operands (leaves/ufs) below n"""
    return n._leaves


def _rational_sign(n):
    """sign of a rational function all of whose leaves are positive, by coefficient signs"""
    r = ratfun(n, limit=24)
    if r is None:
        return None
    num, den = r
    if not num:
        return 0
    for poly in (num, den):
        for m in poly:
            for v, k in m:
                if _leafpos.get(v) != 1:
                    return None
    vals = list(num.values())
    dv = list(den.values())
    if all(v > 0 for v in dv):
        ds = 1
    elif all(v < 0 for v in dv):
        ds = -1
    else:
        return None
    if all(v > 0 for v in vals):
        return ds
    if all(v < 0 for v in vals):
        return -ds
    return None


_rfcache = {}
_leafpos = {}


def ratfun(n, limit=40):
    """(num, den) polynomials {monomial: coef} over positive leaves, or None"""
    if n.id in _rfcache:
        return _rfcache[n.id]
    r = _ratfun(n, limit)
    if r is not None and (len(r[0]) > limit or len(r[1]) > limit):
        r = None
    _rfcache[n.id] = r
    return r


def _pmul(a, b):
    out = {}
    for m, c in a.items():
        for k, d in b.items():
            e = dict(m)
            for v, x in k:
                e[v] = e.get(v, 0) + x
            key = tuple(sorted(e.items()))
            out[key] = out.get(key, 0) + c * d
    return {m: c for m, c in out.items() if c}


def _padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


def _ratfun(n, limit):
    one = {(): Fraction(1)}
    if n.const is not None:
        return ({(): n.const} if n.const else {}), one
    if n.op in ("leaf", "uf"):
        _leafpos[n.id] = n.pos
        return {((n.id, 1),): Fraction(1)}, one
    if n.op in ("add", "sub", "mul", "div", "neg"):
        rs = [ratfun(x, limit) for x in n.args]
        if any(r is None for r in rs):
            return None
        if n.op == "neg":
            return {m: -c for m, c in rs[0][0].items()}, rs[0][1]
        (an, ad), (bn, bd) = rs
        if len(an) * len(bd) > 400 or len(bn) * len(ad) > 400 or len(ad) * len(bd) > 400:
            return None
        if n.op == "mul":
            return _pmul(an, bn), _pmul(ad, bd)
        if n.op == "div":
            return _pmul(an, bd), _pmul(ad, bn)
        if ad == bd:
            return _padd(an, bn, 1 if n.op == "add" else -1), ad
        return _padd(_pmul(an, bd), _pmul(bn, ad), 1 if n.op == "add" else -1), _pmul(ad, bd)
    return None


def cmp(rel, a, b):
    """a rel b as a 0/1 node; rel in gt ge lt le"""
    if rel in ("lt", "le"):
        return cmp({"lt": "gt", "le": "ge"}[rel], b, a)
    if a.op == "inf" or b.op == "inf":
        return _cmp_inf(rel, a, b)
    d = sub(a, b)
    if d.const is not None:
        return const(int(d.const > 0 if rel == "gt" else d.const >= 0))
    if rel == "ge" and (le_struct(b, a) or nonneg(d)):
        return ONE
    if rel == "gt" and (le_struct(a, b) or nonpos(d)):
        return ZERO
    s = signfp(d)
    bits = (s > 0) if rel == "gt" else (s >= 0)
    return mk("cmp", (rel, d), bits.astype(np.int64))


def _infsign(a):
    if a.op == "inf":
        return a.args[0]
    return 0


def _cmp_inf(rel, a, b):
    sa, sb = _infsign(a), _infsign(b)
    if sa == sb:
        return const(int(rel == "ge"))
    return const(int(sa > sb))


def inf(s=1):
    n = mk("inf", (s,), mixname(("inf", s)))
    n.op = "inf"
    n.args = (s,)
    return n


def eq(a, b):
    d = sub(a, b)
    if d.const is not None:
        return const(int(d.const == 0))
    si = sign_info(d)
    if si is not None and si != 0:
        return ZERO
    if model[0] is not None:
        v = realval(d)
        if v is not None:
            return mk("eq", (a, b), (v + np.zeros(L) == 0).astype(np.int64))
    m = np.minimum(d.fp, P - d.fp)
    bit = (mixvals("eq", [m]) & np.uint64(1)).astype(np.int64)
    bit = np.where(d.fp == 0, 1, bit)
    return mk("eq", (a, b), bit)


def ne(a, b):
    return sub(ONE, eq(a, b))


def nary(kind, args):
    """max/min of a set of nodes, flattened and canonically ordered"""
    other = "min" if kind == "max" else "max"
    flat = {}

    def rec(x):
        if x.op == kind:
            for y in x.args:
                rec(y)
        elif x.op == "neg" and x.args[0].op == other:
            for y in x.args[0].args:
                rec(neg(y))
        else:
            flat[x.id] = x

    for x in args:
        rec(x)
    xs = list(flat.values())
    # drop dominated elements
    if len(xs) > 1:
        consts = [x for x in xs if x.const is not None]
        if len(consts) > 1:
            c = (max if kind == "max" else min)(consts, key=lambda x: x.const)
            xs = [x for x in xs if x.const is None] + [c]
        infs = [x for x in xs if x.op == "inf"]
        for x in infs:
            if (x.args[0] > 0) == (kind == "max"):
                return x
            xs = [y for y in xs if y is not x]
            if not xs:
                return x
    if len(xs) > 1:
        keep = []
        for i, x in enumerate(xs):
            dom = False
            for j, y in enumerate(xs):
                if i == j:
                    continue
                le = le_cheap(x, y) if kind == "max" else le_cheap(y, x)
                if le and not (j > i and (le_cheap(y, x) if kind == "max" else le_cheap(x, y))):
                    dom = True
                    break
            if not dom:
                keep.append(x)
        xs = keep or xs[:1]
    if len(xs) == 1:
        return xs[0]
    xs.sort(key=_pmkey)
    acc = xs[0].fp
    accn = xs[0]
    k = 0
    for x in xs[1:]:
        d = sub(accn, x)
        s = signfp(d)
        pick = (s > 0) if kind == "max" else (s < 0)
        fp = np.where(pick, accn.fp, x.fp)
        k += 1
        accn = mk(kind, tuple(xs[: k + 1]), fp) if len(xs) > 2 else None
        acc = fp
        if accn is None:
            break
    return mk(kind, tuple(xs), acc)


def le_cheap(a, b):
    """a <= b provable cheaply (sign of difference)"""
    if a is b:
        return True
    d = sub(b, a)
    if d.const is not None:
        return d.const >= 0
    if le_struct(a, b):
        return True
    s = sign_info(d)
    return s is not None and s >= 0


def _pmkey(x):
    m = np.minimum(x.fp, P - x.fp)
    return m.tobytes()


def absolute(a):
    if a.const is not None:
        return const(abs(a.const))
    if nonneg(a):
        return a
    if nonpos(a):
        return neg(a)
    s = sign_info(a)
    if s is not None:
        return a if s >= 0 else neg(a)
    return nary("max", (a, neg(a)))


def sign(a):
    """numpy sign as a node"""
    si = sign_info(a)
    if si is not None:
        return const(si)
    s = signfp(a)
    return mk("sign", (a,), s % P)


# ---------------------------------------------------------------- traversal
def children(n):
    if n.op in ("leaf", "const", "inf", "undef"):
        return ()
    if n.op in ("uf", "red"):
        return tuple(x for x in n.args[1:] if isinstance(x, Node))
    if n.op == "cmp":
        return (n.args[1],)
    return n.args


def leaves(n):
    """dict id->Node of leaf nodes under n (iterative)"""
    seen = set()
    out = {}
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("leaf", "undef"):
            out[x.id] = x
        else:
            st.extend(children(x))
    return out


def find_ops(n, pred):
    seen = set()
    out = []
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            out.append(x)
        st.extend(children(x))
    return out


def rebuild(n, leafmap, memo=None):
    """substitute leaves: leafmap(leaf Node) -> Node or None"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        op, a = x.op, x.args
        if op in ("const", "inf"):
            r = x
        elif op in ("leaf", "undef"):
            r = leafmap(x) or x
        elif op == "add":
            r = add(go(a[0]), go(a[1]))
        elif op == "sub":
            r = sub(go(a[0]), go(a[1]))
        elif op == "mul":
            r = mul(go(a[0]), go(a[1]))
        elif op == "div":
            r = div(go(a[0]), go(a[1]))
        elif op == "neg":
            r = neg(go(a[0]))
        elif op == "and":
            r = land(go(a[0]), go(a[1]))
        elif op == "or":
            r = lor(go(a[0]), go(a[1]))
        elif op == "where":
            r = where(go(a[0]), go(a[1]), go(a[2]))
        elif op in ("max", "min"):
            r = nary(op, [go(y) for y in a])
        elif op == "cmp":
            r = cmp(a[0], go(a[1]), ZERO)
        elif op == "eq":
            r = eq(go(a[0]), go(a[1]))
        elif op == "sign":
            r = sign(go(a[0]))
        elif op == "uf":
            args = [go(y) if isinstance(y, Node) else y for y in a[1:]]
            if a[0] == "sqrt":
                r = sqrt(args[0])
            else:
                r = uf(a[0], *args, pos=x.pos)
        elif op == "red":
            args = [go(y) for y in a[1:] if isinstance(y, Node)]
            r = red(a[0], *args)
        else:
            raise ValueError(op)
        memo[x.id] = r
        return r

    return go(n)


def red(kind, *nodes):
    """reduction atom over a symbolic extent"""
    if kind[0] in ("max", "min", "sum", "mean") and len(nodes) == 1:
        g = nodes[0]
        nz = np.nonzero(g.fp)[0]
        if len(nz) and int(g.fp[nz[0]]) > P // 2:
            k2 = {"max": "min", "min": "max"}.get(kind[0], kind[0])
            return neg(red((k2,) + tuple(kind[1:]), neg(g)))
    pos = None
    if kind[0] in ("max", "min", "sum", "mean") and len(nodes):
        if all(sign_info(x) == 1 for x in nodes):
            pos = 1
        elif all(nonneg(x) for x in nodes):
            pos = 0
    if kind[0] in ("any", "all"):
        fp = (mixvals(("red", kind), [x.fp for x in nodes]) & np.uint64(1)).astype(np.int64)
    else:
        fp = (mixvals(("red", kind), [x.fp for x in nodes]) % np.uint64(P)).astype(np.int64)
    return mk("red", (kind,) + tuple(nodes), fp, pos=pos)


def undef(name):
    return mk("undef", (name,), mixname(("undef", name)))


def linear(n, is_var):
    """n as sum coef_k * var_k + rest with exact coefficient *nodes*; is_var(node)->bool.
    returns (dict var_id -> (var, coefnode)), rest) or raises ValueError if not linear"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if is_var(x):
            r = ({x.id: (x, ONE)}, ZERO)
        elif x.op in ("add", "sub"):
            d1, r1 = go(x.args[0])
            d2, r2 = go(x.args[1])
            d = dict(d1)
            f = add if x.op == "add" else sub
            for k, (v, c) in d2.items():
                d[k] = (v, f(d[k][1] if k in d else ZERO, c))
            d = {k: vc for k, vc in d.items() if vc[1] is not ZERO}
            r = (d, f(r1, r2))
        elif x.op == "neg":
            d1, r1 = go(x.args[0])
            r = ({k: (v, neg(c)) for k, (v, c) in d1.items()}, neg(r1))
        elif x.op == "mul":
            d1, r1 = go(x.args[0])
            d2, r2 = go(x.args[1])
            if d1 and d2:
                raise ValueError("nonlinear product")
            if d2:
                d1, r1, d2, r2 = d2, r2, d1, r1
            r = ({k: (v, mul(c, r2)) for k, (v, c) in d1.items()}, mul(r1, r2))
        elif x.op == "div":
            d1, r1 = go(x.args[0])
            d2, r2 = go(x.args[1])
            if d2:
                raise ValueError("nonlinear quotient")
            r = ({k: (v, div(c, r2)) for k, (v, c) in d1.items()}, div(r1, r2))
        elif x.op == "where":
            dc, rc = go(x.args[0])
            if dc:
                raise ValueError("gate depends on variable")
            d1, r1 = go(x.args[1])
            d2, r2 = go(x.args[2])
            d = {}
            for k in set(d1) | set(d2):
                v = (d1.get(k) or d2.get(k))[0]
                d[k] = (v, where(rc, d1[k][1] if k in d1 else ZERO, d2[k][1] if k in d2 else ZERO))
            r = (d, where(rc, r1, r2))
        else:
            for y in children(x):
                if go(y)[0]:
                    raise ValueError(f"nonlinear {x.op}")
            r = ({}, x)
        memo[x.id] = r
        return r

    return go(n)


def pretty(n, depth=4):
    if n.op == "const":
        return str(n.const)
    if n.op == "leaf" or n.op == "undef":
        nm = n.args[0]
        if isinstance(nm, tuple):
            return f"{nm[0]}[{','.join(map(str, nm[1:]))}]"
        return str(nm)
    if depth <= 0:
        return "…"
    a = [pretty(x, depth - 1) if isinstance(x, Node) else str(x) for x in n.args]
    if n.op in ("add", "sub", "mul", "div"):
        return f"({a[0]} {'+-*/'[('add', 'sub', 'mul', 'div').index(n.op)]} {a[1]})"
    if n.op == "neg":
        return f"-{a[0]}"
    if n.op == "uf":
        return f"{a[0]}({', '.join(a[1:])})"
    if n.op == "cmp":
        return f"({a[1]} {'>' if n.args[0] == 'gt' else '>='} 0)"
    return f"{n.op}({', '.join(a)})"


_init()


def set_sign(n, vec):
    """assume the per-lane sign of n (before it is compared)"""
    n._sgn = vec
    key, scal = _projkey(n.fp)
    if key is not None:
        _reps[key] = (scal, vec)


def assume_ordered(nodes, tag="ordered"):
    """assume nodes[0] < nodes[1] < ... : lanes are split over the len+1 positions of zero"""
    m = len(nodes)
    reg = (mixname(("regime", tag)).astype(np.uint64) >> np.uint64(7)) % np.uint64(m + 1)
    reg = reg.astype(np.int64)
    for j, n in enumerate(nodes):
        set_sign(n, np.where(reg <= j, 1, -1).astype(np.int64))
