"""Reference semantics, written independently of the analysed code, as value graphs.

Everything here is a function of a cell index (host integers and affine symbols) returning a
node; coefficients are derived from their defining conditions in exact rational arithmetic.
"""
from fractions import Fraction as Fr
from functools import lru_cache

from . import nodes as N
from .aff import Aff

AX = "xyz"


# ------------------------------------------------------------------ exact polynomial stencils
def _solve(M, b):
    n = len(M)
    M = [list(map(Fr, r)) + [Fr(x)] for r, x in zip(M, b)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[p] = M[p], M[i]
        f = M[i][i]
        M[i] = [x / f for x in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                g = M[r][i]
                M[r] = [x - g * y for x, y in zip(M[r], M[i])]
    return [M[i][n] for i in range(n)]


def cell_moment(j, k):
    """average of x^k over the unit cell centred at j"""
    a, b = Fr(j) - Fr(1, 2), Fr(j) + Fr(1, 2)
    return (b ** (k + 1) - a ** (k + 1)) / (k + 1)


def _stencil(offsets, row, rhs):
    n = len(offsets)
    M = [[row(j, k) for j in offsets] for k in range(n)]
    return dict(zip(offsets, _solve(M, [rhs(k) for k in range(n)])))


def _sym(p, row, rhs):
    if p % 2 == 0:
        offs = list(range(-p // 2, p // 2 + 1))
        return _stencil(offs, row, rhs)
    h = (p + 1) // 2
    a = _stencil(list(range(-h, h)), row, rhs)
    b = _stencil(list(range(-h + 1, h + 1)), row, rhs)
    return {j: (a.get(j, 0) + b.get(j, 0)) / 2 for j in range(-h, h + 1)}


@lru_cache(None)
def interp_weights(p, pos):
    """cell averages -> point value at left face / centre / right face, degree p"""
    x = {"l": Fr(-1, 2), "c": Fr(0), "r": Fr(1, 2)}[pos]
    w = _sym(p, cell_moment, lambda k: x ** k if k else Fr(1))
    return {j: v for j, v in w.items() if v}


@lru_cache(None)
def average_weights(p):
    """point values at cell centres -> cell average, degree p"""
    w = _sym(p, lambda j, k: Fr(j) ** k if k else Fr(1), lambda k: cell_moment(0, k))
    return {j: v for j, v in w.items() if v}


def reach(p):
    return -(-p // 2)


# ------------------------------------------------------------------ lazily evaluated fields
class Fld:
    """field on cells: (v, i, j, k) -> node"""

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def __call__(self, *idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.memo[idx] = self.fn(*idx)
        return r


def lin(f, w, axis):
    """apply a 1-D stencil along axis (1..3)"""
    items = sorted(w.items())
    if items == [(0, Fr(1))]:
        return f

    def g(*idx):
        acc = N.ZERO
        for j, c in items:
            i = list(idx)
            i[axis] = i[axis] + j
            acc = N.add(acc, N.mul(N.const(c), f(*i)))
        return acc

    return Fld(g)


def centers(f, p):
    for a in range(3):
        f = lin(f, interp_weights(p[a], "c"), a + 1)
    return f


def averages(f, p):
    for a in range(3):
        f = lin(f, average_weights(p[a]), a + 1)
    return f


# ------------------------------------------------------------------ gas dynamics
HALF = Fr(1, 2)


def c_(x):
    return N.const(x)


def prim(u, g, nv=5):
    """vector of conserved nodes -> primitive nodes"""
    rho, mx, my, mz, E = u[:5]
    v = [N.div(m, rho) for m in (mx, my, mz)]
    ke = N.mul(c_(HALF), N.add(N.add(N.mul(mx, v[0]), N.mul(my, v[1])), N.mul(mz, v[2])))
    P = N.mul(N.sub(g, N.ONE), N.sub(E, ke))
    return [rho] + v + [P] + [N.div(x, rho) for x in u[5:]]


def cons(w, g):
    rho, vx, vy, vz, P = w[:5]
    m = [N.mul(rho, v) for v in (vx, vy, vz)]
    ke = N.mul(c_(HALF), N.mul(rho, N.add(N.add(N.mul(vx, vx), N.mul(vy, vy)), N.mul(vz, vz))))
    return [rho] + m + [N.add(N.div(P, N.sub(g, N.ONE)), ke)] + [N.mul(rho, x) for x in w[5:]]


def flux(w, g, ax, pressure=True):
    u = cons(w, g)
    v = w[1 + ax]
    out = [N.mul(v, x) for x in u]
    if pressure:
        out[1 + ax] = N.add(out[1 + ax], w[4])
        out[4] = N.add(out[4], N.mul(v, w[4]))
    return out


def sound(w, g, floor):
    return N.sqrt(N.nary("max", (N.div(N.mul(g, w[4]), w[0]), floor)))


def llf(wl, wr, g, ax, floor):
    ul, ur = cons(wl, g), cons(wr, g)
    Fl, Fr_ = flux(wl, g, ax), flux(wr, g, ax)
    sl = N.add(N.absolute(wl[1 + ax]), sound(wl, g, floor))
    sr = N.add(N.absolute(wr[1 + ax]), sound(wr, g, floor))
    s = N.nary("max", (sl, sr))
    h = c_(HALF)
    return [N.sub(N.mul(h, N.add(a, b)), N.mul(N.mul(h, s), N.sub(y, x))) for a, b, x, y in zip(Fl, Fr_, ul, ur)]


def gt0(x):
    return N.cmp("gt", x, N.ZERO)


def upwind(wl, wr, g, ax, floor):
    Fl, Fr_ = flux(wl, g, ax, False), flux(wr, g, ax, False)
    v = wl[1 + ax]
    return [N.where(gt0(v), a, b) for a, b in zip(Fl, Fr_)]


def hllc_speeds(wl, wr, g, ax, floor):
    """(left wave, contact, right wave)"""
    cm = N.nary("max", (sound(wl, g, floor), sound(wr, g, floor)))
    vl, vr = wl[1 + ax], wr[1 + ax]
    Sl = N.sub(N.nary("min", (vl, vr)), cm)
    Sr = N.add(N.nary("max", (vl, vr)), cm)
    rcl = N.mul(wl[0], N.sub(vl, Sl))
    rcr = N.mul(wr[0], N.sub(Sr, vr))
    vs = N.div(N.add(N.add(N.mul(rcl, vl), N.mul(rcr, vr)), N.sub(wl[4], wr[4])), N.add(rcl, rcr))
    return Sl, vs, Sr


def hllc(wl, wr, g, ax, floor):
    ul, ur = cons(wl, g), cons(wr, g)
    cm = N.nary("max", (sound(wl, g, floor), sound(wr, g, floor)))
    vl, vr = wl[1 + ax], wr[1 + ax]
    Sl = N.sub(N.nary("min", (vl, vr)), cm)
    Sr = N.add(N.nary("max", (vl, vr)), cm)
    rl, rr, Pl, Pr, El, Er = wl[0], wr[0], wl[4], wr[4], ul[4], ur[4]
    rcl = N.mul(rl, N.sub(vl, Sl))
    rcr = N.mul(rr, N.sub(Sr, vr))
    tot = N.add(rcl, rcr)
    vs = N.div(N.add(N.add(N.mul(rcl, vl), N.mul(rcr, vr)), N.sub(Pl, Pr)), tot)
    Ps = N.div(N.add(N.add(N.mul(rcl, Pr), N.mul(rcr, Pl)), N.mul(N.mul(rcl, rcr), N.sub(vl, vr))), tot)

    def star(w, u, S):
        v = w[1 + ax]
        d = N.sub(S, vs)
        r = N.div(N.mul(w[0], N.sub(S, v)), d)
        E = N.div(N.add(N.sub(N.mul(N.sub(S, v), u[4]), N.mul(w[4], v)), N.mul(Ps, vs)), d)
        return r, vs, Ps, E

    L = (rl, vl, Pl, El)
    R = (rr, vr, Pr, Er)
    sL, sR = star(wl, ul, Sl), star(wr, ur, Sr)
    q = [
        N.where(gt0(Sl), a, N.where(gt0(vs), b, N.where(gt0(Sr), c, d)))
        for a, b, c, d in zip(L, sL, sR, R)
    ]
    r, v, P, E = q
    mf = N.mul(r, v)

    def tr(k):
        return N.mul(mf, N.where(gt0(v), wl[k], wr[k]))

    out = [mf, None, None, None, N.mul(v, N.add(E, P))]
    for a in range(3):
        out[1 + a] = N.add(N.mul(mf, v), P) if a == ax else tr(1 + a)
    out += [tr(k) for k in range(5, len(wl))]
    return out


RIEMANN = {"llf": llf, "hllc": hllc, "advection_upwind": upwind}


# ------------------------------------------------------------------ boundary values
def wrap(i, n):
    """periodic image of i in [0, n)"""
    while i < 0:
        i = i + n
    while i >= n:
        i = i - n
    return i


def periodic(u, dims, sizes):
    def f(v, *idx):
        j = tuple(wrap(i, n) if d in dims else i for i, n, d in zip(idx, sizes, AX))
        return u((v,) + j)

    return Fld(f)


def ghosted(u, dims, sizes, bcs, ghostfn=None, nvars=5):
    """field on all cells incl. ghosts; bcs {axis letter: (left, right)}; x, then y, then z.

    ghostfn(v, axis, side, idx) gives prescribed (dirichlet/ic) values."""

    def level(k):
        """field with ghosts along axes 0..k-1"""
        if k == 0:
            return Fld(lambda v, *idx: u((v,) + tuple(idx)))
        inner = level(k - 1)
        a = k - 1
        d = AX[a]
        if d not in dims:
            return inner
        n = sizes[a]
        bl, br = bcs[d]

        def f(v, *idx):
            i = idx[a]
            if i < 0:
                side, t, dist = "l", bl, -1 - i
            elif i >= n:
                side, t, dist = "r", br, i - n
            else:
                return inner(v, *idx)
            j = list(idx)
            if t == "periodic":
                j[a] = wrap(i, n)
                return f(v, *j)
            if t == "free":
                j[a] = 0 if side == "l" else n - 1
                return inner(v, *j)
            if t in ("outflow", "reflective"):
                j[a] = dist if side == "l" else n - 1 - dist
                x = inner(v, *j)
                return N.neg(x) if t == "reflective" and v == 1 + a else x
            if t in ("dirichlet", "ic"):
                return ghostfn(v, d, side, tuple(idx))
            return N.undef(("ghost", v) + tuple(idx))

        return Fld(f)

    return level(3)


# ------------------------------------------------------------------ the scheme
def faces(ubc, dims, p, g, rs, floor, limiter=None, nv=5, keep=None):
    """face-averaged numerical fluxes per axis: {axis: Fld(v, i, j, k)} (face i-1/2 of cell i)"""
    uc = centers(ubc, p)
    wcache = {}

    def wc(v, *idx):
        r = wcache.get(idx)
        if r is None:
            r = wcache[idx] = prim([uc(k, *idx) for k in range(nv)], g, nv)
        return r[v]

    w = averages(Fld(wc), p)
    out = {}
    for a, d in enumerate(AX):
        if d not in dims:
            continue
        wt = w
        for b in range(3):
            if b != a:
                wt = lin(wt, interp_weights(p[b], "c"), b + 1)
        if limiter is not None and p[a] == 1:
            lo, hi = muscl(wt, a + 1, limiter)
        else:
            lo = lin(wt, interp_weights(p[a], "l"), a + 1)
            hi = lin(wt, interp_weights(p[a], "r"), a + 1)
        out[d] = _faceflux(lo, hi, a, g, rs, floor, p, nv)
    if keep is not None:
        keep["w"] = w
    return out


def _faceflux(lo, hi, a, g, rs, floor, p, nv):
    cache = {}

    def f(v, *idx):
        r = cache.get(idx)
        if r is None:
            i = list(idx)
            i[a] = i[a] - 1
            wl = [hi(k, *i) for k in range(nv)]
            wr = [lo(k, *idx) for k in range(nv)]
            r = cache[idx] = RIEMANN[rs](wl, wr, g, a, floor)
        return r[v]

    F = Fld(f)
    for b in range(3):
        if b != a:
            F = lin(F, average_weights(p[b]), b + 1)
    return F


def divergence(F, h):
    def f(v, *idx):
        acc = N.ZERO
        for d, Fd in F.items():
            a = AX.index(d)
            i = list(idx)
            i[a] = i[a] + 1
            acc = N.add(acc, N.div(N.sub(Fd(v, *idx), Fd(v, *i)), h[a]))
        return acc

    return Fld(f)


def minmod2(a, b):
    """smaller of two same-signed slopes, else zero (via the code-independent definition)"""
    z = N.ZERO
    pos = N.land(gt0(a), gt0(b))
    neg = N.land(gt0(N.neg(a)), gt0(N.neg(b)))
    return N.where(pos, N.nary("min", (a, b)), N.where(neg, N.nary("max", (a, b)), z))


def muscl(w, axis, limiter):
    def slope(v, *idx):
        l, r = list(idx), list(idx)
        l[axis - 1] = l[axis - 1] - 1
        r[axis - 1] = r[axis - 1] + 1
        dl = N.sub(w(v, *idx), w(v, *l))
        dr = N.sub(w(v, *r), w(v, *idx))
        return limiter(dl, dr)

    s = Fld(slope)
    lo = Fld(lambda v, *i: N.sub(w(v, *i), N.mul(c_(HALF), s(v, *i))))
    hi = Fld(lambda v, *i: N.add(w(v, *i), N.mul(c_(HALF), s(v, *i))))
    return lo, hi


def central(dl, dr):
    return N.mul(c_(HALF), N.add(dl, dr))


def spacing(sizes, lengths=(1, 1, 1)):
    from .arrays import to_node

    return [N.div(to_node(L), to_node(n)) for n, L in zip(sizes, lengths)]
