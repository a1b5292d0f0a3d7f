"""Affine symbolic integers: the abstract domain for grid sizes and cell indices.

A symbol is either a *size* (number of cells along an axis, arbitrarily large) or an
*index* (a generic interior cell, arbitrarily far from both ends: 0 << i << n).  With that
ordering every comparison the analysed code makes between sizes/indices of one axis is
decidable, so one abstract run speaks about every grid that is large enough.
"""
from fractions import Fraction


class Undecidable(Exception):
    pass


_sgn = {}


class Aff:
    __slots__ = ("c", "s", "_h", "_a", "_n")

    def __init__(self, c, s):
        self.c = c
        self.s = s  # tuple of (name, coef), sorted, coef != 0
        self._h = None
        self._a = {}
        self._n = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.s))
        return self._h

    def __repr__(self):
        out = ""
        for n, k in self.s:
            if k == 1:
                out += f"+{n}"
            elif k == -1:
                out += f"-{n}"
            else:
                out += f"{k:+}*{n}"
        if self.c:
            out += f"{self.c:+}"
        return out.lstrip("+")

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        if type(o) is int:
            r = self._a.get(o)
            if r is None:
                r = self._a[o] = Aff(self.c + o, self.s)
            return r
        if isinstance(o, bool):
            return Aff(self.c + int(o), self.s)
        if isinstance(o, Fraction) and o.denominator == 1:
            return Aff(self.c + o.numerator, self.s)
        if isinstance(o, Aff):
            if len(self.s) == 1 and len(o.s) == 1 and self.s[0][0] == o.s[0][0]:
                k = self.s[0][1] + o.s[0][1]
                if k == 0:
                    return self.c + o.c
                return Aff(self.c + o.c, ((self.s[0][0], k),))
            d = dict(self.s)
            for n, k in o.s:
                d[n] = d.get(n, 0) + k
            return mk(self.c + o.c, d)
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        if self._n is None:
            self._n = self._neg()
        return self._n

    def _neg(self):
        return Aff(-self.c, tuple((n, -k) for n, k in self.s))

    def __sub__(self, o):
        if isinstance(o, (int, Fraction)):
            return self + (-o)
        if isinstance(o, Aff):
            return self + (-o)
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Fraction) and o.denominator == 1:
            o = o.numerator
        if isinstance(o, int):
            return mk(self.c * o, {n: k * o for n, k in self.s})
        return NotImplemented

    __rmul__ = __mul__

    def divides(self, m):
        return self.c % m == 0 and all(k % m == 0 for _, k in self.s)

    def __floordiv__(self, o):
        if isinstance(o, int):
            if self.divides(o):
                return mk(self.c // o, {n: k // o for n, k in self.s})
            if all(k % o == 0 for _, k in self.s):
                return mk(self.c // o, {n: k // o for n, k in self.s})
            raise Undecidable(f"({self})//{o}")
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, int) and all(k % o == 0 for _, k in self.s):
            return self.c % o
        raise Undecidable(f"({self})%{o}")

    # order ----------------------------------------------------------------
    def sign(self):
        r = _sgn.get(self.s)
        if r is None:
            r = _sgn[self.s] = self._sign()
        return r

    def _sign(self):
        big = [k for n, k in self.s if n.startswith("n")]
        if big:
            if all(k > 0 for k in big):
                return 1
            if all(k < 0 for k in big):
                return -1
            raise Undecidable(f"sign of {self}")
        med = [k for _, k in self.s]
        if all(k > 0 for k in med):
            return 1
        if all(k < 0 for k in med):
            return -1
        raise Undecidable(f"sign of {self}")

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Aff):
            return self.c == o.c and self.s == o.s
        return False

    def __ne__(self, o):
        return not self == o

    def _cmp(self, o):
        if type(o) is int:
            return self.sign()
        d = self - o
        if isinstance(d, Aff):
            return d.sign()
        return (d > 0) - (d < 0)

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __bool__(self):
        return True  # an affine form with symbols is never identically zero; sizes are large


def mk(c, d):
    s = tuple(sorted((n, k) for n, k in d.items() if k))
    if not s:
        return c
    return Aff(c, s)


def sym(name):
    return Aff(0, ((name, 1),))


def is_intlike(v):
    return isinstance(v, (int, Aff)) and not isinstance(v, bool)


def as_int(v):
    """int, Aff or integral Fraction -> int/Aff, else None"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Aff)):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return v.numerator
    return None
