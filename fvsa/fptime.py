"""Rounding-aware scalars for the time loop.

While a model is active, a scalar sum or difference of the analysed program is an opaque
rounded operation (no cancellation: t + (T - t) is not T).  Branches are decided by a scenario
that orders the inputs; a comparison whose operands would be equal in exact arithmetic but are
not the same rounded value is recorded as rounding-sensitive.
"""
from fractions import Fraction as Fr

from . import arrays as A
from . import nodes as N


class FPModel:
    def __init__(self, it):
        self.vals = {}
        self.bad = []
        it.fp = self
        it.oracle = self.decide

    def leaf(self, name, val):
        n = N.leaf(name, 1 if val > 0 else None)
        self.vals[n.id] = Fr(val)
        return n

    # --- rounded operations
    def op(self, op, a, b):
        a, b = A.to_node(a), A.to_node(b)
        if a.const is not None and b.const is not None:
            return N.add(a, b) if op == "Add" else N.sub(a, b)
        if op == "Add":
            if a.const == 0:
                return b
            if b.const == 0:
                return a
            x, y = sorted((a, b), key=lambda n: n.id)
            return N.uf("fl+", x, y)
        if b.const == 0:
            return a
        if a is b:
            return N.ZERO
        return N.uf("fl-", a, b)

    # --- scenario value
    def value(self, n):
        if n.const is not None:
            return n.const
        if n.id in self.vals:
            return self.vals[n.id]
        op, a = n.op, n.args
        v = self.value
        if op == "add":
            return v(a[0]) + v(a[1])
        if op == "sub":
            return v(a[0]) - v(a[1])
        if op == "mul":
            return v(a[0]) * v(a[1])
        if op == "div":
            return v(a[0]) / v(a[1])
        if op == "neg":
            return -v(a[0])
        if op == "uf" and a[0] == "fl+":
            return v(a[1]) + v(a[2])
        if op == "uf" and a[0] == "fl-":
            return v(a[1]) - v(a[2])
        if op in ("max", "min"):
            return (max if op == "max" else min)(v(x) for x in a)
        if op == "where":
            return v(a[1]) if v(a[0]) != 0 else v(a[2])
        if op == "cmp":
            x = v(a[1])
            return Fr(int({"gt": x > 0, "ge": x >= 0, "lt": x < 0, "le": x <= 0}[a[0]]))
        if op == "eq":
            return Fr(int(v(a[0]) == v(a[1])))
        if op == "and":
            return Fr(int(all(v(x) != 0 for x in a)))
        if op == "or":
            return Fr(int(any(v(x) != 0 for x in a)))
        if op == "sign":
            x = v(a[0])
            return Fr((x > 0) - (x < 0))
        raise A.Unsupported(f"scenario value of {op}")

    def resolve(self, n):
        """select the branch of every max/min/where the scenario picks"""
        memo = {}

        def go(x):
            if x.id in memo:
                return memo[x.id]
            r = x
            if x.op in ("max", "min"):
                args = [go(y) for y in x.args]
                vs = [self.value(y) for y in args]
                best = (max if x.op == "max" else min)(vs)
                r = args[vs.index(best)]
            elif x.op == "where":
                r = go(x.args[1]) if self.value(x.args[0]) != 0 else go(x.args[2])
            elif x.op == "uf" and x.args[0] in ("fl+", "fl-"):
                r = self.op("Add" if x.args[0] == "fl+" else "Sub", go(x.args[1]), go(x.args[2]))
            elif x.op in ("add", "sub", "mul", "div"):
                r = getattr(N, x.op)(go(x.args[0]), go(x.args[1]))
            elif x.op == "neg":
                r = N.neg(go(x.args[0]))
            memo[x.id] = r
            return r

        return go(n)

    def decide(self, n):
        try:
            return self._decide(n)
        except A.Unsupported:
            return None

    def _decide(self, n):
        if n.op in ("and", "or"):
            rs = [self._decide(N.truthy(x)) if x.const is None else x.const != 0 for x in n.args]
            return all(rs) if n.op == "and" else any(rs)
        if n.op == "sub" and n.args[0].const == 1:
            return not self._decide(n.args[1])
        if n.op == "cmp":
            d = self.resolve(n.args[1])
            if d.const is not None:
                return N.cmp(n.args[0], d, N.ZERO).const != 0
            if self.value(d) == 0:
                self.sensitive(n)
        if n.op == "eq":
            a, b = (self.resolve(x) for x in n.args)
            if a is b:
                return True
            if self.value(a) == self.value(b):
                self.sensitive(n)
        return self.value(n) != 0

    def sensitive(self, n):
        self.bad.append((N.pretty(n, 6), N.cur_site[0]))
