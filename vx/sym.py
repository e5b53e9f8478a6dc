"""The symbolic implementation of the harness interface."""
from __future__ import annotations

import z3

from . import core
from . import values as V
from .api import UNICODE, Base


class Sym(Base):
    symbolic = True

    def __init__(self, eng):
        self.e = eng

    def int(self, name, lo, hi):
        var, v = self.e._input(name, lo, hi)
        if lo == hi:
            return lo
        return V.mkint(var, v)

    def bool(self, name):
        var, v = self.e._input(name, 0, 1)
        return V.mkbool(var == 1, v == 1)

    def bytes(self, name, n):
        return V.mkbytes([self._elem("%s.%d" % (name, i), 0, 255, 65 + i % 26) for i in range(n)])

    def _elem(self, name, lo, hi, default):
        var, v = self.e._input(name, lo, hi, default)
        return V.mkint(var, v)

    def str(self, name, n, ranges=UNICODE):
        cs = []
        for i in range(n):
            lo, hi = ranges[0][0], ranges[-1][1]
            nm = "%s.%d" % (name, i)
            d = 65 + i % 26
            if not any(a <= d <= b for a, b in ranges):
                d = ranges[0][0]
            var, v = self.e._input(nm, lo, hi, d)
            if len(ranges) > 1:
                self.e.define(z3.Or([z3.And(var >= a, var <= b) for a, b in ranges]))
            cs.append(V.mkint(var, v))
        return V.mkstr(cs)

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            self.e._input(name, 0, 0)
            return seq[0]
        var, v = self.e._input(name, 0, len(seq) - 1)
        # binary case split: no cap, log2 decisions per path
        lo, hi = 0, len(seq) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.e.branch(var <= mid, v <= mid):
                hi = mid
            else:
                lo = mid + 1
        return seq[lo]

    def enum(self, name, members):
        members = list(members)
        var, v = self.e._input(name, 0, len(members) - 1)
        return V.SymEnum(var, v, members)

    def assume(self, cond):
        if type(cond) is V.VxBool:
            if not cond:
                raise core.Infeasible()
            return
        if not cond:
            raise core.Infeasible()

    def check(self, cond, label):
        if type(cond) is V.VxBool:
            self.e.check_expr(cond.e, cond.c, label)
        else:
            self.e.check_expr(None, True if cond else False, label)

    def reach(self, label):
        self.e.check_expr(None, True, label)

    def all(self, conds):
        return V.vx_all(list(conds))

    def eqbytes(self, a, b):
        return V.VxBytes(a) == V.VxBytes(b)
