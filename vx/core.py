"""The exploration engine.

Every run of a harness is a real execution of the instrumented code in which
the inputs carry, besides a concrete value, a z3 expression.  Each branch on a
symbolic condition is recorded; after the run the last unexplored branch is
negated and z3 is asked for inputs that take the other side (sat), or shows
that none exist (unsat).  When the stack is empty every feasible path inside
the stated bounds has been executed.  On each path an assertion is decided by
asking z3 for inputs that follow the path and falsify it.
"""
from __future__ import annotations

import os
import sys
import time
import traceback

import z3

CTX = None  # the active Engine


class EngineStop(BaseException):
    """Steering exceptions: never caught by `except Exception`."""


class Infeasible(EngineStop):
    pass


class PathStop(EngineStop):
    pass


class BudgetStop(EngineStop):
    pass


class Divergence(EngineStop):
    pass


class CheckFailed(AssertionError):
    """Raised by check() in replay mode."""


class Item:
    __slots__ = ("cond", "taken", "done", "kind", "site", "nconc")

    def __init__(self, cond, taken, kind, site=None, nconc=0):
        self.cond = cond
        self.taken = taken
        self.done = False
        self.kind = kind
        self.site = site
        self.nconc = nconc


def zint(v):
    return z3.IntVal(v)


class Engine:
    replay = False

    def __init__(self, seed=1, timeout_ms=10000, conc_cap=48, max_steps=400000, strict=False):
        self.seed = seed
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", seed)
        self.timeout_ms = timeout_ms
        self.conc_cap = conc_cap
        self.max_decisions = max_steps
        self.trail = []
        self.values = {}
        self.stats = dict(
            paths=0, branches=0, checks=0, checks_unsat=0, checks_trivial=0, checks_sat=0, unknown=0, queries=0,
            concretised=0, conc_cut=0, divergences=0, infeasible=0, path_errors=0, decisions=0,
        )
        self.solver_time = 0.0
        self.labels = {}
        self.violations = []
        self.path_inputs = []
        self.inconclusive = []
        self.conc_sites = {}
        self.deadline = None
        self.max_paths = None
        self.exhausted = False

    # ---------------------------------------------------------------- running
    def _reset_run(self):
        self.pos = 0
        self.inputs = {}
        self.order = []
        self.known = {}
        self.fresh_n = 0
        self.divcache = {}
        self.ndec = 0
        self.keep = []
        self.strcache = {}
        self.bounds = {}
        self.ivmemo = {}
        self.inverse = {}
        self.hashed = {}
        if len(_NODES) > 400000:
            _NODES.clear()

    def solve(self, *extra):
        t = time.perf_counter()
        self.stats["queries"] += 1
        r = self.solver.check(*extra)
        if r == z3.unknown:
            s2 = z3.SolverFor("QF_LIA")
            s2.set("timeout", self.timeout_ms)
            s2.add(*self.solver.assertions())
            s2.add(*extra)
            try:
                r2 = s2.check()
            except z3.Z3Exception:
                r2 = z3.unknown
            if r2 != z3.unknown:
                self._alt = s2
                self.solver_time += time.perf_counter() - t
                return r2, s2
        self.solver_time += time.perf_counter() - t
        return r, self.solver

    def explore(self, fn):
        global CTX
        CTX = self
        try:
            while True:
                self._reset_run()
                self._run_once(fn)
                if self.max_paths and self.stats["paths"] >= self.max_paths:
                    if self.trail:
                        self.inconclusive.append("path budget reached")
                        return
                if self.deadline and time.time() > self.deadline:
                    if self._pending():
                        self.inconclusive.append("time budget reached")
                        return
                if not self._backtrack():
                    self.exhausted = True
                    return
        finally:
            CTX = None

    def _pending(self):
        return any(not i.done for i in self.trail)

    def _run_once(self, fn):
        outcome = "ok"
        try:
            fn(self)
        except Infeasible:
            outcome = "infeasible"
            self.stats["infeasible"] += 1
        except PathStop:
            outcome = "stop"
        except Divergence as e:
            outcome = "divergence"
            self.stats["divergences"] += 1
            self.inconclusive.append("divergence: %s" % (e,))
        except BudgetStop as e:
            outcome = "budget"
            self.inconclusive.append("per-path budget: %s" % (e,))
        except Exception as e:  # the code (or harness) raised: candidate violation
            outcome = "exception"
            self.stats["path_errors"] += 1
            tb = traceback.format_exc(limit=-6)
            self._violation("uncaught %s: %s" % (type(e).__name__, safe_str(e)), self._current_inputs(), tb)
        if outcome in ("ok",):
            self.stats["paths"] += 1
            if len(self.path_inputs) < 4000:
                self.path_inputs.append(self._current_inputs())
        self.keep = []

    def _backtrack(self):
        # drop anything beyond what this run consumed (divergence) is handled in branch()
        while self.trail:
            item = self.trail.pop()
            self.solver.pop()
            if item.done:
                continue
            if item.kind == "conc" and item.taken and item.nconc >= self.conc_cap:
                self.stats["conc_cut"] += 1
                self.inconclusive.append("value enumeration cut at %s" % (item.site,))
                continue
            self.solver.push()
            self.solver.add(z3.Not(item.cond) if item.taken else item.cond)
            r, s = self.solve()
            if r == z3.sat:
                m = s.model()
                vals = {}
                for d in m.decls():
                    v = m[d]
                    if z3.is_int_value(v):
                        vals[d.name()] = v.as_long()
                    elif z3.is_true(v):
                        vals[d.name()] = 1
                    elif z3.is_false(v):
                        vals[d.name()] = 0
                self.values = vals
                item.taken = not item.taken
                item.done = True
                self.trail.append(item)
                return True
            self.solver.pop()
            if r == z3.unknown:
                self.stats["unknown"] += 1
                self.inconclusive.append("solver unknown on a branch")
        return False

    # ---------------------------------------------------------------- decisions
    def branch(self, cond, concrete, kind="br", site=None, nconc=0):
        """Record the outcome of a symbolic condition; returns the concrete outcome."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if z3.is_not(cond):
            return not self.branch(cond.arg(0), not concrete, kind, site, nconc)
        cid = cond.get_id()
        k = self.known.get(cid)
        if k is not None:
            return k[1]
        d = self.decide(cond)
        if d is not None:
            if d != concrete:
                raise Divergence("interval/execution mismatch: %s" % (str(cond)[:120],))
            self.known[cid] = (cond, d)
            return d
        self.stats["decisions"] += 1
        self.ndec += 1
        if self.ndec > self.max_decisions:
            raise BudgetStop("more than %d decisions" % self.max_decisions)
        if self.deadline and (self.ndec & 255) == 0 and time.time() > self.deadline + 20:
            raise BudgetStop("deadline inside a path")
        if self.pos < len(self.trail):
            item = self.trail[self.pos]
            if not item.cond.eq(cond) and canon(item.cond) != canon(cond):
                self._truncate()
                raise Divergence("re-execution differs at decision %d: %s vs %s" % (self.pos, str(item.cond)[:80], str(cond)[:80]))
            if item.taken != concrete:
                self._truncate()
                raise Divergence("model/execution mismatch at decision %d: %s" % (self.pos, str(cond)[:120]))
        else:
            item = Item(cond, concrete, kind, site, nconc)
            self.solver.push()
            self.solver.add(cond if concrete else z3.Not(cond))
            self.trail.append(item)
            self.stats["branches"] += 1
        self.pos += 1
        self.known[cid] = (cond, concrete)
        self.refine(cond, concrete)
        return concrete

    # ---------------------------------------------------------------- cheap interval reasoning
    def iv(self, e):
        return self._iv(node(e))

    def _iv(self, n):
        """An interval containing n's value on this path, or None."""
        m = self.ivmemo
        r = m.get(n, 0)
        if r != 0:
            return r
        k = n.kind
        r = None
        if k == "num":
            r = (n.val, n.val)
        elif k == "var":
            r = self.bounds.get(n.val)
        elif k == "add":
            lo = hi = 0
            for a in n.args:
                b = self._iv(a)
                if b is None:
                    break
                lo += b[0]
                hi += b[1]
            else:
                r = (lo, hi)
        elif k == "mul" and len(n.args) == 2:
            a, b = self._iv(n.args[0]), self._iv(n.args[1])
            if a is not None and b is not None:
                ps = [x * y for x in a for y in b]
                r = (min(ps), max(ps))
        elif k == "ite":
            c = self._dec(n.args[0])
            if c is not None:
                r = self._iv(n.args[1 if c else 2])
            else:
                a, b = self._iv(n.args[1]), self._iv(n.args[2])
                if a is not None and b is not None:
                    r = (min(a[0], b[0]), max(a[1], b[1]))
        elif k == "sub":
            ch = [self._iv(a) for a in n.args]
            if None not in ch:
                r = (ch[0][0] - sum(c[1] for c in ch[1:]), ch[0][1] - sum(c[0] for c in ch[1:]))
        elif k == "neg":
            b = self._iv(n.args[0])
            r = None if b is None else (-b[1], -b[0])
        m[n] = r
        return r

    def decide(self, c):
        """True/False when the intervals settle c, else None."""
        return self._dec(node(c))

    def _dec(self, n):
        k = n.kind
        if k in ("le", "ge", "lt", "gt", "eq"):
            a, b = self._iv(n.args[0]), self._iv(n.args[1])
            if a is None or b is None:
                return None
            if k == "ge":
                a, b, k = b, a, "le"
            elif k == "gt":
                a, b, k = b, a, "lt"
            if k == "le":
                return True if a[1] <= b[0] else False if a[0] > b[1] else None
            if k == "lt":
                return True if a[1] < b[0] else False if a[0] >= b[1] else None
            if a[0] == a[1] == b[0] == b[1]:
                return True
            return False if a[1] < b[0] or b[1] < a[0] else None
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "not":
            r = self._dec(n.args[0])
            return None if r is None else not r
        if k == "and":
            out = True
            for x in n.args:
                r = self._dec(x)
                if r is False:
                    return False
                if r is None:
                    out = None
            return out
        if k == "or":
            out = False
            for x in n.args:
                r = self._dec(x)
                if r is True:
                    return True
                if r is None:
                    out = None
            return out
        return None

    def refine(self, c, truth):
        """Tighten the intervals of variables compared with constants."""
        self._ref(node(c), truth)

    _FLIP = {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt", "eq": "eq"}
    _NEG = {"le": "gt", "ge": "lt", "lt": "ge", "gt": "le", "eq": "ne"}

    def _ref(self, n, truth):
        k = n.kind
        if k == "not":
            return self._ref(n.args[0], not truth)
        if (k == "and" and truth) or (k == "or" and not truth):
            for x in n.args:
                self._ref(x, truth)
            return
        if k not in self._FLIP:
            return
        x, y = n.args
        if x.kind == "num":
            x, y, k = y, x, self._FLIP[k]
        if y.kind != "num" or x.kind != "var":
            return
        b = self.bounds.get(x.val)
        if b is None:
            return
        v = y.val
        lo, hi = b
        if not truth:
            k = self._NEG[k]
        if k == "le":
            hi = min(hi, v)
        elif k == "lt":
            hi = min(hi, v - 1)
        elif k == "ge":
            lo = max(lo, v)
        elif k == "gt":
            lo = max(lo, v + 1)
        elif k == "eq":
            lo, hi = max(lo, v), min(hi, v)
        elif k == "ne":
            if lo == v:
                lo += 1
            if hi == v:
                hi -= 1
        if (lo, hi) != b:
            self.bounds[x.val] = (lo, hi)
            self.ivmemo = {}

    def _truncate(self):
        while len(self.trail) > self.pos:
            self.trail.pop()
            self.solver.pop()

    def define(self, expr):
        """A constraint that holds by construction on this path."""
        if self.pos < len(self.trail):
            return
        self.solver.add(expr)

    def concretise(self, expr, value, site="?"):
        """Fix expr to its current value on this path; the other values are explored later."""
        if z3.is_int_value(expr) or z3.is_true(expr) or z3.is_false(expr):
            return value
        self.stats["concretised"] += 1
        cond = expr == z3.IntVal(value)
        k = self.known.get(cond.get_id())
        if k is not None and k[1]:
            return value
        n = 0
        while self.pos < len(self.trail):
            item = self.trail[self.pos]
            if item.cond.eq(cond):
                break
            if item.kind != "conc" or item.taken:
                self._truncate()
                raise Divergence("re-execution differs at a concretisation: %s" % (site,))
            self.pos += 1
            self.known[item.cond.get_id()] = (item.cond, False)
            n += 1
        self.conc_sites[site] = self.conc_sites.get(site, 0) + 1
        self.branch(cond, True, "conc", site, n)
        return value

    def fresh(self, lo=None, hi=None, tag="t"):
        self.fresh_n += 1
        v = z3.Int("!%s%d" % (tag, self.fresh_n))
        if lo is not None:
            self.define(v >= lo)
        if hi is not None:
            self.define(v <= hi)
            if lo is not None:
                self.bounds["!%s%d" % (tag, self.fresh_n)] = (lo, hi)
        return v

    def divmod_const(self, e, c):
        """(q, r) with e == c*q + r, 0 <= r < c as fresh linear definitions."""
        assert c > 0
        if c == 1:
            return e, z3.IntVal(0)
        key = (e.get_id(), c)
        hit = self.divcache.get(key)
        if hit is not None:
            return hit[1], hit[2]
        b = self.iv(e)
        q = self.fresh(tag="q") if b is None else self.fresh(b[0] // c, b[1] // c, tag="q")
        r = self.fresh(0, c - 1, tag="r")
        self.define(e == q * c + r)
        self.divcache[key] = (e, q, r)
        return q, r

    def digits(self, e, base, n):
        """Little-endian digits of 0 <= e < base**n as fresh variables."""
        key = (e.get_id(), base, n)
        hit = self.divcache.get(key)
        if hit is not None:
            return hit[1]
        ds = [self.fresh(0, base - 1, tag="d") for _ in range(n)]
        self.define(e == z3.Sum([d * (base**i) for i, d in enumerate(ds)]))
        self.divcache[key] = (e, ds)
        return ds

    # ---------------------------------------------------------------- inputs
    def _input(self, name, lo, hi, default=None):
        if name in self.inputs:
            raise RuntimeError("duplicate input %r" % name)
        var = z3.Int(name)
        self.define(z3.And(var >= lo, var <= hi))
        if name in self.values:
            v = self.values[name]
            if not (lo <= v <= hi):
                v = max(lo, min(hi, v))
        else:
            v = default if default is not None else max(lo, min(hi, 0))
        self.inputs[name] = (var, v)
        self.bounds[name] = (lo, hi)
        self.order.append(name)
        return var, v

    def _current_inputs(self):
        return {n: self.inputs[n][1] for n in self.order}

    def _model_inputs(self, m):
        out = {}
        for n in self.order:
            var, cur = self.inputs[n]
            v = m.eval(var, model_completion=False)
            out[n] = v.as_long() if z3.is_int_value(v) else cur
        return out

    # ---------------------------------------------------------------- assertions
    def check_expr(self, cond, concrete, label):
        st = self.labels.setdefault(label, dict(reached=0, proved=0, trivial=0, sat=0, unknown=0))
        st["reached"] += 1
        if cond is None:
            self.stats["checks"] += 1
            if concrete:
                st["trivial"] += 1
                self.stats["checks_trivial"] += 1
                return
            st["sat"] += 1
            self.stats["checks_sat"] += 1
            self._violation(label, self._current_inputs())
            raise PathStop()
        if self.pos < len(self.trail):
            it = self.trail[self.pos]
            if it.kind == "assert" and (it.cond.eq(cond) or canon(it.cond) == canon(cond) or canon(z3.Not(it.cond)) == canon(cond) or canon(it.cond) == canon(z3.Not(cond))):
                if not self.branch(cond, concrete, "assert"):
                    raise PathStop()
            return  # same constraints as in the run that created this prefix: already decided
        self.stats["checks"] += 1
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r, s = self.solve()
        if r == z3.unsat:
            st["proved"] += 1
            self.stats["checks_unsat"] += 1
        elif r == z3.sat:
            st["sat"] += 1
            self.stats["checks_sat"] += 1
            inp = self._model_inputs(s.model())
            self.solver.pop()
            self._violation(label, inp)
            # continue on the part of the path where it holds, if there is one
            if not self.branch(cond, concrete, "assert"):
                raise PathStop()
            return
        else:
            st["unknown"] += 1
            self.stats["unknown"] += 1
            self.inconclusive.append("solver unknown on assertion %r" % label)
        self.solver.pop()

    def _violation(self, label, inputs, detail=""):
        if sum(1 for v in self.violations if v["label"] == label) >= 6:
            return
        self.violations.append(dict(label=label, inputs=inputs, detail=detail))


class Node:
    """A z3 term unpacked once into Python."""

    __slots__ = ("e", "kind", "args", "val", "key")


_KINDS = {
    z3.Z3_OP_ADD: "add", z3.Z3_OP_MUL: "mul", z3.Z3_OP_ITE: "ite", z3.Z3_OP_SUB: "sub", z3.Z3_OP_UMINUS: "neg", z3.Z3_OP_LE: "le", z3.Z3_OP_GE: "ge",
    z3.Z3_OP_LT: "lt", z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq", z3.Z3_OP_TRUE: "true", z3.Z3_OP_FALSE: "false", z3.Z3_OP_NOT: "not", z3.Z3_OP_AND: "and", z3.Z3_OP_OR: "or",
}
_NODES = {}
_COMM = {"and", "or", "add", "mul", "eq"}


def node(e):
    i = e.get_id()
    n = _NODES.get(i)
    if n is not None:
        return n
    n = Node()
    n.e = e
    n.args = ()
    n.val = None
    n.key = None
    if z3.is_int_value(e):
        n.kind, n.val = "num", e.as_long()
    elif z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            n.kind, n.val = "var", e.decl().name()
        else:
            n.kind = _KINDS.get(k)
            ch = e.children()
            if n.kind == "eq" and not z3.is_int(ch[0]):
                n.kind = "iff"
            if n.kind is None:
                n.kind = "op%d" % k
            n.args = tuple(node(c) for c in ch)
    else:
        n.kind = "?"
    _NODES[i] = n
    return n


def canon(e):
    """A key for e that ignores the order of commutative arguments."""
    return _canon(node(e) if not isinstance(e, Node) else e)


def _canon(n):
    if n.key is None:
        if not n.args:
            n.key = "%s %s" % (n.kind, n.val)
        else:
            ch = [_canon(c) for c in n.args]
            k = n.kind
            if k in _COMM or k == "iff":
                ch.sort()
            elif k in ("ge", "gt"):
                k, ch = ("le" if k == "ge" else "lt"), ch[::-1]
            n.key = "(%s %s)" % (k, " ".join(ch))
            if len(n.key) > 200:
                import hashlib

                n.key = hashlib.md5(n.key.encode()).hexdigest()
    return n.key


def safe_str(e):
    try:
        return str.__str__(str(e))[:300]
    except BaseException:
        return "?"
