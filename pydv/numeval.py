"""Numbers for terms: deterministic pseudo-random interpretations, used to tell a real difference of two terms from one
that only the solver's opaque treatment of sums allows."""
import hashlib
import math
from fractions import Fraction

from . import terms as T
from .terms import Term, Poly


class NoValue(Exception):
    pass


class Interp:
    REGS = ("A", "B", "C")

    def __init__(self, seed, ints):
        self.seed, self.ints, self.bound = seed, ints, {}

    def h(self, *k):
        d = hashlib.md5(repr((self.seed,) + k).encode()).digest()
        return int.from_bytes(d[:6], "big") / 2 ** 48

    def poly(self, p):
        r = 0.0
        for m, c in p.d.items():
            f = float(c)
            for a, e in m:
                x = self(a)
                y = self.poly(e) if isinstance(e, Poly) else float(e)
                try:
                    f *= x ** y
                except (ZeroDivisionError, OverflowError, ValueError):
                    raise NoValue
                if isinstance(f, complex):
                    raise NoValue
            r += f
        return r

    def __call__(self, t):
        op = t.op
        if op in ("num", "cnum"):
            return float(t.args[0])
        if op == "const":
            return math.pi if t.args[0] == "pi" else math.e
        if op == "zero":
            return 0.0
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "var":
            if t.id in self.bound:
                return self.bound[t.id]
            n = t.args[0]
            if t.sort == "Reg":
                return "A"
            if t.sort == "I":
                return self.ints.get(n, 1 + int(self.h("v", n) * 4))
            if t.sort == "B":
                return self.h("v", n) < 0.5
            return 0.5 + self.h("v", n) * 1.5
        if op == "app":
            args = tuple(self.key(a) for a in t.args[1:])
            x = self.h("a", t.args[0], args)
            if t.sort == "B":
                return x < 0.5
            if t.sort == "I":
                return self.ints.get(t.args[0], 1 + int(x * 4))
            if t.sort == "R":
                return 0.5 + 1.5 * x
            raise NoValue
        if op == "add":
            return sum(self(a) for a in t.args)
        if op == "mul":
            r = 1.0
            for a in t.args:
                r *= self(a)
            return r
        if op == "pow":
            try:
                r = self(t.args[0]) ** self(t.args[1])
            except (ZeroDivisionError, OverflowError, ValueError):
                raise NoValue
            if isinstance(r, complex):
                raise NoValue
            return r
        if op == "polyatom":
            return self.poly(t.args[0])
        if op == "ite":
            return self(t.args[1]) if self(t.args[0]) else self(t.args[2])
        if op == "fn":
            f = {"exp": math.exp, "log": math.log, "atan": math.atan, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round, "abs": abs,
                 "min": min, "max": max, "sqrt": math.sqrt, "tanh": math.tanh, "sin": math.sin, "cos": math.cos}.get(t.args[0])
            if f is None:
                raise NoValue
            try:
                return f(*[self(a) for a in t.args[1:]])
            except (ValueError, OverflowError):
                raise NoValue
        if op in ("sum", "psum"):
            dom, bv, body = t.args
            if dom == "regions":
                vals = self.REGS
            elif isinstance(dom, tuple) and dom[0] == "range":
                lo, hi = self(dom[1]), self(dom[2])
                if hi - lo > 60:
                    raise NoValue
                vals = range(round(lo), round(hi))
            else:
                raise NoValue
            key = bv.id if isinstance(bv, Term) else T.bvar(bv, "Reg" if dom == "regions" else "I").id
            old, r = self.bound.get(key), 0.0
            for x in vals:
                self.bound[key] = x
                r += self.poly(body) if isinstance(body, Poly) else self(body)
            if old is None:
                self.bound.pop(key, None)
            else:
                self.bound[key] = old
            return r
        if op == "eq":
            a, b = self.key(t.args[0]), self.key(t.args[1])
            return abs(a - b) <= 1e-9 * (1 + abs(a)) if isinstance(a, float) and isinstance(b, float) else a == b
        if op == "le":
            return self(t.args[0]) <= self(t.args[1])
        if op == "lt":
            return self(t.args[0]) < self(t.args[1])
        if op == "not":
            return not self(t.args[0])
        if op == "and":
            return all(self(a) for a in t.args)
        if op == "or":
            return any(self(a) for a in t.args)
        raise NoValue

    def key(self, a):
        if isinstance(a, Term):
            x = self(a)
            return round(float(x), 9) if not isinstance(x, str) else x
        return str(a)


def differ(a, b, cond, points=6):
    """True unless a and b agree at several points that satisfy the condition (no point found: True)"""
    same = 0
    for k in range(400):
        i = Interp(k, {"t": 1 + k % 4, "TF": 6 + k % 3, "T0YEAR": 2000 + (37 * k) % 100, "YEAR2100": 3 + k % 7})
        try:
            if not all(i(c) for c in cond):
                continue
            x, y = i(a), i(b)
        except (NoValue, KeyError, TypeError):
            continue
        if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
            return True
        same += 1
        if same >= points:
            return False
    return True
