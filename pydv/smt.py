"""z3 / cvc5 back ends over terms.py"""
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from .terms import Term, Poly, norm, poly_to_term, Unsupported, E, PI, Not, TRUE, FALSE, num

STATS = {"queries": 0, "z3_s": 0.0, "cvc5_s": 0.0, "cvc5_queries": 0, "unknown": 0}

_RegS = z3.DeclareSort("Reg")
_AnyS = z3.DeclareSort("Any")
_sorts = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort(), "Reg": _RegS, "Any": _AnyS, "S": z3.StringSort()}
_cache = {}
_side = {}  # term id -> list of (side-condition z3 formulas)


def rat(f):
    return z3.RealVal(str(Fraction(f)))


def as_int(z):
    """the integer expression a real one converts, if it does"""
    if z3.is_rational_value(z):
        return z3.IntVal(z.numerator_as_long()) if z.denominator_as_long() == 1 else None
    if z3.is_to_real(z):
        return z.arg(0)
    if z3.is_add(z) or z3.is_mul(z):
        xs = [as_int(c) for c in z.children()]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r + x if z3.is_add(z) else r * x
        return r
    return None


class Tr:
    """translate terms; collects axioms instantiated on the atoms met"""

    def __init__(self):
        self.cache = {}
        self.ax = []
        self.fns = {}

    def real(self, t):
        z = self.tr(t)
        return z3.ToReal(z) if z3.is_int(z) else z

    def poly(self, p):
        acc = None
        for m, c in p.d.items():
            x = None
            for a, e in m:
                y = self.power(a, e)
                x = y if x is None else x * y
            if x is None:
                x = rat(c)
            elif c != 1:
                x = rat(c) * x
            acc = x if acc is None else acc + x
        return rat(0) if acc is None else acc

    def power(self, a, e):
        if a is E:
            ez = self.poly(e) if isinstance(e, Poly) else rat(e)
            return self.ufn("exp", ez)
        base = self.poly(a.args[0]) if a.op == "polyatom" else (
            rat(a.args[0]) if a.op == "cnum" else self.real(a))
        if isinstance(e, Fraction) and e.denominator == 1:
            n = int(e)
            if n > 0:
                r = base
                for _ in range(n - 1):
                    r = r * base
                return r
            key = ("inv", a.id if a.op != "polyatom" else a.args[0].key())
            inv = self.cache.get(key)
            if inv is None:
                inv = z3.Real(f"inv!{len(self.cache)}")
                self.cache[key] = inv
                self.ax.append(z3.Implies(base != 0, inv * base == 1))
                self.ax.append(z3.Implies(base > 0, inv > 0))
            r = inv
            for _ in range(-n - 1):
                r = r * inv
            return r
        ez = self.poly(e) if isinstance(e, Poly) else rat(e)
        r = self.ufn("rpow", base, ez)
        self.ax.append(z3.Implies(base > 0, r > 0))
        self.ax.append(z3.Implies(z3.And(base == 0, ez > 0), r == 0))
        self.ax.append(z3.Implies(base >= 0, r >= 0))
        return r

    def ufn(self, name, *args):
        f = z3.Function(name, *[z3.RealSort()] * len(args), z3.RealSort())
        r = f(*args)
        key = ("ufn", r.get_id())
        if key not in self.cache:
            self.cache[key] = r
            others = self.fns.setdefault(name, [])
            if name == "exp":
                self.ax += [r > 0, z3.Implies(args[0] > 0, r > 1), z3.Implies(args[0] < 0, r < 1),
                            z3.Implies(args[0] == 0, r == 1), r >= 1 + args[0]]
                for (o, oa) in others[:12]:
                    self.ax.append((args[0] < oa[0]) == (r < o))
            elif name == "atan":
                pi = self.real(PI)
                self.ax += [2 * r < pi, 2 * r > -pi, (args[0] > 0) == (r > 0), (args[0] < 0) == (r < 0)]
                for (o, oa) in others[:12]:
                    self.ax.append((args[0] < oa[0]) == (r < o))
            elif name == "log":
                self.ax += [(args[0] > 1) == (r > 0), (args[0] == 1) == (r == 0)]
                for (o, oa) in others[:12]:
                    self.ax.append(z3.Implies(z3.And(args[0] > 0, oa[0] > 0), (args[0] < oa[0]) == (r < o)))
            others.append((r, args))
        return r

    def tr(self, t):
        k = t.id
        z = self.cache.get(k)
        if z is None:
            z = self._tr(t)
            self.cache[k] = z
        return z

    def _tr(self, t):
        op = t.op
        if op == "num":
            f = t.args[0]
            return z3.IntVal(int(f)) if t.sort == "I" else rat(f)
        if op == "const":
            c = z3.Real("c!" + t.args[0])
            if t is PI:
                self.ax += [c > rat(Fraction(314159265358979, 10 ** 14)), c < rat(Fraction(31415926535898, 10 ** 13))]
            else:
                self.ax += [c > rat(Fraction("2.718281828")), c < rat(Fraction("2.718281829"))]
            return c
        if op == "var":
            return z3.Const(t.args[0], _sorts[t.sort])
        if op == "slit":
            return z3.StringVal(t.args[0])
        if op == "concat":
            return z3.Concat(*[self.tr(a) for a in t.args])
        if op == "prefixof":
            return z3.PrefixOf(*[self.tr(a) for a in t.args])
        if op == "suffixof":
            return z3.SuffixOf(*[self.tr(a) for a in t.args])
        if op == "contains":
            return z3.Contains(*[self.tr(a) for a in t.args])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "app":
            args = []
            for a in t.args[1:]:
                if isinstance(a, Term):
                    args.append(self.real(a) if a.sort in ("R", "I") else self.tr(a))
                else:
                    args.append(z3.StringVal(str(a)))
            if not args:
                return z3.Const(t.args[0], _sorts[t.sort])
            f = z3.Function(t.args[0], *[a.sort() for a in args], _sorts[t.sort])
            return f(*args)
        if op in ("add", "mul", "pow", "polyatom", "sum", "ite") and t.sort in ("R", "I"):
            if op == "ite":
                return z3.If(self.tr(t.args[0]), self.real(t.args[1]), self.real(t.args[2]))
            p = norm(t)
            if len(p.d) == 1:
                (m, c), = p.d.items()
                if len(m) == 1 and c == 1 and m[0][0] is t and m[0][1] == 1:
                    if op == "polyatom":
                        return self.poly(t.args[0])
                    raise Unsupported(f"smt {op}")
            return self.poly(p)
        if op == "psum":
            z = z3.Real(f"psum!{t.id}")
            if nonneg_poly(t.args[2]):
                self.ax.append(z >= 0)
            return z
        if op == "zero":
            return rat(0)
        if op == "cnum":
            return rat(t.args[0])
        if op == "fn":
            name = t.args[0]
            args = [self.real(a) for a in t.args[1:]]
            if name == "floor":
                return z3.ToInt(args[0])
            if name == "ceil":
                return -z3.ToInt(-args[0])
            if name == "trunc":
                return z3.If(args[0] >= 0, z3.ToInt(args[0]), -z3.ToInt(-args[0]))
            if name == "round":          # ties to the even number
                f = z3.ToInt(args[0] + z3.RealVal("1/2"))
                return z3.If(z3.And(z3.ToReal(f) == args[0] + z3.RealVal("1/2"), f % 2 == 1), f - 1, f)
            if name == "abs":
                return z3.If(args[0] >= 0, args[0], -args[0])
            if name == "min":
                return z3.If(args[0] <= args[1], args[0], args[1])
            if name == "max":
                return z3.If(args[0] >= args[1], args[0], args[1])
            return self.ufn(name, *args)
        if op in ("eq", "le", "lt"):
            a, b = t.args
            if a.sort in ("R", "I") and b.sort in ("R", "I"):
                x, y = self.real(a), self.real(b)
                i, j = as_int(x), as_int(y)
                if i is not None and j is not None:
                    x, y = i, j
            else:
                x, y = self.tr(a), self.tr(b)
            return x == y if op == "eq" else (x <= y if op == "le" else x < y)
        if op == "iff":
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And(*[self.tr(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self.tr(a) for a in t.args])
        if op == "ite":
            return z3.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
        raise Unsupported(f"smt {op}")


def nonneg_poly(p):
    """syntactically nonnegative: what a count of elements is made of"""
    return all(c > 0 and all(nonneg_atom(a, e) for a, e in m) for m, c in p.d.items())


def nonneg_atom(a, e):
    if isinstance(e, Fraction) and e.denominator == 1 and e.numerator % 2 == 0:
        return True
    if a.op == "const":
        return True
    if a.op == "ite":
        return all(nonneg_poly(norm(x)) for x in a.args[1:])
    if a.op == "psum":
        return nonneg_poly(a.args[2])
    return a.op == "fn" and a.args[0] == "abs"


_sat_cache = {}


def sat(conds, timeout_ms=2000):
    """'sat' / 'unsat' / 'unknown' of a conjunction of Bool terms"""
    conds = [c for c in conds if c.op != "true"]
    if any(c.op == "false" for c in conds):
        return "unsat"
    if not conds:
        return "sat"
    key = frozenset(c.id for c in conds)
    r = _sat_cache.get(key)
    if r is not None:
        return r
    r, _ = solve(conds, timeout_ms, want_model=False)
    _sat_cache[key] = r
    return r


def solve(conds, timeout_ms=4000, want_model=True, cvc5_too=False):
    t0 = time.time()
    tr = Tr()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    zs = [tr.tr(c) for c in conds]
    s.add(*zs)
    s.add(*tr.ax)
    STATS["queries"] += 1
    r = s.check()
    STATS["z3_s"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", (s.model() if want_model else None)
    if cvc5_too:
        r2 = cvc5_check(s.to_smt2(), timeout_ms)
        if r2 == "unsat":
            return "unsat", None
    STATS["unknown"] += 1
    return "unknown", None


def cvc5_check(smt2, timeout_ms):
    t0 = time.time()
    STATS["cvc5_queries"] += 1
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
    try:
        p = subprocess.run(["cvc5", f"--tlimit={timeout_ms}", f.name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception:
        out = "unknown"
    finally:
        os.unlink(f.name)
    STATS["cvc5_s"] += time.time() - t0
    return out


def prove(hyps, goal, timeout_ms=4000, cvc5_too=True):
    """valid / refuted(model) / unknown"""
    r, m = solve(list(hyps) + [Not(goal)], timeout_ms, cvc5_too=cvc5_too)
    return {"unsat": "valid", "sat": "refuted", "unknown": "unknown"}[r], m
