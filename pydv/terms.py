"""Hash-consed terms and their polynomial normal form.

Reals are mathematical reals (DESIGN.md, assumption A1).  A term is either raw (op/args, built by the operators
below while the real code runs) or, after `norm`, a Poly: a sum of coefficient * monomial, a monomial being a product
of atoms raised to polynomial exponents.  exp(x) is the atom E raised to x, so products of exponentials merge.
"""
from fractions import Fraction
import math
import re


class Unsupported(BaseException):
    """The construct is outside the verifier's subset: the obligation is undecided, never a violation."""


PI_F = math.pi
_intern = {}
_count = [0]


class Term:
    __slots__ = ("op", "args", "sort", "id", "_norm", "_hasvar", "_free", "_shape")

    # ---- construction
    def __new__(cls, op, args, sort="R"):
        key = (op, args, sort)
        t = _intern.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.sort = op, args, sort
            _count[0] += 1
            t.id = _count[0]
            t._norm = None
            t._hasvar = None
            t._free = None
            t._shape = None
            _intern[key] = t
        return t

    def __init__(self, *a):
        pass

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return self.id * 2654435761 & 0x7FFFFFFF

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mk_add(self, o)

    def __radd__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mk_add(o, self)

    def __sub__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mk_add(self, mk_mul(num(-1), o))

    def __rsub__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mk_add(o, mk_mul(num(-1), self))

    def __mul__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mk_mul(self, o)

    def __rmul__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mk_mul(o, self)

    def __neg__(self):
        return mk_mul(num(-1), self)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mk_mul(self, mk_pow(o, num(-1)))

    def __rtruediv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mk_mul(o, mk_pow(self, num(-1)))

    def __pow__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mk_pow(self, o)

    def __rpow__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mk_pow(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __ceil__(self):
        return fn("ceil", self, sort="I")

    def __floor__(self):
        return fn("floor", self, sort="I")

    def __trunc__(self):
        return fn("trunc", self, sort="I")

    def __round__(self, n=None):
        if n is None:
            return fn("round", self, sort="I")
        if isinstance(n, int):
            return fn("round", self * num(10) ** num(n), sort="I") / num(10) ** num(n)
        raise Unsupported("rounding of a symbolic number")

    def __floordiv__(self, o):
        return fn("floor", self / o, sort="I")

    def __rfloordiv__(self, o):
        return fn("floor", o / self, sort="I")

    def __mod__(self, o):
        return self - (self // o) * o

    def __abs__(self):
        return fn("abs", self)

    # ---- relations (kept, not evaluated: Python truth forks the path)
    def __eq__(self, o):
        return _rel("eq", self, o)

    def __ne__(self, o):
        r = _rel("eq", self, o)
        return r if r is NotImplemented else Not(r)

    def __le__(self, o):
        return _rel("le", self, o)

    def __lt__(self, o):
        return _rel("lt", self, o)

    def __ge__(self, o):
        if _inf(o):
            return TRUE if o == -math.inf else FALSE
        o = lift(o)
        return o if o is NotImplemented else _rel("le", o, self)

    def __gt__(self, o):
        if _inf(o):
            return TRUE if o == -math.inf else FALSE
        o = lift(o)
        return o if o is NotImplemented else _rel("lt", o, self)

    # ---- Python protocol hooks
    def __bool__(self):
        if self.sort == "B":
            return decide(self)
        if self.sort in ("R", "I"):
            return decide(Not(_rel("eq", self, num(0))))
        raise Unsupported(f"truth value of {self}")

    def __float__(self):
        v = const_value(self)
        if v is None:
            raise Unsupported("float() of a symbolic term through a native routine")
        return float(v)

    def __int__(self):
        v = const_value(self)
        if v is None:
            raise Unsupported("int() of a symbolic term through a native routine")
        return int(v)

    def __index__(self):
        v = const_value(self)
        if v is None or v.denominator != 1:
            raise Unsupported("index of a symbolic term through a native routine")
        return int(v)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic scalar")

    def __and__(self, o):
        return And(self, o) if self.sort == "B" else NotImplemented

    def __or__(self, o):
        return Or(self, o) if self.sort == "B" else NotImplemented

    def __invert__(self):
        return Not(self)

    def __format__(self, spec):
        return f"<{show(self)}>"

    def __repr__(self):
        return show(self)


# ---- path decisions are installed by engine.py
_decider = [None]


def decide(cond):
    c = simp_bool(cond)
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    if _decider[0] is None:
        raise Unsupported(f"symbolic branch outside an exploration: {c}")
    return _decider[0](c)


# ---- lifting
_num_cache = {}
PI = Term("const", ("pi",))
E = Term("const", ("e",))


def num(x):
    t = _num_cache.get((type(x), x))
    if t is not None:
        return t
    if isinstance(x, bool):
        f = Fraction(int(x))
    elif isinstance(x, (int, Fraction)):
        f = Fraction(x)
    else:
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported(f"non-finite constant {x}")
        if x == PI_F:
            return PI
        f = Fraction(repr(x))
        if x != 0 and len(repr(x)) >= 16:      # a multiple of pi or of 1/pi that Python folded
            for q, e in ((x / PI_F, 1), (x * PI_F, -1)):
                g = Fraction(q).limit_denominator(400)
                if g != 0 and abs(g.numerator) < 100000 and abs(q - float(g)) <= 4e-16 * abs(q):
                    t = mk_mul(Term("num", (g,)), PI if e == 1 else mk_pow(PI, num(-1)))
                    _num_cache[(type(x), x)] = t
                    return t
    t = Term("num", (f,))
    _num_cache[(type(x), x)] = t
    return t


def lift(x):
    if isinstance(x, Term):
        return x
    h = getattr(x, "__term__", None)
    if h is not None:
        return h()
    if isinstance(x, (bool, int, float, Fraction)):
        return num(x)
    if type(x).__module__ == "numpy":
        try:
            return num(x.item())
        except Exception:
            return NotImplemented
    return NotImplemented


def var(name, sort="R"):
    return Term("var", (name,), sort)


def app(name, *args, sort="R"):
    args = tuple(canon(lift(a)) if isinstance(lift(a), Term) else a for a in args)
    return Term("app", (name,) + args, sort)


_fresh = [0]


def fresh(prefix, sort="R"):
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}", sort)


def canon(t):
    """canonical representative of an argument (so that t-1+1 and t are the same index)"""
    if t.sort in ("R", "I") and t.op not in ("var", "num"):
        p = norm(t)
        r = poly_to_term(p)
        if t.sort == "I" and r.sort != "I":
            r = Term(r.op, r.args, "I") if r.op != "num" else r
        return r
    return t


def mk_add(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] + b.args[0])
    if a.op == "num" and a.args[0] == 0:
        return b
    if b.op == "num" and b.args[0] == 0:
        return a
    sort = "I" if _isint(a) and _isint(b) else "R"
    return Term("add", (a, b), sort)


def _isint(a):
    return a.sort == "I" or (a.op == "num" and a.args[0].denominator == 1)


def mk_mul(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] * b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "num":
            if x.args[0] == 1:
                return y
            if x.args[0] == 0:
                return num(0)
    sort = "I" if _isint(a) and _isint(b) else "R"
    return Term("mul", (a, b), sort)


def mk_pow(a, b):
    if b.op == "num":
        e = b.args[0]
        if e == 1:
            return a
        if e == 0:
            return num(1)
        if a.op == "num" and e.denominator == 1:
            if a.args[0] == 0 and e < 0:
                raise ZeroDivisionError("division by zero")
            return num(a.args[0] ** int(e))
    if a.op == "num" and a.args[0] == 1:
        return num(1)
    return Term("pow", (a, b))


def fn(name, *args, sort="R"):
    args = tuple(lift(a) for a in args)
    if name == "exp":
        return mk_pow(E, args[0])
    if name == "sqrt":
        return mk_pow(args[0], num(Fraction(1, 2)))
    if all(a.op == "num" for a in args):
        v = [a.args[0] for a in args]
        if name == "floor":
            return num(Fraction(math.floor(v[0])))
        if name == "ceil":
            return num(Fraction(math.ceil(v[0])))
        if name == "trunc":
            return num(Fraction(math.trunc(v[0])))
        if name == "round":
            return num(Fraction(round(v[0])))
        if name == "abs":
            return num(abs(v[0]))
        if name == "log" and v[0] == 1:
            return num(0)
        if name in ("atan", "tanh", "sin", "tan") and v[0] == 0:
            return num(0)
    if name in ("floor", "ceil", "trunc", "round") and args[0].sort == "I":
        return args[0]
    return Term("fn", (name,) + args, sort)


def ite(c, a, b):
    c = simp_bool(c)
    if c.op == "true":
        return lift(a)
    if c.op == "false":
        return lift(b)
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return Term("ite", (c, a, b), a.sort if a.sort == b.sort else "R")


def mk_sum(domain, bv, body):
    """sum over `domain` (a hashable description: 'regions' or ('range', lo, hi)) of body, bv bound"""
    return Term("sum", (domain, bv, lift(body)))


TRUE = Term("true", (), "B")
FALSE = Term("false", (), "B")


def _inf(b):
    return isinstance(b, float) and (b != b or b in (math.inf, -math.inf))


def _rel(op, a, b):
    if _inf(b):          # a is finite
        return TRUE if op in ("le", "lt") and b == math.inf else FALSE
    b = lift(b)
    if b is NotImplemented:
        return b
    a = lift(a)
    if a.op == "num" and b.op == "num":
        x, y = a.args[0], b.args[0]
        return TRUE if {"eq": x == y, "le": x <= y, "lt": x < y}[op] else FALSE
    return Term(op, (a, b), "B")


def Not(c):
    if isinstance(c, bool):
        return FALSE if c else TRUE
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "lt":
        return Term("le", (c.args[1], c.args[0]), "B")
    if c.op == "le":
        return Term("lt", (c.args[1], c.args[0]), "B")
    return Term("not", (c,), "B")


def B(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return x


def And(*cs):
    out = []
    for c in cs:
        c = B(c)
        if c.op == "false":
            return FALSE
        if c.op == "true":
            continue
        if not any(c is o for o in out):
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Term("and", tuple(out), "B")


def Or(*cs):
    out = []
    for c in cs:
        c = B(c)
        if c.op == "true":
            return TRUE
        if c.op == "false":
            continue
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Term("or", tuple(out), "B")


def Implies(a, b):
    return Or(Not(B(a)), B(b))


def Iff(a, b):
    a, b = B(a), B(b)
    if a is b:
        return TRUE
    return Term("iff", (a, b), "B")


def simp_bool(c):
    if isinstance(c, bool):
        return TRUE if c else FALSE
    if c.op in ("eq", "le", "lt"):
        a, b = c.args
        if a is b:
            return TRUE if c.op in ("eq", "le") else FALSE
        if a.sort in ("R", "I") and b.sort in ("R", "I"):
            p = norm(a - b)
            k = p.const()
            if k is not None:
                return TRUE if {"eq": k == 0, "le": k <= 0, "lt": k < 0}[c.op] else FALSE
    return c


# =====================================================================  normal form
class Poly:
    """sum of coef*monomial; monomial = tuple of (atom Term, exponent: Fraction or Poly)"""

    __slots__ = ("d", "_key", "_hash")

    def __init__(self, d):
        self.d = d
        self._key = None
        self._hash = None

    def key(self):
        if self._key is None:
            self._key = frozenset(self.d.items())
            self._hash = hash(self._key)
        return self._key

    def __hash__(self):
        self.key()
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.d == o.d)

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __repr__(self):
        return show_poly(self)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def pconst(f):
    return Poly({(): Fraction(f)}) if f != 0 else ZERO


def padd(p, q, k=Fraction(1)):
    if not q.d:
        return p
    d = dict(p.d)
    for m, c in q.d.items():
        n = d.get(m, 0) + k * c
        if n == 0:
            d.pop(m, None)
        else:
            d[m] = n
    return Poly(d)


def _exp_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    pa = a if isinstance(a, Poly) else pconst(a)
    pb = b if isinstance(b, Poly) else pconst(b)
    r = padd(pa, pb)
    c = r.const()
    return r if c is None else c


def _exp_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    pa = a if isinstance(a, Poly) else pconst(a)
    pb = b if isinstance(b, Poly) else pconst(b)
    r = pmul(pa, pb)
    c = r.const()
    return r if c is None else c


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            n = _exp_add(d[a], e)
            if isinstance(n, Fraction) and n == 0:
                del d[a]
            else:
                d[a] = n
        else:
            d[a] = e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def pmul(p, q):
    if not p.d or not q.d:
        return ZERO
    pc, qc = p.const(), q.const()
    if pc is not None:
        return q if pc == 1 else Poly({m: c * pc for m, c in q.d.items()})
    if qc is not None:
        return p if qc == 1 else Poly({m: c * qc for m, c in p.d.items()})
    d = {}
    extra = None
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m = mono_mul(m1, m2)
            # a polynomial atom whose exponent became a positive integer is expanded again
            back = None
            for a, e in m:
                if a.op == "polyatom" and isinstance(e, Fraction) and e.denominator == 1 and e > 0 and _expands(a.args[0], e):
                    back = (a, e)
                    break
            if back is not None:
                rest = tuple(x for x in m if x[0] is not back[0])
                ex = ppow(back[0].args[0], pconst(back[1]))
                pr = pmul(Poly({rest: c1 * c2}), ex)
                extra = pr if extra is None else padd(extra, pr)
                continue
            n = d.get(m, 0) + c1 * c2
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
    r = Poly(d)
    return r if extra is None else padd(r, extra)


def lead(p):
    """deterministic leading monomial: by (number of atoms, ids)"""
    return min(p.d, key=lambda m: (-len(m), tuple((a.id, _ek(e)) for a, e in m)))


def _ek(e):
    return (0, float(e)) if isinstance(e, Fraction) else (1, hash(e) & 0xFFFF)


def _expands(p, n):
    return n == 1 or 1 < n <= 4 and len(p.d) <= 6


def ppow(p, e):
    """p ** e, both Poly.  Splitting a product under a non-integer power assumes nonnegative factors (A3)."""
    c = e.const()
    if c is not None and c.denominator == 1:
        n = int(c)
        if n == 0:
            return ONE
        if not p.d:
            if n < 0:
                raise ZeroDivisionError("division by zero")
            return ZERO
        if len(p.d) == 1:
            (m, k), = p.d.items()
            return Poly({_mono_pow(m, Fraction(n)): k ** n})
        if _expands(p, n):
            r = p
            for _ in range(n - 1):
                r = pmul(r, p)
            return r
        k, q = _content(p)
        atom = Term("polyatom", (q,))
        return Poly({((atom, Fraction(n)),): k ** n})
    ex = c if c is not None else e
    if not p.d:
        return Poly({((Term("zero", ()), ex),): Fraction(1)})
    if len(p.d) == 1:
        (m, k), = p.d.items()
        mono = _mono_pow(m, ex)
        if k == 1:
            return Poly({mono: Fraction(1)})
        if k > 0:
            return Poly({mono_mul(mono, ((Term("cnum", (k,)), ex),)): Fraction(1)})
        return Poly({((Term("polyatom", (p,)), ex),): Fraction(1)})
    k, q = _content(p)
    if k < 0:
        k, q = -k, Poly({m: -v for m, v in q.d.items()})
    mono = ((Term("polyatom", (q,)), ex),)
    if k != 1:
        mono = mono_mul(mono, ((Term("cnum", (k,)), ex),))
    return Poly({mono: Fraction(1)})


def _mono_pow(m, e):
    out = []
    for a, x in m:
        n = _exp_mul(x, e if isinstance(e, (Fraction, Poly)) else Fraction(e))
        if isinstance(n, Fraction) and n == 0:
            continue
        out.append((a, n))
    return tuple(sorted(out, key=lambda x: x[0].id))


def _content(p):
    k = p.d[lead(p)]
    return k, Poly({m: c / k for m, c in p.d.items()})


def atom_poly(t):
    return Poly({((t, Fraction(1)),): Fraction(1)})


def norm(t):
    if t._norm is not None:
        return t._norm
    op = t.op
    if op == "num":
        r = pconst(t.args[0])
    elif op in ("var", "const", "app", "cnum"):
        r = atom_poly(t)
    elif op == "add":
        # flatten iteratively
        stack, acc = [t], ZERO
        while stack:
            x = stack.pop()
            if x.op == "add" and x._norm is None:
                stack.extend(x.args)
            else:
                acc = padd(acc, norm(x))
        r = acc
    elif op == "mul":
        r = pmul(norm(t.args[0]), norm(t.args[1]))
    elif op == "pow":
        r = ppow(norm(t.args[0]), norm(t.args[1]))
    elif op == "polyatom":
        r = atom_poly(t)
    elif op == "fn":
        r = norm_fn(t)
    elif op == "ite":
        a, b = norm(t.args[1]), norm(t.args[2])
        r = a if a == b else atom_poly(Term("ite", (t.args[0], poly_to_term(a), poly_to_term(b)), t.sort))
    elif op == "sum":
        r = norm_sum(t)
    elif op in ("zero", "psum"):
        r = atom_poly(t)
    else:
        raise Unsupported(f"norm of {op}")
    t._norm = r
    return r


def norm_fn(t):
    name = t.args[0]
    ps = [norm(a) for a in t.args[1:]]
    if name == "log" and len(ps) == 1 and len(ps[0].d) == 1:
        # log of a monomial: sum of exponents * log(atom) (positive factors, A3)
        (m, c), = ps[0].d.items()
        if m and c > 0:
            r = ZERO
            for a, e in m:
                if a.op == "const" and a.args[0] == "e":
                    la = ONE
                else:
                    la = atom_poly(Term("fn", ("log", a)))
                r = padd(r, pmul(la, e if isinstance(e, Poly) else pconst(e)))
            if c != 1:
                r = padd(r, atom_poly(Term("fn", ("log", num(c)))))
            return r
    if name in ("atan", "tanh", "sin", "tan") and len(ps) == 1 and ps[0].d:
        # odd functions
        c = ps[0].d[lead(ps[0])]
        if c < 0:
            q = Poly({m: -v for m, v in ps[0].d.items()})
            return Poly({((Term("fn", (name, poly_to_term(q))), Fraction(1)),): Fraction(-1)})
    args = tuple(poly_to_term(p) for p in ps)
    if name in ("min", "max"):
        args = tuple(sorted(args, key=lambda x: x.id))
    a = Term("fn", (name,) + args, t.sort)
    return atom_poly(a)


# ---- bound sums
def free_in(t, v):
    """does atom/term v occur in t (t raw or normalised)?"""
    if t is v:
        return True
    fs = free_set(t)
    return v.id in fs


def free_set(t):
    """ids of the var atoms occurring in t"""
    if t._free is not None:
        return t._free
    out = set()
    if t.op == "var":
        out.add(t.id)
    elif t.op in ("polyatom", "psum"):
        for a in t.args:
            if isinstance(a, Poly):
                out |= poly_free(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        out |= free_set(b)
            elif isinstance(a, Term):
                out |= free_set(a)
    else:
        for a in t.args:
            if isinstance(a, Term):
                out |= free_set(a)
            elif isinstance(a, Poly):
                out |= poly_free(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        out |= free_set(b)
        if t.op == "sum":
            out.discard(t.args[1].id)
    t._free = out
    return out


def poly_free(p):
    out = set()
    for m in p.d:
        for a, e in m:
            out |= free_set(a)
            if isinstance(e, Poly):
                out |= poly_free(e)
    return out


def depth_bv(p):
    """largest canonical bound-variable index used inside p, or -1"""
    best = -1
    for m in p.d:
        for a, e in m:
            best = max(best, _depth_t(a))
            if isinstance(e, Poly):
                best = max(best, depth_bv(e))
    return best


def _depth_t(t):
    best = -1
    if t.op == "psum":
        best = max(best, t.args[1])
        best = max(best, depth_bv(t.args[2]))
    for a in t.args:
        if isinstance(a, Term):
            best = max(best, _depth_t(a))
        elif isinstance(a, Poly):
            best = max(best, depth_bv(a))
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Term):
                    best = max(best, _depth_t(b))
    return best


def bvar(i, sort):
    return Term("var", (f"#bv{i}",), sort)


def norm_sum(t):
    dom, bv, body = t.args
    if isinstance(dom, tuple):
        dom = tuple(poly_to_term(norm(x)) if isinstance(x, Term) and x.sort in ("R", "I") else x for x in dom)
    if isinstance(dom, tuple) and dom[0] == "range" and not (dom[1].op == "num" and dom[1].args[0] == 0):
        lo = dom[1]                      # every range starts at zero
        dom = ("range", num(0), poly_to_term(norm(dom[2] - lo)))
        k = fresh("k", "I")
        body = subst(body, {bv.id: k + lo})
        bv = k
    p = norm(body)
    res = ZERO
    for m, c in p.d.items():
        inner, outer = [], []
        for a, e in m:
            dep = bv.id in free_set(a) or (isinstance(e, Poly) and bv.id in poly_free(e))
            (inner if dep else outer).append((a, e))
        inner = tuple(inner)
        if not inner:
            size = sum_size(dom)
            res = padd(res, pmul(Poly({tuple(outer): c}), size))
            continue
        d = depth_bv(Poly({inner: Fraction(1)})) + 1
        canonical = subst_poly(Poly({inner: Fraction(1)}), {bv.id: bvar(d, bv.sort)})
        at = Term("psum", (dom, d, canonical))
        res = padd(res, pmul(Poly({tuple(outer): c}), atom_poly(at)))
    return res


def _offsets(t, v, out):
    """constants c with v + c among the arguments of applications in t; None in out: another use of v"""
    if t.op == "app":
        for a in t.args[1:]:
            if isinstance(a, Term) and v.id in free_set(a):
                d = norm(a - v).const() if a.sort in ("R", "I") else None
                out.add(None if d is None or d.denominator != 1 else int(d))
    elif t is v:
        out.add(None)
    else:
        for a in t.args:
            if isinstance(a, Term):
                _offsets(a, v, out)
            elif isinstance(a, Poly):
                for m in a.d:
                    for b, e in m:
                        _offsets(b, v, out)
                        if isinstance(e, Poly):
                            _offsets(poly_to_term(e), v, out)


def _range_sums(p):
    return {a for m in p.d for a, e in m if a.op == "psum" and isinstance(a.args[0], tuple) and a.args[0][0] == "range"
            and a.args[0][1].op == "num" and a.args[0][1].args[0] == 0}


def same_ranges(x, y, valid):
    """x and y with their sums over consecutive periods written over the same ranges: the bodies shifted to start at offset
    zero, the ends moved to the smallest one, the terms in between written out.  `valid` proves the side conditions."""
    for _ in range(6):
        px, py = norm(x), norm(y)
        sums = _range_sums(px) | _range_sums(py)
        s = {}
        for a in sums:
            dom, d, body = a.args
            v, k = bvar(d, "I"), fresh("k", "I")
            out = set()
            _offsets(poly_to_term(body), v, out)
            if None in out or not out:
                continue
            c = min(out)
            if c and abs(c) <= 4 and valid(num(0) <= dom[2]) and (c > 0 or valid(num(-c) <= dom[2])):
                f = lambda i, b=body, v=v: poly_to_term(subst_poly(b, {v.id: lift(i)}))   # noqa: E731
                r = mk_sum(("range", num(0), canon(dom[2] + c)), k, f(k - c))
                if c > 0:
                    for j in range(c):
                        r = r - f(num(j - c))
                else:
                    continue
                s[a.id] = r
        if not s:
            groups = {}
            for a in sums:
                q = norm(a.args[0][2])
                c = q.d.get((), Fraction(0))
                groups.setdefault((Poly({m: w for m, w in q.d.items() if m}), a.args[1], a.args[2]), []).append((c, a))
            for (q, d, body), l in groups.items():
                lo = min(c for c, a in l)
                end = poly_to_term(padd(q, pconst(lo)))
                for c, a in l:
                    if c == lo or c - lo > 4 or not valid(num(0) <= end):
                        continue
                    k = fresh("k", "I")
                    v = bvar(d, "I")
                    f = lambda i, b=body, v=v: poly_to_term(subst_poly(b, {v.id: lift(i)}))   # noqa: E731
                    r = mk_sum(("range", num(0), canon(end)), k, f(k))
                    for j in range(int(c - lo)):
                        r = r + f(canon(end + j))
                    s[a.id] = r
        if not s:
            return x, y
        x, y = poly_to_term(subst_poly(px, s)), poly_to_term(subst_poly(py, s))
    return x, y


def sum_size(dom):
    if isinstance(dom, tuple) and dom[0] == "range":
        return norm(dom[2] - dom[1])
    return atom_poly(Term("app", (f"card:{dom}",)))


# ---- substitution on normal forms
def subst_poly(p, s):
    r = ZERO
    for m, c in p.d.items():
        q = pconst(c)
        for a, e in m:
            qa = subst_atom(a, s)
            qe = subst_poly(e, s) if isinstance(e, Poly) else pconst(e)
            q = pmul(q, ppow(qa, qe))
        r = padd(r, q)
    return r


def subst_atom(a, s):
    if a.id in s:
        v = s[a.id]
        return v if isinstance(v, Poly) else norm(v)
    if not a.args or not (free_set(a) & set(s)) and not any(True for k in s if _occurs(a, k)):
        return atom_poly(a)
    return norm(subst(a, s))


def _occurs(a, k):
    if a.id == k:
        return True
    for x in a.args:
        if isinstance(x, Term) and _occurs(x, k):
            return True
        if isinstance(x, Poly):
            for m in x.d:
                for b, e in m:
                    if _occurs(b, k):
                        return True
                    if isinstance(e, Poly) and any(_occurs(b2, k) for m2 in e.d for b2, _ in m2):
                        return True
        if isinstance(x, tuple) and any(isinstance(b, Term) and _occurs(b, k) for b in x):
            return True
    return False


def subst(t, s):
    """substitute terms (by id) in a raw or canonical term"""
    if t.id in s:
        v = s[t.id]
        return poly_to_term(v) if isinstance(v, Poly) else v
    if t.op in ("num", "var", "const", "true", "false", "zero", "cnum"):
        return t
    if t.op == "polyatom":
        return poly_to_term(subst_poly(t.args[0], s))
    if t.op == "psum":
        dom, d, p = t.args
        dom = tuple(subst(x, s) if isinstance(x, Term) else x for x in dom) if isinstance(dom, tuple) else dom
        # substituted values never contain #bv variables of this depth by construction: re-open with a fresh name
        srt = "Reg" if dom == "regions" else "I"
        f = fresh("b", srt)
        q = subst_poly(p, {bvar(d, srt).id: f})
        return mk_sum(dom, f, poly_to_term(subst_poly(q, s)))
    if t.op == "sum":
        dom, bv, body = t.args
        dom = tuple(subst(x, s) if isinstance(x, Term) else x for x in dom) if isinstance(dom, tuple) else dom
        return mk_sum(dom, bv, subst(body, {k: v for k, v in s.items() if k != bv.id}))
    args = tuple(subst(a, s) if isinstance(a, Term) else a for a in t.args)
    if t.op == "add":
        return mk_add(*args)
    if t.op == "mul":
        return mk_mul(*args)
    if t.op == "pow":
        return mk_pow(*args)
    if t.op == "app":
        return app(*args, sort=t.sort)
    if t.op == "fn":
        return fn(*args, sort=t.sort)
    if t.op in ("eq", "le", "lt"):
        return _rel(t.op, *args)
    if t.op == "not":
        return Not(args[0])
    if t.op == "and":
        return And(*args)
    if t.op == "or":
        return Or(*args)
    if t.op == "ite":
        return ite(*args)
    if t.op == "iff":
        return Iff(*args)
    return Term(t.op, args, t.sort)


def exp_term(e):
    return num(e) if isinstance(e, Fraction) else poly_to_term(e)


_p2t = {}


def poly_to_term(p):
    k = p.key()
    r = _p2t.get(k)
    if r is not None:
        return r
    acc = None
    for m in sorted(p.d, key=lambda m: (len(m), tuple((a.id, _ek(e)) for a, e in m))):
        c = p.d[m]
        f = None
        for a, e in m:
            x = a if (isinstance(e, Fraction) and e == 1) else Term("pow", (a, exp_term(e)))
            f = x if f is None else mk_mul(f, x)
        f = num(c) if f is None else (f if c == 1 else mk_mul(num(c), f))
        acc = f if acc is None else mk_add(acc, f)
    r = num(0) if acc is None else acc
    if r._norm is None:
        r._norm = p
    _p2t[k] = r
    return r


def const_value(t):
    return norm(t).const() if t.sort in ("R", "I") else None


# ---- relation normal form
def rel_poly(rel):
    """(kind, Poly) with rel <=> Poly kind 0"""
    if rel.op in ("eq", "le", "lt"):
        return rel.op, norm(rel.args[0] - rel.args[1])
    raise Unsupported(f"not a relation: {rel.op}")


def clear_denoms(p):
    """multiply out negative integer powers (they must be nonzero for the expression to be defined)"""
    mult = {}
    for m in p.d:
        for a, e in m:
            if isinstance(e, Fraction) and e < 0:
                mult[a] = min(mult.get(a, Fraction(0)), e)
    factors = []
    for a, e in mult.items():
        f = ppow(a.args[0], pconst(-e)) if a.op == "polyatom" and (-e).denominator == 1 else Poly(
            {((a, -e),): Fraction(1)})
        factors.append((a, -e))
        p2 = {}
        acc = ZERO
        for m, c in p.d.items():
            acc = padd(acc, pmul(Poly({m: c}), f if not any(x is a for x, _ in m) else Poly({((a, -e),): Fraction(1)})))
        p = acc
    return p, factors


def monic(p):
    """divide by leading coefficient and by the common monomial content"""
    if not p.d:
        return p, Fraction(0)
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: (min(e, dm[a]) if isinstance(e, Fraction) and isinstance(dm[a], Fraction)
                          else (e if e == dm[a] else None)) for a, e in common.items() if a in dm}
            common = {a: e for a, e in common.items() if e is not None}
    if common:
        inv = tuple(sorted(((a, _exp_mul(e, Fraction(-1))) for a, e in common.items()), key=lambda x: x[0].id))
        p = pmul(p, Poly({inv: Fraction(1)}))
    k = p.d[lead(p)]
    return Poly({m: c / k for m, c in p.d.items()}), k


def close(p, q, tol=1e-11):
    """equal up to floating constant folding"""
    if p == q:
        return True
    if set(p.d) != set(q.d):
        return False
    return all(abs(float(p.d[m] - q.d[m])) <= tol * max(1.0, abs(float(q.d[m]))) for m in p.d)


def numpi(p):
    """replace pi by its numeric value"""
    d = {}
    for m, c in p.d.items():
        k = c
        rest = []
        for a, e in m:
            if a is PI and isinstance(e, Fraction) and e.denominator == 1:
                k = k * Fraction(PI_F) ** int(e)
            else:
                rest.append((a, e))
        rest = tuple(rest)
        d[rest] = d.get(rest, 0) + k
    return Poly({m: c for m, c in d.items() if c != 0})


# ---- printing
def show(t, lim=400):
    s = _show(t)
    return s if len(s) <= lim else s[:lim] + "..."


def _show(t):
    op = t.op
    if op == "slit":
        return repr(t.args[0])
    if op == "num":
        f = t.args[0]
        return str(f) if f.denominator == 1 else f"{float(f):g}"
    if op in ("var", "const"):
        return str(t.args[0])
    if op == "app":
        if len(t.args) == 1:
            return str(t.args[0])
        return f"{t.args[0]}[{','.join(_show(a) if isinstance(a, Term) else str(a) for a in t.args[1:])}]"
    if op == "add":
        return "(" + " + ".join(_show(a) for a in t.args) + ")"
    if op == "mul":
        return "*".join(_show(a) for a in t.args)
    if op == "pow":
        return f"{_show(t.args[0])}^({_show(t.args[1])})"
    if op == "polyatom":
        return f"({show_poly(t.args[0])})"
    if op == "psum":
        return f"SUM_{t.args[0] if isinstance(t.args[0], str) else tuple(map(str, t.args[0]))}#{t.args[1]}({show_poly(t.args[2])})"
    if op == "sum":
        return f"SUM_{t.args[1]}({_show(t.args[2])})"
    if op == "fn":
        return f"{t.args[0]}({', '.join(_show(a) for a in t.args[1:])})"
    if op in ("eq", "le", "lt"):
        return f"{_show(t.args[0])} {dict(eq='==', le='<=', lt='<')[op]} {_show(t.args[1])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(_show(a) for a in t.args) + ")"
    if op == "not":
        return f"not({_show(t.args[0])})"
    return f"{op}({', '.join(_show(a) if isinstance(a, Term) else str(a) for a in t.args)})"


def show_poly(p):
    return _show(poly_to_term(p))


def shape(t):
    """hash of a term up to the numbering of fresh variables and the order of arguments"""
    if not isinstance(t, Term):
        return hash(t) if isinstance(t, (str, int, float, bool, Fraction, type(None))) else hash(type(t).__name__) if not isinstance(t, tuple) else hash(
            ("tuple", sum(map(shape, t))))
    if t._shape is not None:
        return t._shape
    st = [t]
    while st:
        x = st[-1]
        todo = [a for a in x.args if isinstance(a, Term) and a._shape is None]
        if todo:
            st += todo
            continue
        st.pop()
        if x.op == "var":
            x._shape = hash(("var", re.split("[!#]", str(x.args[0]))[0]))
        else:
            x._shape = hash((x.op, sum(shape(a) for a in x.args)))
    return t._shape
