"""meaning of unit texts, independent of pint"""
import re
from fractions import Fraction


def units_of(text, aliases=()):
    """unit expression -> (factor, {unit: exponent}); aliases: name -> text"""
    toks = re.findall(r"\*\*|\d+\.?\d*(?:[eE][+-]?\d+)?|[^\W\d]\w*|[()*/^]|\S", text)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def mul(a, b, s=1):
        u = dict(a[1])
        for k, e in b[1].items():
            u[k] = u.get(k, 0) + s * e
        return (a[0] * b[0] ** s, {k: e for k, e in u.items() if e})

    def factor():
        t = take() if peek() is not None else None
        if t == "(":
            r = product()
            if peek() != ")":
                raise ValueError(text)
            take()
        elif t is not None and re.match(r"\d", t):
            r = (Fraction(t), {})
        elif t is not None and re.match(r"[^\W\d]\w*$", t):
            if t in aliases:
                r = units_of(aliases[t], aliases)
            elif t == "year":
                r = (Fraction(1), {"yr": 1})
            elif t == "dimensionless":
                r = (Fraction(1), {})
            else:
                r = (Fraction(1), {t: 1})
        else:
            raise ValueError(text)
        if peek() in ("**", "^"):
            take()
            s = 1
            if peek() == "-":
                take()
                s = -1
            e = take() if peek() is not None else ""
            if not re.match(r"\d+$", e):
                raise ValueError(text)
            r = (r[0] ** (s * int(e)), {k: x * s * int(e) for k, x in r[1].items()})
        return r

    def product():
        r = factor()
        while peek() is not None and peek() != ")":
            if peek() in ("*", "/"):
                s = 1 if take() == "*" else -1
                r = mul(r, factor(), s)
            else:
                r = mul(r, factor())
        return r
    if not toks:
        return (Fraction(1), {})
    r = product()
    if peek() is not None:
        raise ValueError(text)
    return r


def bracketed(x):
    """x is one factor: a bracketed expression or one name"""
    if re.match(r"[^\W\d]\w*$", x):
        return True
    if not (x.startswith("(") and x.endswith(")")):
        return False
    d = 0
    for n, c in enumerate(x):
        d += (c == "(") - (c == ")")
        if d == 0 and n < len(x) - 1:
            return False
    return d == 0
