"""C04: contracts of the quantity conversion.

Quantity.__call__: for a text or a value with a unit, pint gets exactly that quantity (documented spellings aside) and is asked for
the magnitude in a unit that means the requested one; its errors pass through; only a literal false is switched off.
_parse_default_units: an alias stands for its configured unit, as a factor in brackets, whatever surrounds it.  unit(): the same.
The meaning of unit texts is decided by an independent parser of unit expressions; pint itself is behind its assumed contract."""
import re

import yaml
import os

from . import terms as T
from . import engine as E
from . import mcheck as M
from . import pyostub as P
from .contract import Suite
from .unitexpr import units_of, bracketed
from .c01 import make_world, same_value, Pint
from .symany import SymStr, SymObj, SymList, Ghost, Base, slit, seq, sterm, tostr
from .terms import num, var, app, And, Or, Not, TRUE, FALSE, Unsupported

UN = "mimosa.common.units"


# ---------------------------------------------------------------- ghost pint
class PQ(Base):
    """a pint quantity: value times unit text, or a text; converted: with its target"""
    PY = object

    def __init__(self, reg, src, target=None):
        self.reg, self.src, self.target = reg, src, target

    def __repr__(self):
        return f"quantity{self.src}->{self.target}"

    def to(self, unit):
        if self.target is not None:
            raise Unsupported("converted twice")
        if isinstance(unit, PU):
            unit = unit.text
        if sterm(unit) is None:
            raise Unsupported("target unit")
        if T.decide(var("incompatible", "B")):
            raise Pint.DimensionalityError("Cannot convert")
        return PQ(self.reg, self.src, unit)

    def m_as(self, unit):
        return self.to(unit).magnitude

    @property
    def magnitude(self):
        if self.target is None:
            raise Unsupported("magnitude in its own unit")
        return Mag(self.src, self.target)
    m = magnitude


class Mag(Base):
    PY = float

    def __init__(self, src, target):
        self.src, self.target = src, target

    def __repr__(self):
        return f"magnitude of {self.src} in {self.target}"


class PU(Base):
    PY = object

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return f"unit {self.text}"


class Registry(Base):
    PY = object

    def Quantity(self, *a, **k):
        if k or len(a) not in (1, 2):
            raise Unsupported("arguments of pint.Quantity")
        if len(a) == 2 and isinstance(a[1], PU):
            a = (a[0], a[1].text)
        if T.decide(var("undefined", "B")):
            raise Pint.UndefinedUnitError("not defined")
        return PQ(self, a)

    def __call__(self, text):
        return self.Quantity(text)

    parse_expression = __call__

    def Unit(self, text):
        return PU(text)

    parse_units = Unit


class Container(Base):
    PY = object

    def __init__(self):
        self.pint_registry = Registry()

    def load_definitions_from_file(self, f):
        return None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return PU(n)


def run(repo=None):
    w = make_world(repo)
    cont = Container()
    w.stubs["pyomo.environ"].units = cont
    s = Suite("C04", w)
    with open(os.path.join(w.repo, "mimosa/inputdata/config/default_units.yaml"), encoding="utf8") as f:
        aliases = {str(k): str(v) for k, v in yaml.safe_load(f).items()}
    SymStr.ABSENT = set(aliases) | {"year", "US$", "t CO2"}
    try:
        s.section(alias, w, aliases)
        s.section(calls, w, aliases)
        s.section(unit, w, aliases)
    finally:
        SymStr.ABSENT = set()
    return s


def plain(x):
    """SymStr with its arbitrary parts printed as marked names"""
    t = sterm(x)
    if t is None:
        raise Unsupported("unit text")
    ps = t.args if t.op == "concat" else (t,)
    out = ""
    for p in ps:
        out += p.args[0] if p.op == "slit" else "\u27e6" + str(p) + "\u27e7"
    return out


def means(got, pre, name, suf, aliases, whole=None):
    """got is pre + X + suf with X one factor that means alias `name`"""
    g = plain(got)
    a, b = plain(pre), plain(suf)
    if not (g.startswith(a) and g.endswith(b) and len(g) >= len(a) + len(b)):
        return None
    x = g[len(a):len(g) - len(b)] if b else g[len(a):]
    try:
        if not bracketed(x):
            return False
        return units_of(x) == units_of(name, aliases)
    except ValueError:
        return False


def cat(*xs):
    return SymStr.concat([x for x in xs if not (isinstance(x, str) and x == "")] or [""])


def verdict(r):
    if r is None:
        raise Unsupported("shape of the expanded unit")
    return TRUE if r else FALSE


def contexts():
    a, b = SymStr("before"), SymStr("behind")
    for ln, l in (("", ""), ("x*", cat(a, "*")), ("x/", cat(a, "/")), ("x (", cat(a, " (")), ("(", "("), ("x * (", cat(a, " * ("))):
        for rn, r in (("", ""), ("*y", cat("*", b)), ("/y", cat("/", b)), (")y", cat(")", b)), ("**2", "**2"), (")", ")"), (" y", cat(" ", b)),
                      ("**2 / y", cat("**2 / ", b))):
            yield f"{ln}.{rn}", l, r


def alias(s, w, aliases):
    q = w[UN].Quantity()
    s.add("every alias has a configured unit", "discharged" if aliases else "failed", "nf")
    if hasattr(q, "_parse_default_units"):
        f = q._parse_default_units
    else:
        def f(x):
            r = q.unit(x, pyomo=False)
            return r.text
    for name in aliases:
        for cn, l, r in contexts():
            s.case(f"alias {name} in {cn}", lambda: f(cat(l, name, r)),
                   lambda p: verdict(means(p.value, l, name, r, aliases)) if p.kind == "return" else FALSE)
        # two aliases in one unit, in any order, with anything around and between
        x, y, z = SymStr("before"), SymStr("between"), SymStr("behind")
        for other in aliases:
            for sep in ("*", "/"):
                def post(p, other=other, sep=sep):
                    if p.kind != "return":
                        return FALSE
                    g = plain(p.value)
                    m = re.fullmatch(re.escape(plain(x)) + r"\*(.*)" + re.escape(sep + plain(y) + sep) + r"(.*)/" + re.escape(plain(z)), g)
                    if not m:
                        raise Unsupported("shape of the expanded unit")
                    try:
                        return TRUE if all(bracketed(t) and units_of(t) == units_of(n, aliases)
                                           for t, n in ((m.group(1), name), (m.group(2), other))) else FALSE
                    except ValueError:
                        return FALSE
                s.case(f"aliases {name} and {other} with {sep}", lambda: f(cat(x, "*", name, sep, y, sep, other, "/", z)), post)
            for text in (f"{name}/{other}", f"{name}*{other}", f"({name}) / ({other})", f"1/{name}/{other}", f"{name}/{other}**2",
                         f"{name} / ({other} * yr)", f"{other}/year/{name}", f"2 {name} {other}"):
                def post2(p, text=text):
                    try:
                        return TRUE if p.kind == "return" and units_of(p.value) == units_of(text, aliases) else FALSE
                    except ValueError:
                        return FALSE
                s.case(f"compound unit {text}", lambda: f(text), post2)
    x = SymStr("text")
    s.case("units without aliases stay", lambda: f(x), lambda p: same_value(p.value, x) if p.kind == "return" else FALSE)
    for text in ("year", "USD2005/year", "m/year**2", "1/year", "yr", "kg*year"):
        s.case(f"unit {text}", lambda: f(text), lambda p: TRUE if p.kind == "return" and units_of(p.value) == units_of(text) else FALSE)


def spelled(parts):
    """documented spellings of the currency and of tonnes of CO2"""
    return cat(*[p.replace("US$", "USD").replace("t CO2", "tCO2") if isinstance(p, str) else p for p in parts])


def calls(s, w, aliases):
    q = w[UN].Quantity()
    u, t, n = SymStr("unit text"), SymStr("target"), SymStr("number")
    sources = [("an arbitrary text", [SymStr("quantity")]), ("number and unit", [n, " ", u]), ("dollars", [n, " US$", SymStr("year"), "/", u]),
               ("tonnes", [n, " t CO2/", u]), ("mega tonnes", [n, " Mt CO2/yr"]), ("dollars per tonne", [n, " US$2005/t CO2"]),
               ("plain text", ["20 MtCO2/year"])]
    targets = [("an arbitrary unit", [t]), ("dollars", ["US$2005/", t]), ("tonnes", [t, "/t CO2"])]
    U, I = var("undefined", "B"), var("incompatible", "B")

    def outcome(p, want_src, want_tgt, magnitude=True):
        if p.kind == "raise":
            if isinstance(p.value, Pint.UndefinedUnitError):
                return U
            if isinstance(p.value, Pint.DimensionalityError):
                return And(Not(U), I)
            return FALSE
        v = p.value
        if not isinstance(v, Mag if magnitude else PQ):
            return FALSE
        if len(v.src) != len(want_src):
            raise Unsupported("how the quantity is made")
        cs = [Not(U), Not(I)]
        for a, b in zip(v.src, want_src):
            cs.append(same_value(a, b) if not isinstance(b, Base) or isinstance(b, SymStr) else (TRUE if a is b else FALSE))
        cs.append(want_tgt(v.target))
        return And(*cs)

    def tgt_is(parts):
        return lambda got: same_value(got, spelled(parts)) if got is not None else FALSE

    def tgt_alias(name):
        def f(got):
            try:
                return TRUE if units_of(plain(got)) == units_of(name, aliases) else FALSE
            except ValueError:
                return FALSE
        return f
    tg = [(tn, cat(*tp), tgt_is(tp)) for tn, tp in targets] + [(a, a, tgt_alias(a)) for a in aliases] + [
        ("compound", "currency_unit/emissionsrate_unit", tgt_alias("currency_unit/emissionsrate_unit"))]
    both = ("return", "raise")
    for tn, target, okt in tg:
        for sn, sp in sources:
            text = cat(*sp)
            for cbf in (True, False):
                s.case(f"{sn} to {tn}{'' if cbf else ', not switchable'}", lambda: q(text, target, can_be_false=cbf),
                       lambda p: outcome(p, (spelled(sp),), okt), want=both)
            s.case(f"{sn} to {tn}, with its unit", lambda: q(text, target, only_magnitude=False),
                   lambda p: outcome(p, (spelled(sp),), okt, False), want=both)
        for vn, v in (("an integer", var("n", "I")), ("a number", var("x", "R"))):
            s.case(f"{vn} to {tn}", lambda: q(v, target), lambda p: outcome(p, (tostr(v),), okt), want=both)
        for vn, v in (("an integer", var("n", "I")), ("a number", var("x", "R")), ("an array", SymObj("array")), ("a list", SymList("L")),
                      ("zero", 0), ("one half", 0.5)):
            for un, up in (("an arbitrary unit", [u]), ("dollars", ["US$2010/", u]), ("tonnes", ["Mt CO2"])):
                s.case(f"{vn} of {un} to {tn}", lambda: q(v, cat(*up), target), lambda p: outcome(p, (v, spelled(up)), okt), want=both)
                s.case(f"{vn} of {un} to {tn}, with its unit", lambda: q(v, cat(*up), target, only_magnitude=False),
                       lambda p: outcome(p, (v, spelled(up)), okt, False), want=both)
    # switched off
    for args in ((False, t), (False, u, t)):
        s.case(f"off with {len(args)} arguments", lambda: q(*args), lambda p: TRUE if p.kind == "return" and p.value is False else FALSE)
        s.case(f"off with {len(args)} arguments and its unit", lambda: q(*args, only_magnitude=False),
               lambda p: TRUE if p.kind == "return" and p.value is False else FALSE)
    s.case("a value that cannot be off is not off", lambda: q(False, t, can_be_false=False),
           lambda p: FALSE if p.kind == "return" and p.value is False else TRUE)
    for a in ((), (t,), (t, t, t, t)):
        s.case(f"{len(a)} arguments", lambda: q(*a), lambda p: TRUE if p.kind == "raise" else FALSE)


def unit(s, w, aliases):
    q = w[UN].Quantity()
    texts = list(aliases) + ["emissionsrate_unit/currency_unit", "currency_unit/emissions_unit", "emissionsrate_unit / currency_unit",
                             "currency_unit / emissionsrate_unit", "fraction_of_GDP", "m", "billion people", "dimensionless", "degC_above_PI"]
    for text in texts:
        for k in ({}, {"pyomo": False}):
            def post(p, text=text):
                if p.kind != "return":
                    return FALSE
                if not isinstance(p.value, PU):
                    raise Unsupported("unit object")
                try:
                    return TRUE if units_of(p.value.text) == units_of(text, aliases) else FALSE
                except ValueError:
                    return FALSE
            s.case(f"unit({text}{', pyomo=False' if k else ''})", lambda: q.unit(text, **k), post)
