"""Assumed contract of pyomo's modelling layer, as far as mimosa uses it (trusted, see DESIGN.md A4).

A symbolic model: `m.x[t, r]` is the term x[t,r]; parameters are the terms of their declared source
(`cfg[...]` configuration value, `reg[...]` regional table, `data[...]` scenario data); Constraint/Var/Param/Objective
record their arguments; rules are executed later at a symbolic period and region.
"""
import inspect

from . import terms as T
from .terms import Term, Unsupported, lift, num, app, var, fn, Not, And
from .engine import SymIter, SymArr, Opaque, subst_any

VAR_APPS = set()          # names of decision variables (a relation over them has no truth value)


class PyomoError(Exception):
    pass


class Ops:
    """arithmetic through __term__"""

    def _t(self):
        return self.__term__()

    def __add__(self, o): return self._t() + _u(o)
    def __radd__(self, o): return _u(o) + self._t()
    def __sub__(self, o): return self._t() - _u(o)
    def __rsub__(self, o): return _u(o) - self._t()
    def __mul__(self, o): return self._t() * _u(o)
    def __rmul__(self, o): return _u(o) * self._t()
    def __truediv__(self, o): return self._t() / _u(o)
    def __rtruediv__(self, o): return _u(o) / self._t()
    def __floordiv__(self, o): return self._t() // _u(o)
    def __pow__(self, o): return self._t() ** _u(o)
    def __rpow__(self, o): return _u(o) ** self._t()
    def __neg__(self): return -self._t()
    def __pos__(self): return self._t()
    def __abs__(self): return abs(self._t())
    def __lt__(self, o): return self._t() < _u(o)
    def __le__(self, o): return self._t() <= _u(o)
    def __gt__(self, o): return self._t() > _u(o)
    def __ge__(self, o): return self._t() >= _u(o)
    def __eq__(self, o): return self._t() == _u(o)
    def __ne__(self, o): return self._t() != _u(o)
    __hash__ = object.__hash__


def _u(x):
    t = lift(x)
    if t is NotImplemented:
        raise TypeError(f"unsupported operand {type(x).__name__}")
    return t


# ------------------------------------------------------------------ values of scalar parameters
class OptVal(Ops):
    """value of a numeric parameter that can be switched off: False or a number"""
    __symbolic__ = True

    def __init__(self, path):
        self.path = path
        self.off = T.app(f"off[{path}]", sort="B")
        self.val = var(f"cfg[{path}]")

    def __term__(self):
        if T.decide(self.off):
            return num(0)
        return self.val

    def __vc_is__(self, o):
        if o is False:
            return self.off
        if o is True or o is None:
            return False
        return o is self

    def __bool__(self):
        if T.decide(self.off):
            return False
        return T.decide(Not(self.val == num(0)))

    def __eq__(self, o):
        if o is False and not isinstance(o, Term):
            # False == 0 in Python
            if T.decide(self.off):
                return True
            return self.val == num(0)
        if isinstance(o, str) or o is None:
            return False
        return self._t() == _u(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r) if isinstance(r, Term) else not r

    __hash__ = object.__hash__

    def __vc_conv__(self, name):
        if name == "float":
            return self.__term__()
        if name == "bool":
            return bool(self)
        raise Unsupported(f"{name}() of an optional parameter")

    def __vc_isinstance__(self, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        if T.decide(self.off):
            return any(c in (bool, int, object) for c in cs)
        return any(c in (float, object) for c in cs)


class EnumVal:
    """value of a text/option parameter: an unknown string"""
    __symbolic__ = True

    def __init__(self, path, options=None):
        self.path, self.options = path, options

    def __eq__(self, o):
        if isinstance(o, str):
            if self.options is not None and o not in self.options:
                return False
            cur = T._decider[0]
            return T.app(f"is[{self.path}={o}]", sort="B")
        if o is self:
            return True
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r) if isinstance(r, Term) else not r

    __hash__ = object.__hash__

    def __vc_is__(self, o):
        if o in (False, True, None):
            return False
        raise Unsupported("identity of strings")

    def __bool__(self):
        return True


class AnyVal(Ops):
    """value of a regional parameter of any type (text or number)"""
    __symbolic__ = True

    def __init__(self, name, r):
        self.name, self.r = name, r

    def __term__(self):
        return app(self.name, self.r)

    FORMS = {"Linear": "Robust-Linear", "Quadratic": "Robust-Quadratic", "Logistic": "OLS-Logistic"}

    def __vc_text__(self):
        """the text of a functional form, one of those of the data that are shipped (anything but `in` needs to know it)"""
        if not self.name.rstrip("]").endswith("_form"):
            raise Unsupported("text of a regional value")
        for k in list(self.FORMS)[:-1]:
            if T.decide(app(f"contains[{k}]", app(self.name, self.r), sort="B")):
                return self.FORMS[k]
        return self.FORMS["Logistic"]

    def __vc_contains__(self, x):
        if isinstance(x, str):
            if x in self.FORMS:
                return app(f"contains[{x}]", app(self.name, self.r), sort="B")
            return x in self.__vc_text__()
        raise Unsupported("containment in a regional text")

    def __vc_strmeth__(self, meth, *a, **k):
        return getattr(self.__vc_text__(), meth)(*a, **k)

    def __getattr__(self, name):
        if name.startswith("_") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.__vc_text__(), name)

    def __getitem__(self, k):
        return self.__vc_text__()[k]

    def __len__(self):
        return len(self.__vc_text__())

    def __eq__(self, o):
        if isinstance(o, str):
            if self.name.rstrip("]").endswith("_form"):
                return self.__vc_text__() == o
            return app(f"equals[{o}]", app(self.name, self.r), sort="B")
        return Ops.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r) if isinstance(r, Term) else not r

    __hash__ = object.__hash__

    def __subst__(self, s):
        return AnyVal(self.name, T.subst(self.r, s) if isinstance(self.r, Term) else self.r)


# ------------------------------------------------------------------ components
class SSet:
    __symbolic__ = True
    __sym_iter_flag__ = True

    def __init__(self, *a, **k):
        self.name, self.m, self.args, self.kw = None, None, a, k
        self.__sym_iter_ok = True

    @property
    def __sym_iter__(self):
        return self._iter

    def _iter(self):
        if self.name == "regions":
            b = T.fresh("r", "Reg")
            return SymIter("regions", b, b)
        if self.name == "t":
            b = T.fresh("t", "I")
            return SymIter(("range", num(0), T.canon(var("TF", "I") + 1)), b, b)
        raise Unsupported(f"iteration over set {self.name}")

    def __iter__(self):
        raise Unsupported("native iteration over a model set")

    def __vc_len__(self):
        return self._iter().length()

    def first(self):
        if self.name == "t":
            return num(0)
        raise Unsupported("first of a set")

    def last(self):
        if self.name == "t":
            return var("TF", "I")
        raise Unsupported("last of a set")

    def _shift(self, t, k):
        if self.name != "t":
            raise Unsupported("neighbour in a set")
        t = T.canon(lift(t) + k)
        if not T.decide(And(t >= num(0), t <= var("TF", "I"))):
            raise IndexError("Cannot advance past the end of the Set")
        return t

    def prev(self, t, k=1):
        return self._shift(t, -k)

    def next(self, t, k=1):
        return self._shift(t, k)

    def ord(self, t):
        if self.name != "t":
            raise Unsupported("position in a set")
        return T.canon(lift(t) + 1)

    def at(self, i):
        if self.name != "t" or not isinstance(i, int):
            raise Unsupported("position in a set")
        return self._shift(num(i - 1), 0) if i > 0 else self._shift(var("TF", "I"), i + 1)

    __vc_getitem__ = at

    @property
    def local_name(self):
        return self.name

    def __getattr__(self, n):
        if n.startswith("__") or n in ("name", "m"):
            raise AttributeError(n)
        raise Unsupported(f"Set.{n}")

    def __vc_contains__(self, x):
        if self.name == "t":
            return And(lift(x) >= num(0), lift(x) <= var("TF", "I"))
        if self.name == "regions" and isinstance(x, Term) and x.sort == "Reg":
            return True      # terms of this sort range over the regions of the model
        raise Unsupported("set membership")


class Component:
    __symbolic__ = True

    def __init__(self, *sets, **kw):
        self.sets, self.kw = sets, kw
        self.name = None
        self.m = None
        self.doc = kw.get("doc")

    def indexed(self):
        return len(self.sets) > 0

    def kinds(self):
        return tuple(s.name for s in self.sets if isinstance(s, SSet)) if all(
            isinstance(s, SSet) for s in self.sets) else None

    def index(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        kinds = self.kinds()
        if kinds is None:
            raise Unsupported(f"index set of {self.name}")
        if len(ks) != len(kinds):
            raise KeyError(f"Index {k} is not valid for indexed component '{self.name}'")
        out = []
        for kind, i in zip(kinds, ks):
            i = lift(i)
            if i is NotImplemented or not isinstance(i, Term):
                raise KeyError(f"Index {k} is not valid for indexed component '{self.name}'")
            if kind == "t":
                if i.sort == "Reg":
                    raise KeyError(f"Index {k} is not valid for indexed component '{self.name}'")
                i = T.canon(i)
                if not T.decide(And(i >= num(0), i <= var("TF", "I"))):
                    raise KeyError(f"Index {k} is not valid for indexed component '{self.name}'")
                if i.sort != "I" and T.const_value(i) is None:
                    raise Unsupported("non-integer period index")
            elif kind == "regions":
                if i.sort != "Reg":
                    raise KeyError(f"Index {k} is not valid for indexed component '{self.name}'")
            else:
                raise Unsupported(f"index set {kind}")
            out.append(i)
        return tuple(out)

    def touch(self):
        if self.m is not None:
            self.m.touched.add((self.name, self.signature()))

    def signature(self):
        return (type(self).__name__, self.kinds())

    # pyomo API used by mimosa
    def index_set(self):
        return self

    @property
    def dimen(self):
        return len(self.sets)

    def subsets(self):
        return list(self.sets)

    @property
    def local_name(self):
        return self.name

    def __iter__(self):
        raise Unsupported(f"iteration over {self.name}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{type(self).__name__}.{n}")


class SVar(Component, Ops):
    def __vc_getitem__(self, k):
        idx = self.index(k)
        self.touch()
        VAR_APPS.add(self.name)
        return app(self.name, *idx)

    __getitem__ = __vc_getitem__

    def __term__(self):
        if self.sets:
            raise TypeError("Implicit conversion of Pyomo indexed var to a number")
        self.touch()
        VAR_APPS.add(self.name)
        return app(self.name)

    def fix(self, *a):
        raise Unsupported("Var.fix")

    __eq__ = Ops.__eq__
    __hash__ = object.__hash__


_kept = {}          # objects known by identity stay alive


class SParam(Component, Ops):
    def const(self):
        i = self.kw.get("initialize", self.kw.get("default"))
        if self.source() is None and isinstance(i, (int, float)) and not isinstance(i, bool):
            return i
        return None

    def source(self):
        d = self.doc
        if d is None:
            return None
        if callable(d):
            d = d(self.m.template_params)
        d = str(d)
        return d if "::" in d and d.split("::")[0] in ("", "regional", "timeandregional") else None

    def signature(self):
        i = self.kw.get("initialize", self.kw.get("default"))
        return ("SParam", self.kinds(), self.source(), i if isinstance(i, (int, float)) else (
            "term", id(_kept.setdefault(id(i), i))) if i is not None else None)

    # scalar
    def scalar(self):
        """value object of a scalar parameter"""
        self.touch()
        if self.sets:
            raise TypeError(f"value of indexed parameter {self.name}")
        src = self.source()
        if src is not None and src.startswith("::"):
            return self.m.cfg(src[2:])
        if self.name == "beginyear":
            return var("T0YEAR", "I")
        if self.name == "dt":
            return var("DT")
        if self.name == "tf":
            return var("TF", "I")
        if self.name == "year2100":
            MODEL_ENV["year2100"] = True
            return app("YEAR2100", sort="I")
        c = self.const()
        if c is not None:
            return num(c)
        i = self.kw.get("initialize")
        if i is None:
            raise ValueError(f"No value for uninitialized parameter {self.name}")
        if self.name in MODEL_ENV.get("opaque_params", ()):
            return app(self.name)
        return self.unfold()

    @property
    def value(self):
        """value of a scalar parameter"""
        if self.sets:
            raise Unsupported("value of an indexed parameter")
        return self.scalar()

    def __term__(self):
        v = self.scalar()
        if isinstance(v, EnumVal):
            raise TypeError("non-numeric parameter in arithmetic")
        return lift(v)

    def __vc_is__(self, o):
        return o is self

    def __eq__(self, o):
        if self.sets:
            return self is o
        v = self.scalar()
        if isinstance(v, EnumVal):
            raise Unsupported("comparison of a pyomo parameter reference with a text")
        return Ops.__eq__(self, o)

    __hash__ = object.__hash__

    def __bool__(self):
        if self.sets:
            return True
        if self.kw.get("mutable"):
            raise PyomoError(f"Cannot convert non-constant Pyomo numeric value ({self.name}) to bool.")
        return bool(self.scalar())

    # indexed
    def __vc_getitem__(self, k):
        if k is None and not self.sets:
            return self.scalar()
        idx = self.index(k)
        self.touch()
        src = self.source()
        if src is not None:
            kind, name = src.split("::", 1)
            if kind == "timeandregional":
                if self.kinds() != ("t", "regions"):
                    raise Unsupported(f"index sets of {self.name}")
                return app(f"data[{name}]", *idx)
            if kind == "regional":
                if self.kinds() != ("regions",):
                    raise Unsupported(f"index sets of {self.name}")
                if "within" in self.kw:
                    return AnyVal(f"reg[{name}]", idx[0])
                return app(f"reg[{name}]", *idx)
            raise Unsupported(f"indexed parameter with a scalar source {self.name}")
        c = self.const()
        if c is not None:
            return num(c)
        i = self.kw.get("initialize")
        if i is None:
            raise ValueError(f"Error retrieving immutable Param value: {self.name}")
        if self.name in MODEL_ENV.get("opaque_params", ()):
            return app(self.name, *idx)
        return self.unfold(*idx)

    __getitem__ = __vc_getitem__

    def unfold(self, *idx):
        """value of a derived parameter, by its definition"""
        if self.name in self.m.unfolding:
            raise Unsupported(f"recursive definition of {self.name}")
        self.m.unfolding.add(self.name)
        try:
            r = self.definition(*idx)
        finally:
            self.m.unfolding.discard(self.name)
        t = lift(r)
        if not isinstance(t, Term):
            raise Unsupported(f"value of parameter {self.name}")
        return t

    def definition(self, *idx):
        """the value the initialise rule gives (definitional equation)"""
        i = self.kw.get("initialize")
        if callable(i):
            from .purity import pure
            return pure(lambda: i(self.m, *idx), i)
        return i


class SConstraint(Component):
    class _Skip:
        def __repr__(self):
            return "Constraint.Skip"
    Skip = _Skip()
    NoConstraint = Skip
    Feasible = _Skip()
    Infeasible = _Skip()

    def __init__(self, *sets, **kw):
        Component.__init__(self, *sets, **kw)
        self.active = True
        self.rule = kw.get("rule", kw.get("expr"))

    def deactivate(self):
        self.active = False


class SObjective(Component):
    def __init__(self, *sets, **kw):
        Component.__init__(self, *sets, **kw)
        self.rule = kw.get("rule", kw.get("expr"))
        self.sense = kw.get("sense", "minimize")


class SExpression(Component):
    def __vc_getitem__(self, k):
        idx = self.index(k)
        r = self.kw.get("rule", self.kw.get("initialize", self.kw.get("expr")))
        return r(self.m, *idx) if callable(r) else r

    __getitem__ = __vc_getitem__


class SModel:
    def __init__(self, *a, **k):
        d = self.__dict__
        d["_comps"] = {}
        d["_plain"] = {}
        d["replaced"] = []
        d["touched"] = set()
        d["unfolding"] = set()
        d["template"] = MODEL_ENV.get("template")
        d["template_params"] = MODEL_ENV.get("params")
        d["created"] = []
        MODEL_ENV.setdefault("models", []).append(self)

    def cfg(self, path):
        node = self.template
        try:
            for k in path.split("."):
                node = node[k]
        except (KeyError, TypeError):
            raise KeyError(path)
        ty = node.get("type") if isinstance(node, dict) else None
        if ty is None:
            raise KeyError(path)
        if ty == "bool":
            return T.app(f"flag[{path}]", sort="B")
        if ty in ("enum", "str", "filepath"):
            return EnumVal(path, node.get("values"))
        if ty in ("float", "int", "quantity"):
            if node.get("can_be_false"):
                return OptVal(path)
            return var(f"cfg[{path}]")
        raise Unsupported(f"parameter type {ty}")

    def __setattr__(self, name, v):
        if isinstance(v, (Component, SSet)):
            if "on_set" in MODEL_ENV:
                MODEL_ENV["on_set"](name, v)
            if name in self._comps:
                self.replaced.append(name)
            v.name, v.m = name, self
            self._comps[name] = v
        else:
            if name in self._comps and name != "year":
                raise Unsupported(f"assignment to component {name}")
            if isinstance(v, Opaque):
                raise Unsupported(f"component {name} of unknown type")
            self._plain[name] = v

    def __getattr__(self, name):
        d = self.__dict__
        if name in d["_comps"]:
            return d["_comps"][name]
        if name in d["_plain"]:
            return d["_plain"][name]
        if name.startswith("__") or name not in pyomo_attrs():
            raise AttributeError(f"'Model' object has no attribute '{name}'")
        raise Unsupported(f"Model.{name}")

    def add_component(self, name, comp):
        if name in self._comps or name in self._plain:
            raise RuntimeError(f"Cannot add component '{name}': a component of that name already exists")
        setattr(self, name, comp)

    def component_objects(self, ctype=None, **k):
        if ctype is None:
            return list(self._comps.values())
        cls = getattr(ctype, "__wraps__", ctype)
        return [c for c in self._comps.values() if isinstance(c, cls)]

    def component(self, name):
        return self._comps.get(name)


MODEL_ENV = {}
_attrs = None


def pyomo_attrs():
    """names of pyomo's own model attributes (those without a contract here are outside the verifier's reach)"""
    global _attrs
    if _attrs is None:
        import os
        with open(os.path.join(os.path.dirname(__file__), "pyomo_attrs.txt")) as f:
            _attrs = set(f.read().split())
    return _attrs


# ------------------------------------------------------------------ functions
def p_value(x, exception=True):
    if isinstance(x, SParam):
        return x.scalar()
    if isinstance(x, (SVar,)):
        return x.__term__()
    return x


def p_exp(x):
    return fn("exp", _u(x))


def p_log(x):
    return fn("log", _u(x))


def p_fn(name):
    def f(x):
        return fn(name, _u(x))
    return f


def n_fn(name, real):
    """numpy function on numbers, terms and symbolic arrays"""
    def f(x, *a, **k):
        if isinstance(x, SymIter):
            return SymArr(x.domain, x.bv, fn(name, _u(x.elem)), x.conds)
        t = lift(x)
        if isinstance(t, Term):
            return fn(name, t)
        return real(x, *a, **k)
    return f


class Namespace:
    def __init__(self, name, **k):
        self.__name__ = name
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(("module", self.__name__, n))


def trapz(y, x=None, dx=1.0):
    """numpy.trapz / trapezoid: sum over consecutive points"""
    if isinstance(y, SymIter) or isinstance(x, SymIter):
        if not isinstance(y, SymIter) or (x is not None and not isinstance(x, SymIter)):
            raise Unsupported("trapz of mixed sequences")
        if y.conds or not isinstance(y.domain, tuple):
            raise Unsupported("trapz over an unordered collection")
        if x is not None and x.domain != y.domain:
            raise Unsupported("trapz over different ranges")
        _, lo, hi = y.domain
        b = T.fresh("k", "I")
        y0, y1 = subst_any(lift(y.elem), {y.bv.id: b}), subst_any(lift(y.elem), {y.bv.id: b + 1})
        if x is not None:
            x0, x1 = subst_any(lift(x.elem), {x.bv.id: b}), subst_any(lift(x.elem), {x.bv.id: b + 1})
            d = x1 - x0
        else:
            d = lift(dx)
        return T.mk_sum(("range", lo, T.canon(hi - 1)), b, d * (y0 + y1) / 2)
    y = list(y)
    x = list(x) if x is not None else [i * dx for i in range(len(y))]
    r = num(0)
    for i in range(len(y) - 1):
        r = r + (lift(x[i + 1]) - lift(x[i])) * (lift(y[i]) + lift(y[i + 1])) / 2
    return r


def np_array(x, *a, **k):
    if isinstance(x, SymIter):
        return SymArr(x.domain, x.bv, x.elem, x.conds)
    if isinstance(x, (list, tuple, range)) and all(isinstance(y, (Term, int, float)) for y in x):
        return ConcArr(x)
    import numpy
    return numpy.array(x, *a, **k)


class ConcArr(list):
    """array with a concrete number of symbolic elements"""

    def _m(self, o, f):
        if isinstance(o, (list, tuple)):
            return ConcArr(f(lift(a), lift(b)) for a, b in zip(self, o))
        return ConcArr(f(lift(a), _u(o)) for a in self)

    def __pow__(self, o): return self._m(o, lambda a, b: a ** b)
    def __neg__(self): return ConcArr(-lift(a) for a in self)

    def __add__(self, o): return self._m(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._m(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._m(o, lambda a, b: b - a)
    def __mul__(self, o): return self._m(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._m(o, lambda a, b: a / b)


def np_arange(real):
    def f(a, b=None, step=1, *r, **k):
        if b is None:
            a, b = 0, a
        if not any(isinstance(x, Term) for x in (a, b, step)):
            return real(a, b, step, *r, **k)
        a, b, step = lift(a), lift(b), lift(step)
        i = T.fresh("k", "I")
        n = fn("ceil", (b - a) / step)
        return SymArr(("range", num(0), T.canon(n)), i, a + i * step)
    return f


def numpy_stub():
    import numpy as real
    def np_sum(x, *a, **k):
        if isinstance(x, SymIter):
            return T.mk_sum(x.domain, x.bv, lift(x.elem))
        if isinstance(x, (list, tuple)) and any(isinstance(y, Term) for y in x):
            r = num(0)
            for y in x:
                r = r + y
            return r
        return real.sum(x, *a, **k)

    def two(name, real_f):
        def f(a, b):
            if isinstance(a, Term) or isinstance(b, Term):
                return fn(name, _u(a), _u(b))
            return real_f(a, b)
        return f

    def np_round(x, decimals=0):
        if isinstance(x, Term):
            return x.__round__(decimals or None)
        if isinstance(x, SymIter):
            return SymArr(x.domain, x.bv, np_round(_u(x.elem), decimals), x.conds)
        return real.round(x, decimals)

    return Namespace("numpy", round=np_round, around=np_round, rint=np_round, arange=np_arange(real.arange), pi=real.pi, e=real.e, inf=real.inf, nan=real.nan, trapz=trapz, trapezoid=trapz,
                     array=np_array, asarray=np_array, arctan=n_fn("atan", real.arctan), exp=n_fn("exp", real.exp),
                     log=n_fn("log", real.log), log2=log_base(real.log2, 2), log10=log_base(real.log10, 10), ceil=n_fn("ceil", real.ceil), floor=n_fn("floor", real.floor),
                     sqrt=n_fn("sqrt", real.sqrt), abs=n_fn("abs", real.abs), tanh=n_fn("tanh", real.tanh), sum=np_sum,
                     maximum=two("max", real.maximum), minimum=two("min", real.minimum),
                     ndarray=real.ndarray, float64=real.float64)


def log_base(real, base):
    def f(x, *a):
        b = a[0] if a else base
        t, u = lift(x), lift(b) if b is not None else None
        if isinstance(x, SymIter):
            return SymArr(x.domain, x.bv, f(_u(x.elem), *a), x.conds)
        if isinstance(t, Term) and (t.op != "num" or isinstance(u, Term) and u.op != "num" or isinstance(x, Term)):
            r = fn("log", t)
            return r if u is None else r / fn("log", u)
        return real(x, *a)
    return f


def to_int(name, real):
    def f(x):
        t = lift(x)
        return fn(name, t, sort="I") if isinstance(t, Term) and not (isinstance(x, (int, float))) else real(x)
    return f


def math_pow(a, b):
    import math
    x, y = lift(a), lift(b)
    return x ** y if isinstance(x, Term) and isinstance(y, Term) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))) else math.pow(a, b)


def math_stub():
    import math
    return Namespace("math", pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, exp=n_fn("exp", math.exp), tau=math.tau,
                     log=log_base(math.log, None), log2=log_base(math.log2, 2), log10=log_base(math.log10, 10), pow=math_pow,
                     atan=n_fn("atan", math.atan), ceil=to_int("ceil", math.ceil), trunc=to_int("trunc", math.trunc),
                     floor=to_int("floor", math.floor), sqrt=n_fn("sqrt", math.sqrt), tanh=n_fn("tanh", math.tanh),
                     isnan=math.isnan, isclose=math.isclose, isfinite=math.isfinite, fabs=n_fn("abs", math.fabs))


class OpaqueDict(dict):
    pass


def pyomo_env():
    e = Namespace("pyomo.environ")
    units = Opaque(("module", "pyomo.environ", "units"))
    e.__dict__.update(AbstractModel=SModel, ConcreteModel=SModel, Set=SSet, Param=SParam, Var=SVar,
                      Constraint=SConstraint, Objective=SObjective, Expression=SExpression, value=p_value,
                      exp=p_exp, log=p_log, sqrt=p_fn("sqrt"), tanh=p_fn("tanh"), atan=p_fn("atan"),
                      maximize="maximize", minimize="minimize", NonNegativeReals="NonNegativeReals",
                      PositiveReals="PositiveReals", Reals="Reals", Any="Any", Boolean="Boolean", Binary="Binary",
                      NonPositiveReals="NonPositiveReals", NegativeReals="NegativeReals",
                      TransformationFactory=Opaque(("TransformationFactory",)), SolverFactory=Opaque(("SolverFactory",)),
                      SolverManagerFactory=Opaque(("SolverManagerFactory",)), SolverStatus=Opaque(("SolverStatus",)),
                      units=units, inequality=inequality, quicksum=quicksum)
    return e


def quicksum(args, start=0, linear=None):
    if isinstance(args, SymIter):
        return T.mk_sum(args.domain, args.bv, T.ite(And(*args.conds), lift(args.elem), num(0)) if args.conds
                        else lift(args.elem)) + start
    r = start
    for a in args:
        r = r + a
    return r


def truth_guard(c):
    """a relation over decision variables has no truth value in pyomo"""
    if has_var(c):
        raise PyomoError("Cannot convert non-constant Pyomo expression to bool")


_hv = {}


def has_var(t):
    if not isinstance(t, Term):
        return False
    r = _hv.get(t.id)
    if r is None:
        r = _hv[t.id] = t.op == "app" and t.args[0] in VAR_APPS or any(has_var(a) for a in t.args)
    return r


def inequality(lower=None, body=None, upper=None, strict=False):
    return (lower, body, upper)


def model_stubs():
    import yaml
    env = pyomo_env()
    uc = Namespace("pyomo.core.base.units_container")

    class PintUnitExtractionVisitor:
        unary_function_method_map = {}

        def _get_unit_for_single_child(self, *a):
            pass
    uc.PintUnitExtractionVisitor = PintUnitExtractionVisitor
    pyo = Namespace("pyomo", environ=env)
    stubs = {"pyomo": pyo, "pyomo.environ": env, "pyomo.core.base.units_container": uc,
             "pyomo.opt.base.solvers": Namespace("pyomo.opt.base.solvers"), "numpy": numpy_stub(), "math": math_stub(),
             "yaml": yaml, "os": __import__("os"), "json": __import__("json"),
             "pint": Namespace("pint"), "pandas": Namespace("pandas"), "scipy": Namespace("scipy"),
             "scipy.interpolate": Namespace("scipy.interpolate")}
    return stubs
