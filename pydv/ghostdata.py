"""Assumed contracts of the libraries that read and interpolate the input files: a file is an uninterpreted function of its path; rows
are selected by equality of columns; interpolants are recorded with the points they go through."""
import os as real_os
from . import terms as T
from . import engine as E
from . import pyostub as P
from .engine import SymIter, SymArr, subst_any
from .loops import Segment
from .boxes import raw
from .symany import SymStr, Base, Ghost, sterm, slit
from .terms import num, var, app, And, TRUE, FALSE, Unsupported, lift, Term


def os_stub():
    def join(a, *parts):
        if not any(isinstance(x, SymStr) for x in (a, *parts)):
            return real_os.path.join(a, *parts)
        out = [a]
        for p in parts:
            if isinstance(p, str) and p.startswith("/"):
                out = [p]
                continue
            if isinstance(out[-1], str) and out[-1].endswith("/"):
                out.append(p)
            else:
                out += ["/", p]
        return SymStr.concat(out)

    def passthrough(f):
        def g(x, *a):
            return x if isinstance(x, SymStr) else f(x, *a)
        return g
    path = P.Namespace("os.path")
    path.__dict__.update({k: v for k, v in vars(real_os.path).items() if not k.startswith("__")})
    path.join = join
    for n in ("abspath", "normpath", "realpath"):
        setattr(path, n, passthrough(getattr(real_os.path, n)))

    def part_of(name):
        """a part of a path: a function of the path, from which the path cannot be told"""
        def g(x):
            if not isinstance(x, SymStr):
                return getattr(real_os.path, name)(x)
            return SymStr(app(f"path_{name}", x.t, sort="S"))
        return g
    for n in ("basename", "dirname", "normcase", "expanduser"):
        setattr(path, n, part_of(n))
    path.split = lambda x: (path.dirname(x), path.basename(x)) if isinstance(x, SymStr) else real_os.path.split(x)
    ns = P.Namespace("os")
    ns.__dict__.update({k: v for k, v in vars(real_os).items() if not k.startswith("__")})
    ns.path = path
    return ns


class Frame(Base):
    """a table read from a file; column names in lower case once the code has lowered them"""
    PY = object

    def __init__(self, path, lowered=False):
        self.path, self.lowered = path, lowered

    def __repr__(self):
        return f"table {self.path!r}"

    @property
    def columns(self):
        return Columns(self)

    @columns.setter
    def columns(self, v):
        if isinstance(v, Lowered) and v.frame is self:
            self.lowered = True
            return
        raise Unsupported("new column names")

    def col(self, k):
        if not isinstance(k, str):
            raise Unsupported("column")
        name = k.lower()
        if (k != name) == self.lowered and name in ("model", "scenario", "region", "variable", "unit"):
            raise Unsupported(f"column {k} of a table {'with' if self.lowered else 'without'} lowered names")
        return name

    def __vc_getitem__(self, k):
        if isinstance(k, Cond):
            return self.select(k)
        return Column(self, self.col(k))

    def select(self, c):
        if not isinstance(c, Cond) or c.frame is not self:
            raise Unsupported("selection of rows")
        return Selection(self, c.parts)

    @property
    def loc(self):
        return Getter(self.select)


class Getter:
    __symbolic__ = True

    def __init__(self, f):
        self.f = f

    def __vc_getitem__(self, k):
        return self.f(k)


class Columns(Base):
    PY = object

    def __init__(self, frame):
        self.frame = frame

    @property
    def str(self):
        fr = self.frame

        class S:
            def lower(self):
                return Lowered(fr)
        return S()


class Lowered(Base):
    PY = object

    def __init__(self, frame):
        self.frame = frame


class Column(Base):
    PY = object

    def __init__(self, frame, name):
        self.frame, self.name = frame, name

    def __eq__(self, o):
        if sterm(o) is None:
            raise Unsupported("comparison of a column")
        return Cond(self.frame, ((self.name, sterm(o)),))

    def __hash__(self):
        return id(self)


class Cond(Base):
    PY = object

    def __init__(self, frame, parts):
        self.frame, self.parts = frame, tuple(sorted(parts, key=lambda p: p[0]))

    def __and__(self, o):
        if not isinstance(o, Cond) or o.frame is not self.frame:
            raise Unsupported("conjunction of selections")
        return Cond(self.frame, self.parts + o.parts)


def about(name, path, parts, *more, sort="R"):
    args = [sterm(path)]
    for c, v in parts:
        args += [slit(c), v]
    return app(name, *args, *more, sort=sort)


class Selection(Base):
    PY = object

    def __init__(self, frame, parts):
        self.frame, self.parts = frame, parts

    def rows(self):
        return about("rows", self.frame.path, self.parts, sort="I")

    def __vc_len__(self):
        return self.rows()

    @property
    def shape(self):
        return (self.rows(), num(5))

    @property
    def empty(self):
        return self.rows() == 0

    @property
    def loc(self):
        def f(k):
            if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None, None, None) and k[1] == slice("2010", None, None):
                return YearCols(self)
            if isinstance(k, Cond):
                return self.select(k)
            raise Unsupported(f"selection of columns {k}")
        return Getter(f)

    def select(self, c):
        """rows of the rows"""
        if c.frame is not self:
            raise Unsupported("selection by a condition on another table")
        return Selection(self.frame, Cond(self.frame, self.parts + c.parts).parts)

    @property
    def iloc(self):
        def f(k):
            if k == 0:
                return Row(self)
            raise Unsupported(f"row {k}")
        return Getter(f)

    def __vc_getitem__(self, k):
        if isinstance(k, Cond):
            return self.select(k)
        return Column(self, self.frame.col(k))


class Row(Base):
    PY = object

    def __init__(self, sel):
        self.sel = sel

    def __vc_getitem__(self, k):
        if k == "unit":
            return SymStr(about("unit", self.sel.frame.path, self.sel.parts, sort="S"))
        raise Unsupported(f"{k} of a row")


def nyears(path):
    return app("nyears", sterm(path), sort="I")


def year_at(path, i):
    return app("year", sterm(path), i)


class YearCols(Base):
    PY = object

    def __init__(self, sel):
        self.sel = sel

    @property
    def columns(self):
        return Labels(self.sel)

    @property
    def values(self):
        def f(k):
            if k != 0:
                raise Unsupported("row of the values")
            i = T.fresh("i", "I")
            return SymArr(("range", num(0), nyears(self.sel.frame.path)), i, about("value", self.sel.frame.path, self.sel.parts, i))
        return Getter(f)

    def to_numpy(self):
        return self.values


class Labels(Base):
    PY = object

    def __init__(self, sel):
        self.sel = sel

    @property
    def values(self):
        return self

    def to_numpy(self):
        return self

    def astype(self, t):
        p = self.sel.frame.path
        i = T.fresh("i", "I")
        if t not in (float, "float") and getattr(t, "__name__", "") not in ("float", "float64"):
            if getattr(t, "py", None) is not float:
                raise Unsupported("type of the years")
        return SymArr(("range", num(0), nyears(p)), i, year_at(p, i))


# ------------------------------------------------------------------------------------------------- interpolation
class Cat(Base):
    """concatenation of arrays: parts (domain, bv, elem)"""
    PY = object

    def __init__(self, parts):
        self.parts = parts


def parts_of(x):
    if isinstance(x, Cat):
        return list(x.parts)
    if isinstance(x, SymIter):
        if x.conds:
            raise Unsupported("filtered array")
        return [(x.domain, x.bv, x.elem)]
    if isinstance(x, list) and all(isinstance(y, Segment) and not y.conds for y in raw(x)):
        return [(y.domain, y.bv, y.elem) for y in raw(x)]
    raise Unsupported(f"parts of an array {type(x).__name__}")


class Log:
    def __init__(self):
        self.items = []

    def reset(self):
        self.items.clear()

    def add(self, kind, x, y):
        self.items.append((kind, x, y))
        return f"interpolant{len(self.items) - 1}"


class Interpolant(Base):
    PY = object

    def __init__(self, name):
        self.name = name

    def __call__(self, x):
        if isinstance(x, SymIter):
            return SymArr(x.domain, x.bv, app(self.name, lift(x.elem)), x.conds)
        if isinstance(lift(x), Term):
            return app(self.name, lift(x))
        raise Unsupported("point of an interpolation")


def interpolation(log):
    """(interp1d, CubicSpline, InterpolatedUnivariateSpline, np.interp)"""
    def interp1d(x, y, kind="linear", **k):
        if set(k) - {"bounds_error", "assume_sorted", "copy"}:
            raise Unsupported("options of interp1d")
        if not isinstance(kind, str):
            kind = {1: "linear", 3: "cubic"}.get(kind, kind)
        return Interpolant(log.add(kind, x, y))

    def cubic(x, y, *a, **k):
        if a or k and k not in ({"bc_type": "not-a-knot"},):
            raise Unsupported("options of a spline")
        return Interpolant(log.add("cubic", x, y))

    def iu(x, y, *a, **k):
        if a or set(k) - {"k"} or k.get("k", 3) != 3:
            raise Unsupported("options of a spline")
        return Interpolant(log.add("cubic", x, y))

    def interp(x, xp, fp, **k):
        if k:
            raise Unsupported("options of interp")
        return Interpolant(log.add("linear", xp, fp))(x)
    return interp1d, cubic, iu, interp


class Pandas:
    """read_csv keeps the path it was given"""

    def __init__(self):
        self.read = []

    def read_csv(self, path, **k):
        if k:
            raise Unsupported("options of read_csv")
        if sterm(path) is None:
            raise Unsupported("path of read_csv")
        self.read.append(path)
        return Frame(path)


def stubs(repo=None):
    s = P.model_stubs()
    log = Log()
    i1, cs, iu, npi = interpolation(log)
    s["scipy.interpolate"].interp1d, s["scipy.interpolate"].CubicSpline, s["scipy.interpolate"].InterpolatedUnivariateSpline = i1, cs, iu
    s["scipy"].interpolate = s["scipy.interpolate"]
    np = s["numpy"]
    np.interp = npi

    def arange(a, b=None, step=1, **k):
        if k:
            raise Unsupported("options of arange")
        if b is None:
            a, b = 0, a
        a, b, step = lift(a), lift(b), lift(step)
        i = T.fresh("k", "I")
        return SymArr(("range", num(0), T.canon(T.fn("ceil", (b - a) / step))), i, a + i * step)
    np.arange = arange

    def concatenate(xs, *a, **k):
        if a or k:
            raise Unsupported("options of concatenate")
        return Cat([p for x in xs for p in parts_of(x)])
    np.concatenate = np.hstack = concatenate
    np.append = lambda a, b: concatenate([a, b])
    s["os"] = os_stub()
    pd = Pandas()
    s["pandas"].read_csv = pd.read_csv
    return s, log, pd


def fold(name, real):
    """max / min of several numbers as a term"""
    def f(*a, **k):
        if len(a) > 1 and not k and any(isinstance(x, Term) for x in a):
            r = lift(a[0])
            for x in a[1:]:
                r = T.fn(name, r, lift(x))
            return r
        return real(*a, **k)
    return f


def reset_state(mod, snap):
    """mutable module and class attributes as they are after import"""
    import copy
    holders = [vars(mod)] + [vars(c) for c in vars(mod).values() if isinstance(c, type) and c.__module__ == mod.__name__]
    if "taken" not in snap:
        snap["taken"] = ({}, {})
        for n, h in enumerate(holders):
            for k, v in h.items():
                if isinstance(v, (dict, list, set)) and not k.startswith("__"):
                    snap[n, k] = (v, copy.copy(v))
        return
    for v, old in snap.values():
        v.clear()
        v.update(old) if isinstance(v, (dict, set)) else v.extend(old)
