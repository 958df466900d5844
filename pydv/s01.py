"""S01: contracts of simulation mode: pins, deactivation, switch.

The real MIMOSA.create_instance runs on the real models (abstract ones, components by the contract of pyomo's modelling layer) with
arbitrary supplied paths; what it adds to the model and what it deactivates is compared with what was asked."""
import itertools

from . import terms as T
from . import engine as E
from . import pyostub as P
from . import mcheck as M
from . import laws as L
from .contract import Suite
from . import ghostdata as G
from .symany import SymStr, Ghost, Base, sterm, slit, seq, any_eq
from .mcheck import t_, r_
from .terms import num, var, app, fn, And, Or, Not, Implies, TRUE, FALSE, Unsupported, lift, Term

MM = "mimosa.mimosa"
EPS = 1e-3


class PathDict(Base):
    """a path given inline: years -> regions -> values"""
    PY = dict

    def __init__(self, name):
        self.name = name
        self.src = (slit(name),)

    def __repr__(self):
        return f"path {self.name}"


def lab_(k):
    """label of a row as a term"""
    return sterm(k) if sterm(k) is not None else lift(k)


def has_row(src, k):
    return app("has row", *src, lab_(k), sort="B")


def row_of(src, k):
    return app("row of", *src, lab_(k), sort="I")


def n_years(src):
    return app("number of years", *src, sort="I")


def year(src, i):
    return app("supplied year", *src, i)


def supplied(src, j, i):
    return app("supplied", *src, j, i)


class RowKey(Base):
    PY = object

    def __init__(self, src, j):
        self.src, self.j = src, j

    def __subst__(self, s):
        return RowKey(self.src, T.subst(self.j, s))

    def lookup(self, k):
        if isinstance(k, Base) and sterm(k) is None:
            raise Unsupported("row of a path")
        if not T.decide(has_row(self.src, k)):
            raise KeyError(k)
        return row_of(self.src, k)


class YearIndex(Base):
    PY = object

    def __init__(self, src):
        self.src = src

    def astype(self, t):
        return self

    def to_numpy(self, **k):
        i = T.fresh("i", "I")
        return E.SymArr(("range", num(0), n_years(self.src)), i, year(self.src, i))

    @property
    def values(self):
        return self.to_numpy()

    def __vc_getitem__(self, k):
        if k == -1:
            return G_Label(year(self.src, n_years(self.src) - 1))
        if k == 0:
            return G_Label(year(self.src, num(0)))
        raise Unsupported("year label")


class G_Label(Base):
    PY = object

    def __init__(self, t):
        self.t = t

    def __vc_conv__(self, name):
        if name == "float":
            return self.t
        raise Unsupported(f"{name} of a label")


class Row(Base):
    PY = object

    def __init__(self, src, j):
        self.src, self.j = src, j
        self.index = YearIndex(src)

    def __subst__(self, s):
        return Row(self.src, T.subst(self.j, s))

    @property
    def values(self):
        i = T.fresh("i", "I")
        return E.SymArr(("range", num(0), n_years(self.src)), i, supplied(self.src, self.j, i))

    def to_numpy(self, **k):
        return self.values


class PathFrame(Base):
    """regions as rows, years as columns"""
    PY = object

    def __init__(self, src):
        self.src = src

    @property
    def columns(self):
        return YearIndex(self.src)

    def copy(self):
        return self

    def iterrows(self):
        b = T.fresh("j", "I")
        return E.SymIter(("range", num(0), app("number of rows", *self.src, sort="I")), b, (RowKey(self.src, b), Row(self.src, b)))


class CsvFrame(Base):
    """an output file: Variable, Region, Unit (perhaps), years"""
    PY = object

    def __init__(self, path, cond=None, dropped=(), index=None):
        self.path, self.cond, self.dropped, self.index_ = path, cond, dropped, index

    def __vc_getitem__(self, k):
        if isinstance(k, str) and k not in self.dropped and k != self.index_:
            return CsvCol(self, k)
        if isinstance(k, CsvCond) and self.cond is None and k.path is self.path and self.index_ is None:
            return CsvFrame(self.path, k.value, self.dropped).done()
        raise Unsupported("selection of an output file")

    @property
    def loc(self):
        return G.Getter(self.__vc_getitem__)

    def copy(self):
        return self

    def done(self):
        """the selected rows, labelled, with the years only: a table of paths"""
        if self.index_ is not None and self.cond is not None and set(self.dropped) == {"Variable", "Unit"}:
            return PathFrame((sterm(self.path), sterm(self.cond)))
        return self

    def drop(self, labels=None, columns=None, axis=None, errors="raise"):
        cs = columns if columns is not None else labels if axis in (1, "columns") else None
        cs = [cs] if isinstance(cs, str) else cs
        if cs is None or not all(isinstance(c, str) and c in ("Variable", "Unit") for c in cs) or errors != "ignore" and "Unit" in cs:
            raise Unsupported("dropped columns")
        return CsvFrame(self.path, self.cond, self.dropped + tuple(cs), self.index_).done()

    def set_index(self, k):
        if k != "Region" or self.index_ is not None:
            raise Unsupported("index of an output file")
        return CsvFrame(self.path, self.cond, self.dropped, k).done()


class CsvCol(Base):
    PY = object

    def __init__(self, frame, name):
        self.frame, self.name = frame, name

    def __eq__(self, o):
        if self.name != "Variable" or sterm(o) is None:
            raise Unsupported("comparison of a column")
        return CsvCond(self.frame.path, o)

    __hash__ = object.__hash__


class CsvCond(Base):
    PY = object

    def __init__(self, path, value):
        self.path, self.value = path, value


class Value0:
    """what the interpolant returns for a single year: an array of no dimension"""
    shape = ()
    ndim = 0
    __symbolic__ = True

    def __init__(self, t):
        self.t = t

    def __vc_conv__(self, name):
        if name == "float":
            return self.t
        raise Unsupported(name)

    def item(self):
        return self.t

    def __rsub__(self, o):
        return lift(o) - self.t

    def __sub__(self, o):
        return self.t - o

    def __add__(self, o):
        return self.t + o
    __radd__ = __add__

    def __len__(self):
        raise TypeError("len() of unsized object")


class Interp(Base):
    PY = object

    def __init__(self, name, args):
        self.name, self.args = name, args

    def __subst__(self, s):
        return Interp(self.name, [T.subst(a, s) for a in self.args])

    def __call__(self, x):
        if not isinstance(lift(x), Term):
            raise Unsupported("point of an interpolation")
        return Value0(app(self.name, *self.args, lift(x)))


def find(t, pred, out=None):
    """applications in a term"""
    out = [] if out is None else out
    if isinstance(t, Term):
        if t.op == "app" and pred(t.args[0]) and t not in out and not any(t is o for o in out):
            out.append(t)
        for a in t.args:
            find(a, pred, out)
    return out


def make_world(repo):
    st, log, pd = G.stubs()

    def interpolant(kind):
        def f(x, y, *a, **k):
            if a or set(k) - {"k", "ext"} or k.get("k", 3) not in (1, 2, 3, 4, 5):
                raise Unsupported("options of an interpolant")
            js = []
            for part in G.parts_of(y):
                for s in find(lift(part[2]), lambda n: n == "supplied"):
                    js.append(s.args[-2])
            if not js:
                raise Unsupported("points of an interpolant")
            return Interp(log.add(kind, x, y), [js[0]])
        return f
    st["scipy.interpolate"].InterpolatedUnivariateSpline = interpolant("spline")
    st["scipy.interpolate"].CubicSpline = interpolant("spline")

    def frame(d, *a, **k):
        if a or k or not isinstance(d, PathDict):
            raise Unsupported("use of DataFrame")
        return PathFrame(d.src)
    st["pandas"].DataFrame = frame

    def read_csv(path, **k):
        if k or sterm(path) is None:
            raise Unsupported("use of read_csv")
        return CsvFrame(path)
    st["pandas"].read_csv = read_csv

    old = P.model_stubs
    P.model_stubs = lambda: st
    try:
        w, params = M.make_world(repo)
    finally:
        P.model_stubs = old

    def extrapolate(values, years, extra, *a, **k):
        (part,) = G.parts_of(extra)
        i = T.fresh("i", "I")
        return G.Cat(G.parts_of(values) + [(part[0], i, app("extrapolated", i))])
    w.summaries["mimosa.common.data.utils.extrapolate"] = extrapolate
    w.scans = []
    return w, params, log


class Sim:
    """one real model in simulation mode"""

    def __init__(self, w, params, mods, simulation):
        self.w = w
        self.b = M.Built(w, mods, params)
        if self.b.error:
            raise Unsupported(f"model {mods}: {self.b.error[1]}")
        self.m = self.b.model
        self.before = {n: c for n, c in self.m._comps.items()}
        self.simulation = simulation

    def go(self):
        w, m = self.w, self.m
        for n in list(m._comps):
            if n not in self.before:
                del m._comps[n]
        for c in m._comps.values():
            if isinstance(c, P.SConstraint):
                c.active = True
        cls = w[MM].MIMOSA
        o = object.__new__(cls)
        o.params = {"simulation": self.simulation() if callable(self.simulation) else self.simulation,
                    "regions": {"A": {}, "B": {}}}
        o.regions = o.params["regions"]
        o.param_parser_tree, o.abstract_model = Ghost("tree"), Ghost("abstract model")
        r = o.create_instance()
        new = [c for n, c in m._comps.items() if n not in self.before and isinstance(c, P.SConstraint) and c.active]
        rules = []
        for c in new:
            kinds = c.kinds()
            idx = tuple(t_ if k == "t" else r_ if k == "regions" else None for k in kinds)
            if None in idx:
                raise Unsupported("index set of a pin")
            rules.append((kinds, c.rule(m, *idx)))
        off = sorted(n for n, c in m._comps.items() if isinstance(c, P.SConstraint) and not c.active)
        return r is m, rules, off


def summaries(w, model):
    nothing = lambda self, *a, **k: None      # noqa: E731

    def instantiated(self, *a, **k):
        self.concrete_model = model()
    w.summaries["mimosa.common.regional_params.main.RegionalParamStore.__init__"] = nothing
    w.summaries["mimosa.common.data.datastore.DataStore.__init__"] = nothing
    w.summaries["mimosa.concrete_model.instantiate_params.InstantiatedModel.__init__"] = instantiated


def settings(on, pins=None, off=None):
    return {"simulationmode": on, "constraint_variables": {} if pins is None else pins, "deactivated_constraints": [] if off is None else off,
            "custom_mapping": {}}


FACTS = [num(0) <= t_, t_ <= var("TF", "I"), num(1) <= var("TF", "I"), num(0) < var("DT")]
PATTERN = [Not(Term("contains", (SymStr(n).t, slit("*")), "B")) for n in ("file", "file2")]


def source(kind, v):
    """(what the user gives, its rows) for variable v"""
    if kind == "inline":
        d = PathDict("path of " + v)
        return d, d.src
    f = SymStr(kind)
    return f, (f.t, slit(v))


def pinned(model, rules, v, src, log):
    """the rules pin v to the path"""
    regional = len(model._comps[v].sets) == 2
    kinds = ("t", "regions") if regional else ("t",)
    label = r_ if regional else "Global"
    x = app(v, t_, r_) if regional else app(v, t_)
    yr = var("T0YEAR", "I") + t_ * var("DT")
    mine, out = [], []
    for ks, g in rules:
        if g is P.SConstraint.Skip:
            continue
        if isinstance(g, tuple) and len(g) == 3:
            g = And(*([lift(g[0]) <= lift(g[1])] if g[0] is not None else []), *([lift(g[1]) <= lift(g[2])] if g[2] is not None else []))
        g = T.B(g)
        if any(a.args[0] == v for a in find(g, lambda n: n in P.VAR_APPS)):
            mine.append((ks, g))
    out.append(("in every index", TRUE if mine and all(sorted(k) == sorted(kinds) for k, _ in mine) else FALSE))
    allg = And(*[g for _, g in mine])
    path = find(allg, lambda n: n.startswith("interpolant"))
    if not path:
        return out + [("by a path", FALSE)]
    row = row_of(src, label)
    for p in path:
        kind, xs, ys = log.items[int(p.args[0][len("interpolant"):])]
        px, py = G.parts_of(xs)[0], G.parts_of(ys)[0]
        s = find(lift(py[2]), lambda n: n == "supplied")[0].args[-2]
        i = var("anyyear", "I")
        rng = And(num(0) <= i, i < n_years(src))
        def at(part):
            return T.subst(lift(E.subst_any(lift(part[2]), {part[1].id: part[0][1] + i})), {s.id: p.args[1]}) if s.op == "var" else lift(
                E.subst_any(lift(part[2]), {part[1].id: part[0][1] + i}))
        out += [("of its own row", p.args[1] == row), ("in its own year", lift(p.args[2]) == yr),
                ("through every supplied year", And(px[0][2] - px[0][1] == n_years(src), Implies(rng, at(px) == year(src, i)))),
                ("through every supplied value", And(py[0][2] - py[0][1] == n_years(src), Implies(rng, at(py) == supplied(src, row, i))))]
    p = path[0]
    tol = num(EPS) + num(1e-9)
    out.append(("to within 0.001", Implies(allg, And(x - p <= tol, p - x <= tol))))
    sub = T.subst(allg, {x.id: p}) if x.op == "app" else allg
    out.append(("the path itself is allowed", Implies(And(*[q == p for q in path], x == p), allg)))
    return out


def run(repo=None):
    w, params, log = make_world(repo)
    s = Suite("S01", w)
    combos = pick()
    seen = set()
    for mods in combos:
        s.section(model, w, params, log, mods, seen)
    s.section(switch, w, params, combos[0])
    w.summaries.clear()
    return s


def pick():
    """module combinations that between them contain every component"""
    out, seen = [], set()
    for mods in L.all_mods():
        ks = {(n, k) for n, k in enumerate(mods.key())}
        if not ks <= seen:
            out.append(mods)
            seen |= ks
    return out


def model(s, w, params, log, mods, seen):
    sim = Sim(w, params, mods, None)
    summaries(w, lambda: sim.m)
    m = sim.m
    tag = " ".join(mods.key())
    vs = [n for n, c in sim.before.items() if isinstance(c, P.SVar) and c.kinds() in (("t", "regions"), ("t",))]
    cons = [n for n, c in sim.before.items() if isinstance(c, P.SConstraint)]
    s.add(f"{tag}: variables are there to pin", "discharged" if vs and cons else "open", "cover", kind="cover")
    for v in vs:
        if v in seen:
            continue
        first = not any(x in seen for x in vs)
        seen.add(v)
        for kind in ("inline", "file") if first else (("inline", "file")[len(seen) % 2],):
            given, src = source(kind, v)
            missing = Not(has_row(src, r_ if len(m._comps[v].sets) == 2 else "Global"))

            def thunk():
                log.reset()
                sim.simulation = settings(True, {v: given})
                return sim.go() + (list(log.items),)

            def post(p):
                if p.kind == "raise":
                    return [("raises only for a region without a path", missing)]
                same, rules, off, items = p.value
                log.items[:] = items
                return [("same model", TRUE if same else FALSE), ("nothing deactivated", TRUE if not off else FALSE)] + [
                    (f"pinned {a}", b) for a, b in pinned(m, rules, v, src, log)]
            s.case(f"{v} by {kind}", thunk, post, FACTS + PATTERN + [n_years(src) >= 4], want=("return",))
    if "two" not in seen:
        two(s, w, sim, log, vs, tag)
        seen.add("two")
    # every constraint is in one of these lists and outside the other; neighbours are in different ones
    for k in (0, 1, 2):
        part = cons[k::3]
        listed(s, sim, [n[len("constraint_"):] for n in part], sorted(part))
    if cons:
        a, b = cons[0], cons[-1]
        listed(s, sim, [a[11:], b[11:]], sorted({a, b}))
        listed(s, sim, [b[11:], a[11:], b[11:]], sorted({a, b}))
        for bad in ([SymStr("unknown constraint")] if False else ["no such constraint"]):
            s.case(f"{tag}: deactivate {bad}", lambda: [setattr(sim, "simulation", settings(True, None, [a[11:], bad])), sim.go()][1],
                   lambda p: TRUE if p.kind == "raise" else FALSE, FACTS, want=("raise",))
            s.case(f"{tag}: pin {bad}", lambda: [setattr(sim, "simulation", settings(True, {bad: PathDict("d")})), sim.go()][1],
                   lambda p: TRUE if p.kind == "raise" else FALSE, FACTS, want=("raise",))


def listed(s, sim, names, want):
    def thunk():
        sim.simulation = settings(True, None, list(names))
        return sim.go()

    def post(p):
        if p.kind == "raise":
            return FALSE
        same, rules, off = p.value
        return [("exactly these", TRUE if off == want else FALSE), ("nothing pinned", TRUE if not rules else FALSE), ("same model", TRUE if same else FALSE)]
    s.case(f"deactivate {names}", thunk, post, FACTS)


def two(s, w, sim, log, vs, tag):
    """several variables, from one file, two files and inline"""
    m = sim.m
    regional = [v for v in vs if len(m._comps[v].sets) == 2]
    glob = [v for v in vs if len(m._comps[v].sets) == 1]
    pairs = [(a, b) for a, b in ((regional[0], regional[-1]), (glob[0], glob[-1]), (regional[1 % len(regional)], glob[0])) if a != b] if regional and glob else []
    for a, b in pairs:
        for ka, kb in (("file", "file"), ("file", "file2"), ("inline", "file"), ("inline", "inline")):
            (ga, sa), (gb, sb) = source(ka, a), source(kb, b)
            ok = [has_row(src, r_ if len(m._comps[v].sets) == 2 else "Global") for v, src in ((a, sa), (b, sb))]

            def thunk():
                log.reset()
                sim.simulation = settings(True, {a: ga, b: gb})
                return sim.go() + (list(log.items),)

            def post(p):
                if p.kind == "raise":
                    return [("raises only for a region without a path", Not(And(*ok)))]
                same, rules, off, items = p.value
                log.items[:] = items
                return [(f"{v} pinned {x}", y) for v, src in ((a, sa), (b, sb)) for x, y in pinned(m, rules, v, src, log)]
            s.case(f"{tag}: {a} by {ka} and {b} by {kb}", thunk, post, FACTS + PATTERN + [n_years(sa) >= 4, n_years(sb) >= 4])


def switch(s, w, params, mods):
    """without simulation mode nothing is pinned or deactivated"""
    sim = Sim(w, params, mods, None)
    summaries(w, lambda: sim.m)
    vs = [n for n, c in sim.before.items() if isinstance(c, P.SVar)]
    cons = [n[11:] for n, c in sim.before.items() if isinstance(c, P.SConstraint)]
    for what, st in (("switched off", settings(False, {vs[0]: PathDict("p"), "nothing": PathDict("q")}, [cons[0], "nothing"])),
                     ("switched off, nothing else set", settings(False)), ("no simulation settings", None)):
        def thunk():
            sim.simulation = st
            return sim.go()

        def post(p):
            if p.kind == "raise":
                return FALSE
            same, rules, off = p.value
            return [("nothing deactivated", TRUE if not off else FALSE), ("nothing pinned", TRUE if not rules else FALSE),
                    ("same model", TRUE if same else FALSE)]
        s.case(what, thunk, post, FACTS, want=("return",))
    def on():
        sim.simulation = settings(var("simulationmode", "B") if False else True)
        return sim.go()
    s.case("switched on, nothing listed", on, lambda p: FALSE if p.kind == "raise" else [
        ("nothing deactivated", TRUE if not p.value[2] else FALSE), ("nothing pinned", TRUE if not p.value[1] else FALSE)], FACTS, want=("return",))
