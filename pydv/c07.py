"""C07: contracts of the scenario data: selection, cache, conversion, extrapolation, interpolation.

The real DataStore runs on arbitrary files (uninterpreted tables), selections and units; a second store is built after a first one, so
that whatever the first one leaves behind meets an arbitrary second request (the entries are written once, and only from the writer's
own request, so one arbitrary writer before one arbitrary reader covers every history)."""
import os

from . import terms as T
from . import engine as E
from . import pyostub as P
from . import mcheck as M
from .contract import Suite
from .inst import HORIZON, START, END, DT
from . import ghostdata as G
from .symany import SymStr, SymDict, Ghost, sterm, slit, seq
from .terms import num, var, app, fn, And, Or, Not, Implies, TRUE, FALSE, Unsupported, lift, Term

DS = "mimosa.common.data.datastore"
UT = "mimosa.common.data.utils"


class Info:
    """an arbitrary declared data source"""

    def __init__(self, tag, unit=True):
        self.f = {k: SymStr(f"{k}{tag}") for k in ("file", "model", "scenario", "variable")}
        if unit:
            self.f["unit"] = SymStr(f"unit{tag}")

    def dict(self):
        return dict(self.f)


def region(tag, hashed):
    base = SymStr(f"region{tag}")
    r = SymStr.concat([base, "#"]) if hashed else base
    facts = [] if hashed else [Not(Term("suffixof", (slit("#"), base.t), "B")), Not(seq(base.t, slit("")))]
    return r, base, facts


class Own:
    """what the file says about a request"""

    def __init__(self, info, base, repo):
        self.path = SymStr.concat([prefix(repo), info.f["file"]])
        self.parts = tuple(sorted([("model", info.f["model"].t), ("scenario", info.f["scenario"].t), ("variable", info.f["variable"].t),
                                   ("region", base.t)], key=lambda p: p[0]))
        self.rows = G.about("rows", self.path, self.parts, sort="I")
        self.n = G.nyears(self.path)
        self.unit = SymStr(G.about("unit", self.path, self.parts, sort="S"))
        self.target = info.f.get("unit")

    def year(self, i):
        return G.year_at(self.path, i)

    def value(self, i):
        v = G.about("value", self.path, self.parts, i)
        return v * app("ratio", self.unit.t, self.target.t) if self.target is not None else v

    def facts(self):
        i = var("anyyear", "I")
        return [self.n >= 4, self.year(self.n - 1) == 2100, self.year(self.n - 2) < 2100, self.rows >= 0]


def prefix(repo):
    return os.path.join(repo, "mimosa", "common", "data") + "/../../"


class Converted:
    def __init__(self, magnitude, units):
        self.magnitude, self.m, self.units, self.u = magnitude, magnitude, units, units


def make_world(repo):
    P.VAR_APPS.clear()
    P._hv.clear()
    E.Explorer.guard = None
    st, log, pd = G.stubs()
    w = E.World(st, repo)
    w.loop_specs, w.loop_proofs, w.scans = [], [], []
    w.builtins["max"], w.builtins["min"] = G.fold("max", max), G.fold("min", min)

    def quant(self, *a, **k):
        only = k.pop("only_magnitude", True)
        k.pop("can_be_false", None)
        if k or len(a) != 3 or not isinstance(a[0], E.SymIter) or sterm(a[1]) is None or sterm(a[2]) is None:
            raise Unsupported("use of quant")
        r = app("ratio", sterm(a[1]), sterm(a[2]))
        m = E.SymArr(a[0].domain, a[0].bv, a[0].elem * r, a[0].conds)
        return m if only is True else Converted(m, Ghost("unit", sterm(a[2])))
    w.summaries["mimosa.common.units.Quantity.__call__"] = quant
    w.snap = {}
    G.reset_state(w[DS], w.snap)
    return w, log, pd


def params(infos, regions):
    return {"time": {"start": START, "end": END, "dt": DT}, "input": {"variables": {k: v.dict() for k, v in infos.items()}},
            "regions": regions, "SSP": SymStr("SSP")}


def run(repo=None):
    w, log, pd = make_world(repo)
    s = Suite("C07", w)
    s.artefact = (TypeError,)
    s.section(growth, w)
    for hashed in (False, True):
        s.section(single, w, log, hashed)
    s.section(two_runs, w, log)
    s.section(every_region, w)
    w.summaries.clear()
    return s


# ------------------------------------------------------------------------------------------------- extrapolation
def growth(s, w):
    """extrapolate: the points of the file, then points whose growth per year fades"""
    n, m = var("n", "I"), var("m", "I")
    Y, V, X = (lambda i: app("Y", lift(i))), (lambda i: app("V", lift(i))), (lambda i: app("X", lift(i)))
    arr = lambda f, k: (lambda i: E.SymArr(("range", num(0), k), i, f(i)))(T.fresh("i", "I"))     # noqa: E731
    hyps = [n >= 2, m >= 1, Y(n - 1) - Y(n - 2) > 0]

    def thunk():
        w.scans.clear()
        r = w[UT].extrapolate(arr(V, n), arr(Y, n), arr(X, m), ["x", "r"])
        return r, list(w.scans)

    def post(p):
        if p.kind != "return":
            return FALSE
        r, scans = p.value
        ps = G.parts_of(r)
        if len(ps) != 2:
            raise Unsupported("parts of the extrapolated values")
        return [(f"file part: {a}", b) for a, b in same_part(ps[0], n, V)] + fades(ps[1], scans, m, X, Y(n - 1), V(n - 1), (V(n - 1) - V(n - 2)) / (Y(n - 1) - Y(n - 2)))
    s.case("extrapolation", thunk, post, hyps, want=("return",))


def same_part(part, n, f):
    dom, bv, elem = part
    if not (isinstance(dom, tuple) and dom[0] == "range"):
        raise Unsupported("domain of an array")
    i = var("anyelement", "I")
    return [("length", dom[2] - dom[1] == n), ("elements", Implies(And(num(0) <= i, i < n), at(part, i) == f(i)))]


def at(part, i):
    dom, bv, elem = part
    return lift(E.subst_any(lift(elem), {bv.id: dom[1] + i}))


def fades(part, scans, m, X, y, v, g):
    """part: the values in the years X(0..m-1) after the last year y with value v and growth g"""
    dom, bv, elem = part
    k = var("anystep", "I")
    lo = dom[1]
    def known(*js):
        return And(*[f for sc in scans for j in js for f in sc.facts(j)])

    def step(a, b, ta, tb):
        return [("while it fades", lambda: Implies(ta <= 2150, b == a + g * (1 - (ta - 2100) / 50) * (tb - ta))), ("afterwards", lambda: Implies(ta >= 2150, b == a))]
    first, further = And(known(lo - 1), m >= 1), And(known(lo + k - 1), num(1) <= k, k < m)
    return [("extrapolated part: length", dom[2] - lo == m)] + [
        (f"extrapolated part: first step {n}", Implies(first, f())) for n, f in step(v, at(part, num(0)), y, X(num(0)))] + [
        (f"extrapolated part: every further step {n}", Implies(further, f())) for n, f in step(at(part, k - 1), at(part, k), X(k - 1), X(k))]


# ------------------------------------------------------------------------------------------------- from the file to the model
def result(res, items, own, scans, year, last, full=True):
    """what interp_data returns is the data of `own`"""
    if not (isinstance(res, Term) and res.op == "app" and str(res.args[0]).startswith("interpolant")):
        raise Unsupported(f"value in a year {res!r}")
    out = []
    kind, x, y = items[int(res.args[0][len("interpolant"):])]
    out.append(("in its own year", lift(res.args[1]) == year))
    if kind == "linear":
        (px,), (py,) = G.parts_of(x), G.parts_of(y)
        n = var("npoints", "I")
        i = var("anypoint", "I")
        dom = px[0]
        cnt = dom[2] - dom[1]
        rng = And(num(0) <= i, i < cnt)
        out += [("at the years of the model", Implies(rng, at(px, i) == START + i * DT)), ("as many values as years", py[0][2] - py[0][1] == cnt),
                ("up to the last period", Implies(And(last >= 0, START + (last - 1) * DT < END), last < cnt))]
        e = at(py, i)
        if not (e.op == "app" and str(e.args[0]).startswith("interpolant")):
            raise Unsupported("interpolated values")
        out.append(("smooth interpolation in the same year", Implies(rng, lift(e.args[1]) == at(px, i))))
        kind, x, y = items[int(e.args[0][len("interpolant"):])]
        upto = at(px, cnt - 1)
    else:
        upto = year
    if kind != "cubic":
        return out + [("smooth interpolation", FALSE)]
    xs, ys = G.parts_of(x), G.parts_of(y)
    if len(xs) != 2 or len(ys) != 2:
        raise Unsupported("points of the interpolation")
    dom = xs[1][0]
    m = dom[2] - dom[1]
    X = lambda j: at(xs[1], lift(j))      # noqa: E731
    k = var("anyextra", "I")
    out += [(f"years of the file: {a}", b) for a, b in same_part(xs[0], own.n, own.year)]
    out += [(f"values of the file: {a}", b) for a, b in same_part(ys[0], own.n, own.value)]
    if not full:
        return out
    out += [("further years come after the file's", X(num(0)) > own.year(own.n - 1)),
            ("further years increase", Implies(And(num(0) <= k, k < m - 1), X(k) < X(k + 1))),
            ("further years cover the model", X(m - 1) >= upto)]
    g = (own.value(own.n - 1) - own.value(own.n - 2)) / (own.year(own.n - 1) - own.year(own.n - 2))
    out += fades(ys[1], scans, m, X, own.year(own.n - 1), own.value(own.n - 1), g)
    return out


YEAR = var("year", "R")
LAST = var("lastperiod", "I")


def single(s, w, log, hashed):
    """one store, with and without a unit, a region with and without the trailing mark"""
    for unit in (True, False):
        info = Info("A", unit)
        r, base, facts = region("A", hashed)
        own = Own(info, base, w.repo)

        def thunk():
            reset(w, log)
            st = w[DS].DataStore(params({"GDP": info}, {r: {}}))
            return st.interp_data(YEAR, r, "GDP"), list(log.items), list(w.scans)

        def post(p):
            if p.kind == "raise":
                return [("raises only without exactly one row", Not(own.rows == 1))]
            res, items, scans = p.value
            return [("needs exactly one row", own.rows == 1)] + result(res, items, own, scans, YEAR, LAST)
        s.case(f"one run{'' if unit else ', no unit'}{', marked region' if hashed else ''}", thunk, post, HORIZON + facts + own.facts(),
               want=("return", "raise"))


def reset(w, log):
    log.reset()
    w.scans.clear()
    G.reset_state(w[DS], w.snap)


def two_runs(s, w, log):
    """whatever a first run has read, the second gets its own, and the first keeps its own"""
    A, B = Info("A"), Info("B")
    ra, ba, fa = region("A", False)
    rb, bb, fb = region("B", False)
    oa, ob = Own(A, ba, w.repo), Own(B, bb, w.repo)

    def thunk():
        reset(w, log)
        one = w[DS].DataStore(params({"GDP": A}, {ra: {}}))
        two = w[DS].DataStore(params({"GDP": B}, {rb: {}}))
        return (two.interp_data(YEAR, rb, "GDP"), one.interp_data(YEAR, ra, "GDP")), list(log.items), list(w.scans)

    def post(p):
        if p.kind == "raise":
            return [("raises only without exactly one row", Not(ob.rows == 1))]
        (b, a), items, scans = p.value
        out = [("needs exactly one row", ob.rows == 1)]
        out += [(f"second run: {n}", g) for n, g in result(b, items, ob, scans, YEAR, LAST, False)]
        out += [(f"first run: {n}", g) for n, g in result(a, items, oa, scans, YEAR, LAST, False)]
        return out
    s.case("two runs", thunk, post, HORIZON + fa + fb + oa.facts() + ob.facts() + [oa.rows == 1], want=("return", "raise"))


def every_region(s, w):
    """every region and variable has the data of its own request"""
    w.summaries[DS + ".DataStore._get_data"] = lambda self, years, region, info: Ghost("data", years is self.data_years, region,
                                                                                                info["variable"].t)
    w.summaries[DS + ".DataStore._select_database"] = lambda self, filename: None
    regions = SymDict("regions")
    A, B = Info("A"), Info("B")
    def thunk():
        st = w[DS].DataStore(params({"GDP": A, "population": B}, regions))
        return st

    def post(p):
        if p.kind != "return":
            return FALSE
        out = []
        for n, info in (("GDP", A), ("population", B)):
            d = p.value._data_values[n]
            from .inst import for_all_regions
            out.append((f"{n} of every region", for_all_regions(d, regions, lambda r, v: And(
                TRUE if v.key[1] is True else FALSE, r.same(v.key[2]), seq(v.key[3], info.f["variable"].t)))))
        return out
    try:
        s.case("all regions", thunk, post, HORIZON, max_paths=50)
    finally:
        w.summaries.pop(DS + ".DataStore._get_data", None)
        w.summaries.pop(DS + ".DataStore._select_database", None)
