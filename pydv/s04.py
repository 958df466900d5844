"""S04: frame conditions of loading, building and saving.

Every operation of a session (load_params, MIMOSA(...), save, in valid and rejected uses) runs on the real modules, loaded once.  On
every path: the modules' state is what it was (so every sequence of operations starts each operation in the same state: induction over
histories); the caller's dictionary holds what it held and shares no container with the result; earlier results are untouched; repeating
an operation gives an equal result.  The one state that is meant to change, DataStore's cache of files, has its own contract (an
arbitrary request after an arbitrary other one gets its own data); likewise two stores of regional parameters and two instances."""
import copy

from . import terms as T
from . import engine as E
from . import pyostub as P
from . import mcheck as M
from . import laws as L
from . import ghostdata as G
from . import s01
from . import s03
from . import c08
from . import c07
from . import state as St
from .contract import Suite
from .symany import SymStr, Base, Ghost, SymObj, sterm, slit, seq
from .terms import num, var, app, And, Or, Not, Implies, TRUE, FALSE, Unsupported, lift, Term

MM = "mimosa.mimosa"
PC = "mimosa.common.config.parseconfig"
DS = "mimosa.common.data.datastore"
CACHES = (("databases",), ("cached_data",))


class Points(Base):
    """an interpolant, known by the points it goes through"""
    PY = object

    def __init__(self, args):
        self.args = args

    def __subst__(self, s):
        return Points([T.subst(a, s) if isinstance(a, Term) else a for a in self.args])

    def at(self, x):
        return app("interpolation", *self.args, lift(x))

    def __call__(self, x):
        if isinstance(x, E.SymIter):
            return E.SymArr(x.domain, x.bv, self.at(x.elem), x.conds)
        if isinstance(lift(x), Term):
            return s01.Value0(self.at(x)) if "spline" in self.args[0].args else self.at(x)
        raise Unsupported("point of an interpolation")


def points(kind, *arrays):
    out = [slit(kind)]
    for x in arrays:
        for n, (dom, bv, elem) in enumerate(G.parts_of(x)):
            if not (isinstance(dom, tuple) and dom[0] == "range"):
                raise Unsupported("points of an interpolant")
            out += [lift(dom[1]), lift(dom[2]), T.subst(lift(elem), {bv.id: var(f"point{n}", "I")})]
    return Points(out)


def create_instance(self):
    """pyomo: a concrete model from the abstract one and the data"""
    m = self.abstract_model
    m._plain["instance data"] = self.instance_data
    return m


class Transformation(Base):
    PY = object

    def apply_to(self, m, **k):
        return None

    def create_using(self, m, **k):
        raise Unsupported("copy by a transformation")

    def update_variables(self, m):
        return None


def regional(self, filename, typ, wanted, mappers):
    self.key = (filename, typ, wanted)


def regional_get(self, name, region):
    return Ghost("regional", *self.key, name, region)


class File(G.Frame):
    """an input file with one row per request (none for the region Nowhere)"""

    def select(self, c):
        sel = G.Frame.select(self, c)
        return Rows(self, sel.parts)


class Rows(G.Selection):
    def rows(self):
        return 0 if any(v is slit("Nowhere") for _, v in self.parts) else 1

    @property
    def loc(self):
        f = G.Selection.loc.fget(self).f

        def g(k):
            f(k)
            return Years(self)
        return G.Getter(g)


class Years(Base):
    PY = object

    def __init__(self, sel):
        self.sel = sel

    @property
    def columns(self):
        return G.Labels(self.sel)

    @property
    def values(self):
        return G.YearCols(self.sel).values


def make_world(repo):
    w, params = s03.make_world(repo)
    w.scans = []
    w.builtins["max"], w.builtins["min"] = G.fold("max", max), G.fold("min", min)

    def read_csv(path, **k):
        if k or sterm(path) is None:
            raise Unsupported("use of read_csv")
        return File(path) if "output" not in str(path) else s01.CsvFrame(SymStr(slit(path)) if isinstance(path, str) else path)
    pd = w.stubs["pandas"]
    pd.read_csv = read_csv
    table = pd.DataFrame

    def frame(x=None, *a, **k):
        if isinstance(x, dict) and not a and not k:
            return s01.PathFrame(tuple(s03.flat(x)))
        return table(x, *a, **k)
    pd.DataFrame = frame
    sp = w.stubs["scipy.interpolate"]
    sp.interp1d = lambda x, y, kind="linear", **k: points(str(kind) + repr(sorted(k.items(), key=str)), x, y)
    sp.CubicSpline = lambda x, y, *a, **k: points("cubic spline", x, y)
    sp.InterpolatedUnivariateSpline = lambda x, y, *a, **k: points("spline", x, y)
    w.stubs["numpy"].interp = lambda x, xp, fp, **k: points("linear", xp, fp)(x)
    texts = {}

    def safe_load(f):
        import pickle
        import yaml
        t = f if isinstance(f, str) else f.read()
        if t not in texts:
            texts[t] = pickle.dumps(yaml.safe_load(t))
        return pickle.loads(texts[t])
    y = P.Namespace("yaml", safe_load=safe_load)
    w.stubs["yaml"] = y
    w.summaries.clear()
    return w, params


def extrapolate(values, years, extra, *a, **k):
    (part,), (v,), (y,) = G.parts_of(extra), G.parts_of(values), G.parts_of(years)
    i = T.fresh("i", "I")
    return G.Cat([v, (part[0], i, app("extrapolated", i, lift(v[2]), lift(y[2])))])


def text(x):
    t = sterm(x)
    return t if t is not None else lift(x)


def quant(self, *a, **k):
    """numbers as they are, texts through an uninterpreted conversion"""
    only = k.pop("only_magnitude", True)
    k.pop("can_be_false", None)
    if a and a[0] is False:
        return False
    if k or len(a) not in (2, 3):
        raise Unsupported("use of quant")
    if isinstance(a[0], E.SymIter):
        m = E.SymArr(a[0].domain, a[0].bv, a[0].elem * app("ratio", text(a[1]), text(a[2])), a[0].conds)
    else:
        m = app("converted", *[text(x) for x in a])
    return m if only is True else c07.Converted(m, Ghost("unit", text(a[-1])))


def contracts(w):
    w.summaries["mimosa.common.units.Quantity.__call__"] = quant
    w.summaries["mimosa.common.regional_params.regional_param_container.RegionalParamContainer.__init__"] = regional
    w.summaries["mimosa.common.regional_params.regional_param_container.RegionalParamContainer.get"] = regional_get
    w.summaries["mimosa.common.regional_params.region_mappers.RegionMapper.__init__"] = lambda self, *a, **k: setattr(self, "key", a)
    w.summaries["mimosa.concrete_model.instantiate_params.InstantiatedModel.create_instance"] = create_instance
    w.summaries["mimosa.common.data.utils.extrapolate"] = extrapolate
    w.summaries[MM + ".MIMOSA.preprocessing"] = lambda self: None


def cache(w):
    """the containers of the DataStore cache"""
    out = {}
    mod = w[DS]
    for h in [mod] + [c for c in vars(mod).values() if isinstance(c, type) and c.__module__ == mod.__name__]:
        for k, v in vars(h).items():
            if isinstance(v, dict) and not k.startswith("__"):
                out[id(v)] = v
    return out


def fork(x):
    """a copy of the containers, leaves shared"""
    if isinstance(x, dict):
        return {k: fork(v) for k, v in x.items()}
    if isinstance(x, list):
        return [fork(v) for v in x]
    return x


def same(a, b):
    """the same containers, keys in order, leaves"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (Term, SymStr, SymObj)):
        return a is b or isinstance(a, SymStr) and a.t is b.t
    return a == b or a is b


REGIONS = {"USA": {}, "INDIA": {}}


def users():
    """name -> caller's dictionary"""
    x = lambda n: var(n)      # noqa: E731
    yield "defaults", {"regions": REGIONS}
    yield "numbers", {"regions": REGIONS, "economics": {"PRTP": x("prtp"), "GDP": {"alpha": x("alpha")}}, "emissions": {"inertia": {"regional": x("inertia")}}}
    yield "grid", {"regions": {"USA": {}}, "time": {"start": 2015, "end": 2071, "dt": 3.5}}
    yield "regions with values", {"regions": {"USA": {"MAC": {"kappa": x("kappa")}, "economics": {}}, "BRA": {"COACCH": None}}, "effort sharing": {
        "regime": "equal_mitigation_costs"}}
    yield "texts", {"regions": REGIONS, "SSP": "SSP3", "emissions": {"carbonbudget": "500 GtCO2", "inertia": {"regional": False}},
                    "temperature": {"target": "2 delta_degC"}}
    yield "simulation", {"regions": REGIONS, "simulation": {"simulationmode": False, "constraint_variables": {"global_temperature": {2020: {"Global": 1.0}}},
                                                               "deactivated_constraints": ["a", "b"],
                                                               "custom_mapping": {"A0": {"USA": x("a0"), "INDIA": 1.0}, "PRTP": {None: 0.1}}}}
    yield "simulation on", {"regions": REGIONS, "simulation": {"simulationmode": True, "constraint_variables": {
        "temperature": {2020: {"Global": x("p1")}, 2030: {"Global": 1.5}}, "regional_emissions": "output/run.csv"}, "deactivated_constraints": ["regional_inertia", "LOT"]}}
    yield "lists", {"regions": REGIONS, "regionsmappings": [{"regionstype1": "A", "regionstype2": "B", "conversiontable": "c"}]}
    yield "unknown key", {"regions": REGIONS, "economics": {"prtp": 1}}
    yield "rejected value", {"regions": REGIONS, "time": {"start": "soon"}, "economics": {"PRTP": x("prtp")}}
    yield "rejected option", {"regions": REGIONS, "model": {"damage module": "none"}}
    yield "missing region", {"regions": {"Nowhere": {}}, "economics": {"PRTP": 0.01}}


REJECTED = ("unknown key", "rejected value", "rejected option", "missing region")


def modules():
    seen = set()
    for mods in L.all_mods():
        for n, v in zip(("damage module", "emissiontrade module", "financialtransfer module", "welfare module", "objective module"), mods.args()):
            if (n, v) not in seen:
                seen.add((n, v))
                yield f"{n} {v}", {"regions": REGIONS, "model": {n: v}}


def run(repo=None):
    w, params = make_world(repo)
    s = Suite("S04", w)
    s.artefact = (TypeError,)
    s.section(loading, w)
    s.section(building, w)
    w.summaries.clear()
    w7, log, _ = c07.make_world(repo)
    s7 = Suite("S04", w7)
    s7.artefact = (TypeError,)
    s7.section(c07.two_runs, w7, log)
    w8, seen = c08.make_world(repo)
    s8 = Suite("S04", w8)
    s8.section(two_stores, w8, seen)
    s.obls += s7.obls + s8.obls
    s.functions |= {q for x in (w7, w8) for q in x.executed if "<lambda>" not in q}
    return s


KEPT = {}


def keep(w):
    """start from the state after import"""
    if w not in KEPT:
        KEPT.clear()
        KEPT[w] = St.Keep(w)
    KEPT[w].restore()


class Session:
    """the frame conditions around one operation"""

    def __init__(self, w):
        self.w = w
        keep(w)
        self.earlier = []
        self.skip = {id(v) for v in cache(w).values()}
        self.state = St.snapshot(w, self.skip)

    def around(self, op, caller=None):
        w = self.w
        given = fork(caller) if caller is not None else None
        ids = St.containers(caller, w, deep=False) if caller is not None else {}
        kind, r = "return", None
        try:
            r = op()
        except (Unsupported, E.PathLimit):
            raise
        except Exception as e:    # noqa: BLE001
            kind, r = "raise", e
        out = []
        now = St.snapshot(w, self.skip)
        ch = St.changes(self.state, now)
        self.state = now
        out.append(("the modules' state is unchanged", ch))
        if caller is not None:
            out.append(("the caller's dictionary is unchanged", same(caller, given) and ids.keys() == St.containers(caller, w, deep=False).keys()))
            if kind == "return":
                mine = St.containers(r, w)
                out.append(("nothing of the caller's dictionary is kept", not set(mine) & set(ids)))
        return kind, r, out

    def built(self, o):
        self.earlier.append((o, content(self.w, o)))

    def untouched(self):
        return all(content(self.w, o) == d for o, d in self.earlier)


def content(w, o):
    """what a model is: its parameters, data and components"""
    d = St.Describe(St.own_class(w))
    for n in ("params", "regions", "param_parser_tree", "abstract_model", "concrete_model", "regional_param_store", "data_store"):
        d.go(vars(o).get(n))
    return d.out


def goals(out):
    res = []
    for n, x in out:
        if isinstance(x, list):
            if x:
                res.append((n, Unsupported(f"state that an operation changes: {x[:5]}")))
                continue
            x = True
        res.append((n, TRUE if x else FALSE))
    return res


def loading(s, w):
    contracts(w)
    pc = w[PC]

    def edit(d):
        for v in St.containers(d, w, deep=False).values():
            v.clear()

    def thunk():
        se = Session(w)
        k1, a, o1 = se.around(lambda: pc.load_params())
        first = St.describe(w, a)
        k2, b, o2 = se.around(lambda: pc.load_params())
        shared = bool(set(St.containers(a, w, deep=False)) & (set(St.containers(b, w, deep=False)) | set(St.of_state(w))))
        same_ = St.describe(w, b) == first
        edit(a)
        edit(b)
        k3, c, o3 = se.around(lambda: pc.load_params())
        return [k1, k2, k3], o1 + o2 + o3, shared, same_, St.describe(w, c) == first

    def post(p):
        if p.kind != "return" or set(p.value[0]) != {"return"}:
            return [("loads", FALSE)]
        _, out, shared, eq, again = p.value
        return goals(out) + [("two loads share nothing", FALSE if shared else TRUE), ("two loads are equal", TRUE if eq else FALSE),
                             ("equal after the caller has emptied earlier ones", TRUE if again else FALSE)]
    s.case("load_params", thunk, post, want=("return",))


def building(s, w):
    contracts(w)
    cls = w[MM].MIMOSA
    known = {}

    def thunk(name, user, other):
        def go():
            se = Session(w)
            given = fork(user)
            k1, o1, out1 = se.around(lambda: cls(given), given)
            d1 = repr(type(o1))
            if k1 == "return":
                se.built(o1)
                d1 = se.earlier[0][1]
                for n, c in o1.concrete_model._comps.items():
                    if isinstance(c, P.SVar):
                        P.VAR_APPS.add(n)
                if saves(name):
                    ks, _, outs = se.around(lambda: o1.save("name", hash_suffix=True))
                    if ks != "return":
                        raise Unsupported(f"saving: {_!r}")
                    out1 = out1 + [("saving: " + n, g) for n, g in outs + [("the model is untouched", se.untouched())]]
            k2, o2, out2 = se.around(lambda: cls(other), other)
            k3, o3, out3 = se.around(lambda: cls(given), given)
            d3 = content(w, o3) if k3 == "return" else repr(type(o3))
            out3 = out3 + [("earlier models are untouched", se.untouched())]
            shared = []
            if k1 == "return" and k3 == "return":
                st = set(St.of_state(w)) | {k for v in cache(w).values() for k in St.containers(v, w)}
                c1, c2, c3 = (set(St.containers(o, w)) for o in (o1, o2, o3))
                shared = ((c1 & c3) | (c1 & c2)) - st | (set(St.containers(o1.params, w, deep=False)) & st)
            return (k1, k2, k3), out1, out2, out3, k1 == k3 and d1 == d3, not shared
        return go
    others = {"regions": {"INDIA": {}}, "economics": {"PRTP": 0.02}, "time": {"start": 2020, "end": 2080, "dt": 10}, "model": {"damage module": "nodamage"}}
    for name, user in list(users()) + list(modules()):
        def post(p, name=name):
            if p.kind == "raise":
                raise Unsupported(f"session: {p.value!r}")
            kinds, o1, o2, o3, eq, apart = p.value
            if kinds[1] != "return" or kinds[0] == "return" and name in REJECTED or kinds[0] != "return" and name not in REJECTED and not p.cond:
                raise Unsupported("a model does not build")
            return [(f"first: {n}", g) for n, g in goals(o1)] + [(f"another model: {n}", g) for n, g in goals(o2)] + [
                (f"again: {n}", g) for n, g in goals(o3)] + [
                ("building it again gives an equal model" if kinds[0] == "return" else "rejected again", TRUE if eq else FALSE), ("models share nothing", TRUE if apart else FALSE)]
        s.case(f"building with {name}", thunk(name, user, fork(others)), post, years_of(user))


def saves(name):
    return name in ("defaults", "regions with values", "simulation")


def years_of(f):
    """length of the paths a caller's dictionary names"""
    cv = f.get("simulation", {}).get("constraint_variables", {})
    return [s01.n_years(tuple(s03.flat(v)) if isinstance(v, dict) else (slit(v), slit(k))) >= 4 for k, v in cv.items()]


# ---------------------------------------------------------------------------------------- regional parameters of two models
def two_stores(s, w, seen):
    """whatever an earlier store has read of the same file, the next one has its own values, and the earlier keeps its own"""
    R8 = w[c08.RP]
    free, want2 = (c08.TYPE, c08.WANT), SymStr("wanted type 2")
    a, b, c = "IMAGE26", "COACCH", "ADRICE2010"
    for maps, one, two in (((1, 1), free, (c08.TYPE, want2)), ((2, 2), (b, a), (a, b)), ((2, 2), (b, a), (a, a)), ((2, 2), (a, a), (b, a)),
                           ((2, 2), (a, a), (a, c)), ((2, "others"), (b, a), (b, a))):
        for override in (False, True):
            look = [c08.lookup(w.repo, c08.FILE, t, c08.REGION, c08.NAME, n, u) for n, (t, u) in zip(maps, (one, two))]

            def thunk():
                keep(w)
                seen["columns"] = small(w, maps)
                user = {c08.R0: None, c08.REGION: {c08.CAT: {c08.NAME: Ghost("override of the first")}} if override else {}}
                r1 = R8.RegionalParamStore(c08.params(user, False, maps[0], *one), Ghost("tree"))
                x = r1.getregional(c08.CAT, c08.NAME, c08.REGION)
                r2 = R8.RegionalParamStore(c08.params({c08.REGION: {}}, False, maps[1], *two), Ghost("tree"))
                y = r2.getregional(c08.CAT, c08.NAME, c08.REGION)
                return x, y, r1.getregional(c08.CAT, c08.NAME, c08.REGION)

            def post(p):
                if p.kind == "raise":
                    return [("raises only when something is missing", FALSE)]
                x, y, z = p.value
                out = [("the next one's value: " + n, g) for n, g in c08.value_is(y, *look[1][1:])]
                for tag, v in (("first value", x), ("the earlier one's value later", z)):
                    out += [(tag, TRUE if isinstance(v, Ghost) and v.key == ("override of the first",) else FALSE)] if override else [
                        (f"{tag}: {n}", g) for n, g in c08.value_is(v, *look[0][1:])]
                return out
            fine = [look[0][2]] + [c08.mapping_files(w.repo, m) for m in maps] + look[0][0] + look[1][0] + [
                f for m in maps for f in c08.facts(m)]
            if two[1] is want2:
                fine += [Not(seq(sterm(c), sterm(want2))) for c in (c08.NAME, c08.OTHER)] + [Not(seq(sterm(want2), slit("region")))]
            if len(set(maps)) > 1:
                fine += c08.distinct([f for m in maps for _, _, f in c08.fixed(m)] + [c08.FILE])
            s.case(f"regional parameters of two models: {one[0]!r} to {one[1]!r}, then {two[0]!r} to {two[1]!r} with mappings {maps[1]}"
                   f"{', the first with an override' if override else ''}", thunk, post, fine, want=("return",), max_paths=600)


def small(w, maps):
    """columns of the files: the asked one only"""
    fs = [c08.columns(w, m) for m in maps]

    def f(p):
        found = [g(p) for g in fs]
        return [n for n in next((x for x in found if x[0] != "region"), found[0]) if n is not c08.OTHER]
    return f
