"""C08: contracts of the regional parameters: override, table, region mapping.

The real RegionalParamStore runs on arbitrary tables (uninterpreted cells, the asked column and one arbitrary other column), arbitrary
region, category, parameter and region type names, any pair of declared mappings and every kind of user entry."""
from . import terms as T
from . import engine as E
from . import pyostub as P
from . import mcheck as M
from .contract import Suite
from . import ghostdata as G
from .inst import for_all_regions
from .symany import SymStr, SymDict, Ghost, Base, sterm, slit, seq, any_eq
from .terms import num, var, app, And, Or, Not, Implies, TRUE, FALSE, Unsupported, lift, Term

RP = "mimosa.common.regional_params.main"


def keq(a, b):
    return T.B(any_eq(a, b)) if not (isinstance(a, str) and isinstance(b, str)) else (TRUE if a == b else FALSE)


def same(a, b):
    return a is b or T.decide(keq(a, b))


class Col(Base):
    """a column of a table (or of tables put together)"""
    PY = object

    def __init__(self, owner, name):
        self.owner, self.name = owner, name
        self.dtype = self

    def __repr__(self):
        return f"column {self.name!r}"

    @property
    def loc(self):
        return G.Getter(lambda k: self.owner.loc_(k, self.name))

    at = loc

    def __vc_getitem__(self, k):
        return self.owner.loc_(k, self.name)

    def numeric(self):
        return app("numeric", sterm(self.owner.path), sterm(self.name), sort="B")


class Columns(Base):
    PY = object

    def __init__(self, names):
        self.names = names

    def __vc_contains__(self, k):
        return any(same(k, n) for n in self.names)

    def __iter__(self):
        return iter(list(self.names))

    def tolist(self):
        return list(self.names)

    @property
    def values(self):
        return self


class Table(Base):
    """file contents: the column names the code can see, cells uninterpreted"""
    PY = object

    def __init__(self, path, names):
        self.path, self.names = path, names

    def __repr__(self):
        return f"table {self.path!r}"

    @property
    def columns(self):
        return Columns(self.names)

    def find(self, k):
        for n in self.names:
            if same(k, n):
                return n
        raise KeyError(k)

    def __vc_getitem__(self, k):
        if isinstance(k, list):
            return Table(self.path, [self.find(x) for x in k])
        return Col(self, self.find(k))

    def items(self):
        return [(n, Col(self, n)) for n in self.names]

    def copy(self):
        return self

    def merge(self, right, how="inner", on=None, left_on=None, right_on=None, **k):
        if k or not isinstance(right, Table) or on is not None or left_on != "region":
            raise Unsupported("options of merge")
        if how not in ("inner", "outer", "left", "right"):
            raise Unsupported("kind of merge")
        if not isinstance(right_on, (str, SymStr)) or "region" not in [n for n in self.names if isinstance(n, str)]:
            raise Unsupported("merge on other columns")
        return Joined(self, right, right.find(right_on), how)

    def set_index(self, k, **kw):
        if k != "region" or kw or "region" not in [n for n in self.names if isinstance(n, str)]:
            raise Unsupported("index of a table")
        return Indexed(self)


class Joined(Base):
    PY = object

    def __init__(self, table, mapping, frm, how, drop=()):
        self.table, self.mapping, self.frm, self.how = table, mapping, frm, how
        self.path = table.path
        self.names = [n for n in table.names + mapping.names if not any(n is d for d in drop)]

    def find(self, k):
        for n in self.names:
            if same(k, n):
                return n
        raise KeyError(k)

    def drop(self, labels=None, columns=None, axis=None, **k):
        if k or axis not in (None, 1, "columns"):
            raise Unsupported("options of drop")
        cs = columns if columns is not None else labels
        cs = cs if isinstance(cs, (list, tuple)) else [cs]
        gone = [self.find(c) for c in cs]
        r = Joined(self.table, self.mapping, self.frm, self.how)
        r.names = [n for n in self.names if not any(n is g for g in gone)]
        return r

    @property
    def columns(self):
        return Columns(self.names)

    def items(self):
        return [(n, Col(self, n)) for n in self.names]

    def __vc_getitem__(self, k):
        if isinstance(k, list):
            r = Joined(self.table, self.mapping, self.frm, self.how)
            r.names = [self.find(x) for x in k]
            return r
        return Col(self, self.find(k))

    def groupby(self, by, **k):
        if set(k) - {"sort"}:
            raise Unsupported("options of groupby")
        return Groups(self, self.find(by))


class Groups(Base):
    PY = object

    def __init__(self, joined, by, **k):
        self.joined, self.by = joined, by

    def agg(self, how, **k):
        if k:
            raise Unsupported("options of agg")
        if isinstance(how, str):
            how = {n: how for n in self.joined.names if n is not self.by}
        if not isinstance(how, dict) or not all(isinstance(v, str) for v in how.values()):
            raise Unsupported("aggregation")
        return Agg(self.joined, self.by, dict(how), False, None)

    aggregate = agg


class Agg(Base):
    PY = object

    def __init__(self, joined, by, how, column, name):
        self.joined, self.by, self.how, self.column, self.name = joined, by, how, column, name

    def reset_index(self, **k):
        if k or self.column:
            raise Unsupported("reset_index")
        return Agg(self.joined, self.by, self.how, True, self.by)

    def rename(self, columns=None, **k):
        if k or not isinstance(columns, dict) or len(columns) != 1 or not self.column:
            raise Unsupported("rename")
        ((a, b),) = columns.items()
        if not same(a, self.name):
            raise Unsupported("rename of another column")
        return Agg(self.joined, self.by, self.how, True, b)

    def rename_axis(self, name=None, **k):
        if k or self.column:
            raise Unsupported("rename_axis")
        return Agg(self.joined, self.by, self.how, False, name)

    def set_index(self, k):
        if not self.column or not same(k, self.name):
            raise Unsupported("index of an aggregate")
        return Indexed(Agg(self.joined, self.by, self.how, False, k))

    @property
    def loc(self):
        return Indexed(self).loc


def cell(kind, numeric, *key):
    return app(kind, *key) if numeric else SymStr(app(kind + " text", *key, sort="S"))


class Indexed(Base):
    """rows by region"""
    PY = object

    def __init__(self, src):
        self.src = src
        self.path = src.path if isinstance(src, Table) else src.joined.path

    @property
    def loc(self):
        def f(k):
            if not isinstance(k, tuple) or len(k) != 2:
                raise Unsupported("rows of a table")
            return self.loc_(*k)
        return G.Getter(f)

    at = loc

    def __vc_getitem__(self, k):
        return Col(self, self.find(k))

    @property
    def columns(self):
        s = self.src
        return Columns([n for n in s.names if n != "region" or not isinstance(n, str)] if isinstance(s, Table) else list(s.how))

    @property
    def index(self):
        return Regions(self)

    def find(self, k):
        for n in self.columns:
            if same(k, n):
                return n
        raise KeyError(k)

    def has(self, region):
        s = self.src
        if isinstance(s, Table):
            return app("hasrow", sterm(s.path), sterm(region), sort="B")
        j = s.joined
        key = mapkey(j, s.by, region)
        return app("has mapped", *key, sort="B") if j.how in ("outer", "right") else joined_row(key)

    def loc_(self, region, name):
        if sterm(region) is None:
            raise Unsupported("row of a table")
        if not T.decide(self.has(region)):
            raise KeyError(region)
        name = self.find(name)
        s = self.src
        if isinstance(s, Table):
            numeric = T.decide(Col(s, name).numeric())
            return cell("cell", numeric, sterm(s.path), sterm(region), sterm(name))
        key = mapkey(s.joined, s.by, region)
        if not T.decide(joined_row(key)):
            return float("nan")
        how = s.how[[n for n in s.how if n is name][0]]
        numeric = T.decide(Col(s.joined, name).numeric())
        if how in ("mean", "sum", "median", "std", "prod") and not numeric:
            raise TypeError("agg function failed")
        return cell(how, numeric, *key, sterm(name))


class Regions(Base):
    PY = object

    def __init__(self, ind):
        self.ind = ind

    def __vc_contains__(self, r):
        return T.decide(self.ind.has(r))


def mapkey(j, by, region):
    return (sterm(j.table.path), sterm(j.mapping.path), sterm(j.frm), sterm(by), sterm(region))


def joined_row(key):
    return And(app("has mapped", *key, sort="B"), app("has a mapped row", *key, sort="B"))


def make_world(repo):
    P.VAR_APPS.clear()
    P._hv.clear()
    E.Explorer.guard = None
    st = P.model_stubs()
    st["os"] = G.os_stub()
    seen = {}
    pd = st["pandas"]

    def read_csv(path, **k):
        if k or sterm(path) is None:
            raise Unsupported("use of read_csv")
        names = []
        for c in seen["columns"](path):
            if not isinstance(c, str) and not T.decide(app("has column", sterm(path), sterm(c), sort="B")):
                continue
            if not any(x is c for x in names):
                names.append(c)
        return Table(path, names)

    def is_numeric(c):
        if isinstance(c, Col):
            return T.decide(c.numeric())
        raise Unsupported("is_numeric_dtype")
    pd.read_csv = read_csv
    pd.merge = lambda l, r, **k: l.merge(r, **k)
    pd.api = P.Namespace("pandas.api", types=P.Namespace("pandas.api.types", is_numeric_dtype=is_numeric))
    st["pandas.api.types"], st["pandas.api"] = pd.api.types, pd.api
    w = E.World(st, repo)
    w.loop_specs, w.loop_proofs = [], []
    return w, seen


REGION, CAT, CATB, NAME, OTHER = (SymStr(n) for n in ("region", "category", "category2", "name", "name2"))
R0 = SymStr("region0")
WANT = SymStr("wanted type")
FILE, FILEB, TYPE, TYPEB = SymStr("file"), SymStr("file2"), SymStr("type of the table"), SymStr("type of table 2")
MAPS = [(SymStr("type a"), SymStr("type b"), SymStr("mapping")), (SymStr("type c"), SymStr("type d"), SymStr("mapping2"))]


def distinct(xs):
    xs = list(xs)
    return [Not(seq(sterm(a), sterm(b))) for n, a in enumerate(xs) for b in xs[n + 1:]]


def path(repo, f):
    import os
    return SymStr.concat([os.path.join(repo, "mimosa", "common", "regional_params") + "/../../", f])


# two mappings under fixed type names (the symbolic names are covered with one mapping)
FIXED = [("IMAGE26", "COACCH", SymStr("mapping")), ("ADRICE2010", "IMAGE26", SymStr("mapping2"))]


def params(user, two=False, maps=2, typ=TYPE, want=WANT):
    MAPS = fixed(maps)
    WANT = want
    cats = {CAT: {"filename": FILE, "regionstype": typ}}
    if two:
        cats[CATB] = {"filename": FILEB, "regionstype": TYPEB}
    return {"regions": user, "regionstype": WANT, "regional_parameter_files": cats,
            "regionsmappings": [{"regionstype1": a, "regionstype2": b, "conversiontable": f} for a, b, f in MAPS]}


ALTERNATIVE = [("IMAGE26", "COACCH", SymStr("mapping3")), ("ADRICE2010", "IMAGE26", SymStr("mapping4"))]


def fixed(maps):
    return FIXED if maps == 2 else ALTERNATIVE if maps == "others" else MAPS[:maps]


def users():
    """(what, entry of the region, override or nothing)"""
    none = object()
    vals = [("an opaque value", Ghost("override")), ("zero", 0), ("a number", var("override", "R")), ("false", False), ("empty text", ""), ("text", SymStr("overridetext"))]
    d = Ghost("decoy")
    yield "nothing", None, none
    yield "an empty entry", {}, none
    yield "another category", {CATB: {NAME: d}}, none
    yield "an unset category", {CAT: None}, none
    yield "an empty category", {CAT: {}}, none
    yield "another parameter", {CAT: {OTHER: d}}, none
    yield "a number as category", {CAT: 5}, none
    yield "a text as category", {CAT: SymStr("text")}, none
    for n, v in vals:
        yield f"override by {n}", {CATB: {NAME: d}, CAT: {OTHER: d, NAME: v}}, v
    yield from ()


NONE = object()


def lookup(repo, file, typ, region, name, maps=2, want=WANT):
    """(conditions under which the documents give a value, [(condition, kind, key)])"""
    p = path(repo, file)
    plain = seq(sterm(typ), sterm(want))
    hascol = app("has column", sterm(p), sterm(name), sort="B")
    ok = [Implies(plain, And(app("hasrow", sterm(p), sterm(region), sort="B"), hascol))]
    alts = [(plain, "cell", "cell", (sterm(p), sterm(region), sterm(name)))]
    found = FALSE
    for a, b, f in fixed(maps):
        mp = path(repo, f)
        fit = Or(And(seq(sterm(a), sterm(typ)), seq(sterm(b), sterm(want))), And(seq(sterm(b), sterm(typ)), seq(sterm(a), sterm(want))))
        key = (sterm(p), sterm(mp), sterm(typ), sterm(want), sterm(region))
        ok.append(Implies(And(Not(plain), fit), And(joined_row(key), hascol)))
        alts.append((And(Not(plain), fit), "mean", "first", key + (sterm(name),)))
        found = Or(found, fit)
    ok.append(Or(plain, found))
    return ok, alts, app("numeric", sterm(p), sterm(name), sort="B")


def value_is(v, alts, numeric):
    """the value is the one of the documents, as number or text"""
    out = []
    for n, (cond, knum, ktext, key) in enumerate(alts):
        text = app(ktext + " text", *key, sort="S")
        fl = app("float_val", text)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            out.append((f"value {n}", Not(And(cond, Or(numeric, Not(special(text, v)))))))
            continue
        if isinstance(v, SymStr):
            g = And(Not(numeric), Not(app("float_ok", text, sort="B")), seq(v.t, text))
        elif isinstance(v, Term) and v.sort in ("R", "I"):
            g = Or(And(numeric, v == app(knum, *key)), And(Not(numeric), app("float_ok", text, sort="B"), v == fl))
        else:
            g = FALSE
        out.append((f"value {n}", Implies(cond, g)))
    return out


def special(text, v):
    """float(text) is the nan or infinity v"""
    n = "float_nan" if v != v else "float_pinf" if v > 0 else "float_ninf"
    return And(app("float_ok", text, sort="B"), app(n, text, sort="B"))


def mapping_files(repo, maps):
    """every mapping file holds its two columns"""
    return And(*[app("has column", sterm(path(repo, f)), sterm(x), sort="B") for a, b, f in fixed(maps) for x in (a, b)])


def run(repo=None):
    w, seen = make_world(repo)
    s = Suite("C08", w)
    s.section(lookups, w, seen)
    s.section(overrides, w, seen)
    s.section(categories, w, seen)
    s.section(every_region, w)
    w.summaries.clear()
    return s


def columns(w, maps):
    def f(p):
        for a, b, g in fixed(maps):
            if p.t == path(w.repo, g).t or str(p) == str(path(w.repo, g)):
                return [a, b]
        return ["region", NAME, OTHER] if maps == 2 else ["region", NAME]
    return f


# names are pairwise different, and the types differ from the columns; the two types of a mapping differ
def facts(maps):
    typs = [x for a, b, _ in fixed(maps) for x in (a, b)]
    cols = [Not(seq(sterm(c), sterm(t))) for c in (NAME, OTHER) for t in typs + [TYPE, TYPEB, WANT]]
    cols += [Not(seq(sterm(c), slit("region"))) for c in [NAME, OTHER, TYPE, TYPEB, WANT] + typs]
    out = distinct([REGION, R0]) + distinct([CAT, CATB]) + distinct([NAME, OTHER]) + cols + distinct([FILE] + [f for _, _, f in fixed(maps)])
    return out + [Not(seq(sterm(a), sterm(b))) for a, b, _ in fixed(maps)]


def asked(w, user, two=False, maps=2, cat=CAT, typ=TYPE, want=WANT):
    ps = params(user, two, maps, typ, want)
    return w[RP].RegionalParamStore(ps, Ghost("tree")).getregional(cat, NAME, REGION)


def lookups(s, w, seen):
    """no override: the table, directly or through either mapping"""
    cases = [(1, TYPE, WANT, "1 mapping")]
    for typ, want in (("IMAGE26", "IMAGE26"), ("COACCH", "IMAGE26"), ("IMAGE26", "COACCH"), ("ADRICE2010", "IMAGE26"), ("IMAGE26", "ADRICE2010"),
                      ("COACCH", "ADRICE2010"), ("COACCH", "World"), ("SSP5", "IMAGE26")):
        cases.append((2, typ, want, f"2 mappings, table by {typ}, model by {want}"))
    for maps, typ, want, what in cases:
        seen["columns"] = columns(w, maps)
        ok, alts, numeric = lookup(w.repo, FILE, typ, REGION, NAME, maps, want)

        def post(p):
            good = And(mapping_files(w.repo, maps), *ok)
            if p.kind == "raise":
                return [("raises only when something is missing", Not(good))]
            return [("raises when something is missing", And(*ok))] + value_is(p.value, alts, numeric)
        # files without their columns: covered by the first case
        whole = [] if maps == 1 or typ == want else [mapping_files(w.repo, maps)]
        missing = T.simp_bool(T.B(And(*ok))).op == "false"
        s.case(f"value of the table, {what}", lambda: asked(w, {R0: None, REGION: {}}, maps=maps, typ=typ, want=want), post, facts(maps) + whole,
               want=("raise",) if missing else ("return", "raise"), max_paths=1500)


def overrides(s, w, seen):
    """every kind of user entry"""
    seen["columns"] = columns(w, 0)
    ok, alts, numeric = lookup(w.repo, FILE, TYPE, REGION, NAME, 0)
    base = facts(0) + [seq(sterm(TYPE), sterm(WANT))]
    for what, entry, v in users():
        given = "override" in what

        def post(p):
            if given:
                if p.kind == "raise":
                    return FALSE
                r = p.value
                return [("the override", TRUE if r is v or type(r) is type(v) and not E.is_symbolic(v) and r == v else keq(r, v) if not isinstance(
                    v, (Ghost, bool)) and (isinstance(r, (Term, SymStr))) else FALSE)]
            if p.kind == "raise":
                return [("raises only when something is missing", Not(And(*ok)))]
            return [("raises when something is missing", And(*ok))] + value_is(p.value, alts, numeric)
        s.case(what, lambda: asked(w, {R0: {CAT: {NAME: Ghost("other region's")}}, REGION: entry}, maps=0), post, base, want=("return",))


def categories(s, w, seen):
    """each category has its own table; an unknown category is an error"""
    seen["columns"] = columns(w, 0)
    base = facts(0) + distinct([FILE, FILEB]) + [seq(sterm(TYPE), sterm(WANT)), seq(sterm(TYPEB), sterm(WANT))]
    for cat, file, typ in ((CAT, FILE, TYPE), (CATB, FILEB, TYPEB), (SymStr("category3"), None, None)):
        if file is not None:
            ok, alts, numeric = lookup(w.repo, file, typ, REGION, NAME, 0)

        def post(p):
            if file is None:
                return TRUE if p.kind == "raise" else FALSE
            if p.kind == "raise":
                return [("raises only when something is missing", Not(And(*ok)))]
            return [("raises when something is missing", And(*ok))] + value_is(p.value, alts, numeric)
        s.case(f"table of {cat!r}", lambda: asked(w, {REGION: {}}, True, 0, cat), post,
               base + (distinct([cat, CAT, CATB]) if file is None else []), want=("raise",) if file is None else ("return", "raise"))


def every_region(s, w):
    """get has the value of every region"""
    w.summaries[RP + ".RegionalParamStore.getregional"] = lambda self, c, n, r: Ghost("regional", sterm(c), sterm(n), r)
    regions = SymDict("regions")
    try:
        st = object.__new__(w[RP].RegionalParamStore)
        st.params, st.regions, st.categories = {"regions": regions}, regions, {}

        def post(p):
            if p.kind != "return":
                return FALSE
            return [("every region", for_all_regions(p.value, regions, lambda r, v: Ghost("regional", CAT.t, NAME.t, r).same(v)))]
        s.case("all regions", lambda: st.get(CAT, NAME), post)
    finally:
        w.summaries.clear()
