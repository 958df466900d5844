"""S03: contracts of MIMOSA.save and save_output: rows, columns, format, names of the files, parameter file.

The real code saves the real models (abstract ones, components by the contract of pyomo's modelling layer); tables and files are
ghosts whose contents are compared with the model's own components."""
from . import terms as T
from . import engine as E
from . import pyostub as P
from . import mcheck as M
from . import laws as L
from . import ghostdata as G
from .contract import Suite
from .loops import Segment
from .boxes import raw
from .engine import SymIter
from .symany import SymStr, Base, Ghost, SymObj, sterm, slit, seq, tostr
from .mcheck import t_, r_
from .terms import num, var, app, And, Or, Not, Implies, TRUE, FALSE, Unsupported, lift, Term

MM = "mimosa.mimosa"
SV = "mimosa.export.save"
PU = "mimosa.common.pyomo_utils"


class Table(Base):
    """a table made of rows"""
    PY = object

    def __init__(self, rows, columns, log):
        self.rows, self.columns, self.log = rows, columns, log

    def to_csv(self, path, **k):
        self.log.append(("csv", path, self, dict(k)))

    def copy(self):
        return self


class Text(Base):
    """encoded text"""
    PY = bytes

    def __init__(self, t):
        self.t = t


class Digest(Base):
    PY = object

    def __init__(self, name, parts):
        self.name, self.parts = name, list(parts)

    def update(self, x):
        if not isinstance(x, Text):
            raise Unsupported("hashed value")
        self.parts.append(x.t)

    def hexdigest(self):
        return Hex(app("hexdigest", slit(self.name), *self.parts, sort="S"))


class Hex(SymStr):
    def __vc_getitem__(self, k):
        if isinstance(k, slice) and k.step is None and isinstance(k.start, (int, type(None))) and isinstance(k.stop, (int, type(None))):
            if not range(32)[k]:
                return ""
            return SymStr(app("part of", self.t, slit(f"{k.start}:{k.stop}"), sort="S"))
        raise Unsupported("part of a digest")


class File(Base):
    PY = object

    def __init__(self, path, mode, log):
        self.path, self.mode, self.log = path, mode, log

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, x):
        self.log.append(("write", self.path, self.mode, x))

    def close(self):
        return None


class JsonText(SymStr):
    def __init__(self, value):
        super().__init__(app("json", *flat(value), sort="S"))
        self.jvalue = value

    def __vc_strmeth__(self, meth, *a, **k):
        if meth == "encode":
            return Text(self.t)
        return SymStr.__vc_strmeth__(self, meth, *a, **k)

    def encode(self, *a):
        return Text(self.t)


def flat(x):
    """every leaf of a parameter dictionary with its place, as terms"""
    out = []
    if isinstance(x, dict):
        out.append(slit("{"))
        for k, v in x.items():
            out += [key(k)] + flat(v)
        return out + [slit("}")]
    if isinstance(x, (list, tuple)):
        out.append(slit("["))
        for v in x:
            out += flat(v)
        return out + [slit("]")]
    if x is None or isinstance(x, bool):
        return [slit(f"<{x}>")]
    if sterm(x) is not None:
        return [sterm(x)]
    if isinstance(lift(x), Term):
        return [lift(x)]
    raise Unsupported(f"{x!r} in a file")


def key(k):
    """JSON: keys are text"""
    if isinstance(k, bool) or k is None:
        return slit({True: "true", False: "false", None: "null"}[k])
    if isinstance(k, (int, float)):
        return slit(repr(k))
    if isinstance(k, str):
        return slit(k)
    raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")


def keys_ok(x):
    if isinstance(x, dict):
        for k, v in x.items():
            key(k)
            keys_ok(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            keys_ok(v)


def make_world(repo):
    st, log, pd = G.stubs()
    events = []
    ospath = st["os"]

    def makedirs(p, mode=0o777, exist_ok=False):
        events.append(("folder", p, exist_ok))
    ospath.makedirs = makedirs

    def frame(rows=None, *a, columns=None, **k):
        if a or k or columns is None:
            raise Unsupported("use of DataFrame")
        return Table(rows, columns, events)
    st["pandas"].DataFrame = frame
    js = P.Namespace("json")

    def dumps(x, **k):
        if set(k) - {"default", "sort_keys", "indent", "ensure_ascii"}:
            raise Unsupported("options of json")
        if k.get("default") is None:
            keys_ok(x)
        return JsonText(x)

    def dump(x, fh, **k):
        if not isinstance(fh, File):
            raise Unsupported("file of json.dump")
        fh.write(dumps(x, **k))
    js.dumps, js.dump = dumps, dump
    st["json"] = js
    hl = P.Namespace("hashlib")
    for n in ("md5", "sha1", "sha256", "blake2b"):
        def h(x=None, n=n, **k):
            if x is not None and not isinstance(x, Text):
                raise Unsupported("hashed value")
            return Digest(n, [] if x is None else [x.t])
        setattr(hl, n, h)
    st["hashlib"] = hl
    real = st["numpy"].array

    def array(x, *a, **k):
        if isinstance(x, P.SSet):
            i = x._iter()
            return E.SymArr(i.domain, i.bv, i.elem)
        return real(x, *a, **k)
    st["numpy"].array = st["numpy"].asarray = array
    old = P.model_stubs
    P.model_stubs = lambda: st
    try:
        w, params = M.make_world(repo)
    finally:
        P.model_stubs = old

    def opened(path, mode="r", *a, **k):
        return open(path, mode, *a, **k) if "r" in mode else File(path, mode, events)
    w.builtins["open"] = opened
    w.events = events
    return w, params


# what is in the parsed parameters besides the default ones
PARAMS = {
    "plain": {},
    "years": {"simulation": {"simulationmode": True, "constraint_variables": {"a variable": {2020: {"USA": 1.5}, 2030.5: {"USA": 2}}},
                             "list": [1, "y", None], "n": {1: {2: {3: "deep"}}}}},
    "tuples": {"simulation": {"custom_mapping": {"baseline_GDP": {(0, "USA"): 1.5, (1, "USA"): 2.5}}}},
}


def params_of(name, default):
    """dictionaries with arbitrary values at the leaves"""
    cnt = [0]

    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items()}
        if isinstance(x, list):
            return [go(v) for v in x]
        cnt[0] += 1
        if isinstance(x, bool) or x is None:
            return x
        if isinstance(x, str):
            return SymStr(f"leaf{cnt[0]}")
        return var(f"leaf{cnt[0]}")
    return go({**default, **PARAMS[name]})


def same_json(a, b):
    """the value b as read back from the file is the value a"""
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return FALSE
        ka = {k if not isinstance(k, tuple) else "<tuple>" + str(k): v for k, v in a.items()}
        kb = {}
        for k, v in b.items():
            kb[k] = v
        out = []
        for (k, v), (k2, v2) in zip(a.items(), b.items()):
            if not isinstance(k, tuple) and k not in b:
                return FALSE
            out.append(same_json(v, b[k] if not isinstance(k, tuple) else v2))
        return And(*out) if out else TRUE
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return FALSE
        return And(*[same_json(x, y) for x, y in zip(a, b)]) if a else TRUE
    if a is None or isinstance(a, bool):
        return TRUE if a is b else FALSE
    if sterm(a) is not None:
        return seq(sterm(a), sterm(b)) if sterm(b) is not None else FALSE
    if isinstance(lift(b), Term) and lift(b).sort != "S":
        return lift(a) == lift(b)
    return FALSE


def row_parts(rows):
    """rows of the table: (how often, elements)"""
    if isinstance(rows, SymIter) and not rows.conds:
        return [(rows.domain, rows.bv, rows.elem)]
    if not isinstance(rows, (list, tuple)):
        raise Unsupported("rows of a table")
    out = []
    for x in raw(rows):
        if isinstance(x, Segment):
            if x.conds:
                raise Unsupported("filtered rows")
            out.append((x.domain, x.bv, x.elem))
        else:
            out.append((None, None, x))
    return out


def cells(x):
    """elements of one row or of the columns: fixed ones and a run over the periods"""
    if isinstance(x, tuple):
        x = list(x)
    if not isinstance(x, list):
        raise Unsupported("cells of a row")
    fixed, run = [], []
    for c in raw(x):
        if isinstance(c, Segment):
            if c.conds:
                raise Unsupported("filtered cells")
            run.append((c.domain, c.bv, c.elem))
        elif isinstance(c, SymIter):
            run.append((c.domain, c.bv, c.elem))
        elif run:
            raise Unsupported("cells after the periods")
        else:
            fixed.append(c)
    return fixed, run


def periods(run, want, idx):
    """the run covers the periods in order; its element at period t is want"""
    if len(run) != 1:
        raise Unsupported("several runs of periods")
    dom, bv, elem = run[0]
    if not (isinstance(dom, tuple) and dom[0] == "range"):
        return FALSE
    e = E.subst_any(elem, {bv.id: T.canon(dom[1] + idx)})
    if isinstance(want, SymStr):
        if sterm(e) is None:
            return FALSE
        eq = seq(sterm(e), want.t)
    else:
        if not isinstance(lift(e), Term) or sterm(e) is not None:
            return FALSE
        eq = lift(e) == want
    return And(dom[2] - dom[1] == var("TF", "I") + 1, eq)


def table(tab, items, values):
    """the rows are exactly those of the components"""
    out = []
    cols, years = cells(tab.columns)
    out.append(("columns", TRUE if cols == ["Variable", "Region", "Unit"] else FALSE))
    out.append(("year columns", periods(years, SymStr(app("format g", var("T0YEAR", "I") + t_ * var("DT"), sort="S")), t_)))
    seen = {}
    for dom, bv, row in row_parts(tab.rows):
        if dom is None and isinstance(row, SymIter):
            raise Unsupported("row")
        if dom is not None:
            row = E.subst_any(row, {bv.id: r_})
        fixed, run = cells(row)
        name = fixed[0] if fixed else None
        if not isinstance(name, str) or name not in items:
            out.append((f"row {name!r}", FALSE))
            continue
        c, dims = items[name]
        seen[name] = seen.get(name, 0) + 1
        regional = dims == ("t", "regions")
        if len(fixed) != 3:
            out.append((f"{name} has its labels", FALSE))
            continue
        if regional:
            lab_ok = TRUE if dom == "regions" and isinstance(fixed[1], Term) and fixed[1].sort == "Reg" and fixed[1] is r_ else FALSE
        else:
            lab_ok = TRUE if dom is None and fixed[1] == "Global" else FALSE
        out.append((f"{name} per region" if regional else f"{name} once, Global", lab_ok))
        u = sterm(fixed[2])
        out.append((f"{name} unit", seq(u, app("unit of", slit(name), sort="S")) if u is not None else FALSE))
        ex = app(name, t_, r_) if regional else app(name, t_)
        if isinstance(c, P.SParam):
            ex = values[name]
        out.append((f"{name} values in period order", periods(run, ex, t_)))
    for n in items:
        out.append((f"{n} has its row", TRUE if seen.get(n) == 1 else FALSE))
    return out


FACTS = [num(0) <= t_, t_ <= var("TF", "I"), num(1) <= var("TF", "I"), num(0) < var("DT")]


def fmt(v):
    return v if isinstance(v, SymStr) else SymStr(sterm(v)) if sterm(v) is not None else v


def joined(*parts):
    return sterm(SymStr.concat(list(parts)))


def files(events, name, folder, suffix, params, jsonable=True):
    """what is on disk afterwards"""
    out = []
    csvs = [(i, e) for i, e in enumerate(events) if e[0] == "csv"]
    writes = [(i, e) for i, e in enumerate(events) if e[0] == "write"]
    folders = [(i, e) for i, e in enumerate(events) if e[0] == "folder"]
    if len(csvs) != 1 or len(writes) != 1:
        raise Unsupported("files written")
    (i, (_, path, tab, k)), (j, (_, ppath, mode, content)) = csvs[0], writes[0]
    if set(k) - {"float_format", "index", "na_rep", "sep", "encoding"} or k.get("sep", ",") != "," or not isinstance(content, JsonText):
        raise Unsupported("how the files are written")
    out.append(("six significant digits", TRUE if k.get("float_format") in ("%.6g", "{:.6g}".format) else FALSE))
    out.append(("no index column", TRUE if k.get("index", True) is False else FALSE))
    out.append(("written anew", TRUE if mode in ("w", "wt") else FALSE))
    out.append(("folder made", TRUE if any(f < min(i, j) and e[2] is True and (
        any(T.simp_bool(seq(sterm(e[1]), joined(folder, x))).op == "true" for x in ("", "/"))) for f, e in folders) else FALSE))
    p, q = sterm(path), sterm(ppath)
    if p is None or q is None:
        raise Unsupported("path of a file")
    if suffix:
        ds = []
        find(p, ds)
        if len(ds) != 1:
            return tab, out + [("a suffix", FALSE)]
        out.append(("name", seq(p, joined(folder, "/", name, "_", SymStr(ds[0]), ".csv"))))
        have = {x.id for x in subterms(ds[0])}
        out.append(("the suffix depends on every parameter", TRUE if all(x.id in have for x in flat_leaves(params)) else FALSE))
        out.append(("and on nothing else", FALSE if have & {name.t.id, folder.t.id if isinstance(folder, SymStr) else -1} else TRUE))
    else:
        out.append(("name", seq(p, joined(folder, "/", name, ".csv"))))
    out.append(("parameter file next to it", seq(q, joined(SymStr(p), ".params.json"))))
    out.append(("the run's parameters", same_json(params, content.jvalue)))
    return tab, out


def flat_leaves(x):
    return [lift(v) if sterm(v) is None else sterm(v) for v in leaves(x)]


def leaves(x):
    if isinstance(x, dict):
        return [y for v in x.values() for y in leaves(v)]
    if isinstance(x, list):
        return [y for v in x for y in leaves(v)]
    return [x] if isinstance(x, (Term, SymStr)) else []


def subterms(t, out=None):
    out = [] if out is None else out
    if isinstance(t, Term):
        out.append(t)
        for a in t.args:
            subterms(a, out)
    return out


def find(t, out):
    """outermost parts of digests in a path"""
    if isinstance(t, Term):
        if t.op == "app" and t.args[0] in ("part of", "hexdigest"):
            out.append(t)
            return
        for a in t.args:
            find(a, out)


def run(repo=None):
    w, params = make_world(repo)
    s = Suite("S03", w)
    s.artefact = (TypeError,)
    seen = set()
    for mods in pick():
        s.section(model, w, params, mods, seen)
    s.section(units, w)
    w.summaries.clear()
    return s


def pick():
    from .s01 import pick as p
    return p()


def units_of(w):
    def get_unit(x):
        if not isinstance(x, P.Component) or not isinstance(x.name, str):
            raise Unsupported("unit of something else")
        return SymStr(app("unit of", slit(x.name), sort="S"))
    w.summaries[PU + ".get_unit"] = get_unit


def model(s, w, params, mods, seen):
    b = M.Built(w, mods, params)
    if b.error:
        raise Unsupported(f"model {mods}: {b.error[1]}")
    m = b.model
    units_of(w)
    tag = " ".join(mods.key())
    items = {}
    for n, c in m._comps.items():
        if isinstance(c, (P.SVar, P.SParam)):
            dims = c.kinds()
            if isinstance(c, P.SVar):
                s.add(f"{tag}: {n} is indexed by periods, and regions if any", "discharged" if dims in (("t",), ("t", "regions")) else "failed", "nf",
                      f"index sets {dims}")
            if isinstance(c, P.SVar) or dims == ("t", "regions"):
                items[n] = (c, dims)
    full = not seen
    for what in (("name", "suffix") + tuple(PARAMS)) if full else ("name",):
        given = params_of(what if what in PARAMS else "plain", params)
        suffix = what != "name"
        name, folder = SymStr("name"), "output" if what == "name" else SymStr("folder")

        def thunk():
            del w.events[:]
            cls = w[MM].MIMOSA
            o = object.__new__(cls)
            o.params, o.concrete_model, o.last_saved_filename = given, m, None
            kw = {} if what == "name" else {"folder": folder, "hash_suffix": True}
            o.save(name, **kw)
            values = {n: lift(c.__vc_getitem__((t_, r_))) for n, (c, _) in items.items() if isinstance(c, P.SParam)}
            return list(w.events), o.last_saved_filename, values

        def post(p):
            if p.kind == "raise":
                return [("saves", FALSE)]
            ev, last, values = p.value
            tab, out = files(ev, name, folder, suffix, given)
            if what in ("name", "suffix"):
                out += table(tab, items, values)
            return out
        s.case(f"{tag}: save {what}", thunk, post, FACTS, want=("return",))
    if full:
        def thunk2():
            del w.events[:]
            w[SV].save_output(params_of("plain", params), m, SymStr("name"), False, SymStr("folder"))
            return list(w.events)

        def post2(p):
            if p.kind == "raise":
                return FALSE
            return files(p.value, SymStr("name"), SymStr("folder"), False, params_of("plain", params))[1]
        s.case(f"{tag}: save_output in a folder", thunk2, post2, FACTS)
    seen.add(tag)


UNITS = ["USD_2005/a", "GtCO2/a", "GtCO2", "degC_above_PI", "dimensionless", "ppm/atm", "USD_2005/a/person", "t/a/atm", "fraction_of_GDP", "1/a",
         "kg/acre", "a/s", "USD_2005/kg", "billion_people"]


def units(s, w):
    """the text of a unit: pyomo's own, years written yr"""
    import re
    w.summaries.clear()
    mod = w[PU]
    for u in UNITS + [None]:
        class U:
            def get_units(self, x):
                return u
        want = "" if u is None else "/".join("yr" if i and p == "a" else p for i, p in enumerate(u.split("/")))
        old = mod.__dict__.get("units") if hasattr(mod, "__dict__") else None
        mod.units = U()
        try:
            s.case(f"text of unit {u}", lambda: mod.get_unit(P.SVar()), lambda p: TRUE if p.kind == "return" and p.value == want else FALSE)
        finally:
            mod.units = old
