"""Runs the real InstantiatedModel on ghosts: every declared parameter of the real abstract models, an arbitrary configuration, an
arbitrary set of regions, a symbolic horizon.  Used by C05 and C06."""
from . import terms as T
from . import engine as E
from . import mcheck as M
from . import laws as L
from . import pyostub as P
from .symany import SymStr, SymDict, Ghost, Base, SymObj, slit, seq, pieces
from .c01 import leaves_of
from .boxes import raw
from .terms import num, var, app, fn, And, Or, Not, Implies, TRUE, FALSE, Unsupported, lift, Term

IP = "mimosa.concrete_model.instantiate_params"
START, END, DT = var("start", "I"), var("end", "I"), var("dt", "R")
# the ranges the configuration template allows
HORIZON = [num(1900) <= START, START <= num(2100), num(1901) <= END, END <= num(2300), num(0.5) <= DT, DT <= num(20), START <= END]


class Leaf:
    def __init__(self, node, path):
        self.type = node["type"]
        if "unit" in node:
            self.unit = Ghost("unit of", " - ".join(path))


class FakeParam(Base):
    PY = object

    def __init__(self, name, doc):
        self.name, self.doc = name, doc
        self.local_name = name

    def __repr__(self):
        return f"Param {self.name}"


class Abstract:
    def __init__(self, ps):
        self.ps = ps
        self.year = None

    def component_objects(self, ctype=None, **k):
        return list(self.ps)

    def create_instance(self, data=None, **k):
        return Ghost("concrete model", "of the instance data") if data is self.seen else Ghost("concrete model", "of other data")

    seen = None


class Store:
    def __init__(self, params, tree):
        self.params, self.param_parser_tree = params, tree
        self.regions = params["regions"]

    def get(self, category, paramname):
        return Ghost("regional", str(category), str(paramname))

    def getregional(self, category, paramname, region):
        return Ghost("regional of", str(category), str(paramname), region)


class Data:
    def interp_data(self, year, region, variable):
        return Ghost("data", lift(year), region, str(variable))


def declared(w, mods_list):
    """name -> declaration (doc) of every parameter of the real models"""
    out = {}
    _, params = w, M.concrete_params(M.load_template(w.repo))
    for mods in mods_list:
        b = M.Built(w, mods, params)
        if b.error:
            continue
        m = b.model if hasattr(b, "model") else b.m
        for k, c in m._comps.items():
            if isinstance(c, P.SParam):
                out.setdefault(k, c.doc)
    return out


class Instance:
    """one run of the real code"""

    def __init__(self, w, tpl, docs, over=None, custom=None):
        def rec(node, path):
            if path in (over or {}):
                return over[path]
            if "type" in node:
                return Ghost("configured", " - ".join(path))
            return {k: rec(v, path + (k,)) for k, v in node.items()}

        def tree(node, path):
            return Leaf(node, path) if "type" in node else {k: tree(v, path + (k,)) for k, v in node.items()}
        self.params = rec(tpl, ())
        self.params["time"] = {"start": START, "end": END, "dt": DT}
        self.regions = SymDict("regions")
        self.params["regions"] = self.regions
        self.custom = {} if custom is None else custom
        self.params["simulation"]["custom_mapping"] = self.custom
        self.tree = tree(tpl, ())
        self.abstract = Abstract([FakeParam(k, d) for k, d in docs.items()])
        self.store = Store(self.params, self.tree)
        self.data = Data()
        self.obj = None

    def go(self, w, create=False):
        self.obj = w[IP].InstantiatedModel(self.abstract, self.store, self.data, create)
        return self.obj


def summaries(w):
    def quant(self, *a, **k):
        if len(a) != 2 or k.get("only_magnitude", True) is not True or k.get("can_be_false", True) is not True:
            raise Unsupported("use of quant")
        return Ghost("converted", a[0], a[1])
    w.summaries["mimosa.common.units.Quantity.__call__"] = quant


def N_facts(N):
    """N is the smallest whole number of steps that reaches the end"""
    return [num(0) <= N, END <= START + N * DT, START + (N - 1) * DT < END]


def scalar(x):
    """{None: value} -> value"""
    if isinstance(x, dict) and len(x) == 1 and None in x:
        return x[None]
    raise Unsupported(f"scalar entry {x!r}")


def is_ghost(x, *key):
    return Ghost(*key).same(x) if isinstance(x, Ghost) else FALSE


def per_region(x):
    """entry for every region -> (bound region key, value) or None"""
    if isinstance(x, E.SymMap):
        return x.domain, x.bv, x.key, x.val, tuple(x.conds)
    ps = pieces(x) if isinstance(x, dict) else []
    if len(ps) == 1 and ps[0][0] == "map":
        return ps[0][1], ps[0][2], ps[0][3][0], ps[0][3][1], ps[0][4]
    raise Unsupported("entry per region")


def for_all_regions(x, regions, ok):
    """x is a dictionary with one entry for every region, and ok(region, value)"""
    dom, bv, key, val, conds = per_region(x)
    i = var("anyregion", "I")
    s = {bv.id: i}
    k, v = E.subst_any(key, s), E.subst_any(val, s)
    cs = [T.subst(c, s) for c in conds]
    rng = And(num(0) <= i, i < regions.n)
    return And(dom[1] == 0, dom[2] == regions.n, Implies(rng, And(*cs, regions.key(i).same(k), ok(regions.key(i), v))))


def nested(x):
    """dictionary over periods and regions -> (t domain, t var, region domain, region var, key, value)"""
    if isinstance(x, E.SymNested):
        o, n = x.outer, x.inner
        if isinstance(n, E.SymMap):
            return o.domain, o.bv, tuple(o.conds), n.domain, n.bv, (n.key, n.val), tuple(n.conds)
        if isinstance(n, E.SymIter):
            return o.domain, o.bv, tuple(o.conds), n.domain, n.bv, n.elem, tuple(n.conds)
    if isinstance(x, dict) and len(raw(x)) == 1:
        ((_, seg),) = raw(x)
        if hasattr(seg, "elem") and hasattr(seg, "domain"):
            e = seg.elem
            inner = getattr(e[1], "elem", None) if isinstance(e, tuple) and len(e) == 2 else None
            if inner is not None:
                return seg.domain, seg.bv, tuple(seg.conds), e[1].domain, e[1].bv, inner, tuple(e[1].conds)
    raise Unsupported(f"entry per period and region {type(x).__name__}")


def grid(x, regions, N, ok):
    """x has an entry for every (t, r), t = 0..N, r a region, and ok(t, r, value)"""
    td, tv, tc, rd, rv, (key, val), rc = nested(x)
    t, i = var("anyperiod", "I"), var("anyregion", "I")

    def s(y):
        return E.subst_any(y, {tv.id: t, rv.id: i})
    if not (isinstance(td, tuple) and td[0] == "range"):
        # regions outside, periods inside
        td, tv, tc, rd, rv, rc = rd, rv, rc, td, tv, tc
    if not (isinstance(td, tuple) and isinstance(rd, tuple) and td[0] == "range" and rd[0] == "range"):
        raise Unsupported("domain of the periods")
    if T.norm(lift(td[2]) - regions.n).const() == 0 and T.norm(lift(rd[2]) - regions.n).const() != 0:
        td, tv, tc, rd, rv, rc = rd, rv, rc, td, tv, tc
    k, v = s(key), s(val)
    cs = [T.subst(c, {tv.id: t, rv.id: i}) for c in tuple(tc) + tuple(rc)]
    if not (isinstance(k, tuple) and len(k) == 2 and isinstance(lift(k[0]), Term)):
        return FALSE
    rng = And(num(0) <= t, t <= N, num(0) <= i, i < regions.n)
    return [("for the periods 0 to N", And(td[1] == 0, td[2] == N + 1)), ("for every region", And(rd[1] == 0, rd[2] == regions.n)),
            ("every period and region", Implies(rng, And(*cs))),
            ("under its own period and region", Implies(rng, And(lift(k[0]) == t, regions.key(i).same(k[1])))),
            ("value", Implies(rng, ok(t, regions.key(i), v)))]
