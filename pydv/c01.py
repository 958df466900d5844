"""C01: contracts of the configuration parsers.

Every parser type is run on every kind of user value (None, True, False, integers, finite floats, NaN, infinities, strings,
lists, dictionaries, anything else) with symbolic content, symbolic bounds, options and switch, and its outcome compared with
the contract: off (false) exactly when declared, the converted value when convertible and within bounds, an error otherwise.
Element parsers and the unit conversion are ghosts that may accept or reject (the contract of C04).  GeneralParser.get and
parse_params are run over the shipped template with ghost parsers and an arbitrary nested user dictionary."""
import itertools

from . import terms as T
from . import engine as E
from . import mcheck as M
from . import pyostub as P
from .contract import Suite
from .symany import (SymStr, SymObj, SymList, SymDict, Ghost, Node, slit, seq, float_axioms, pieces, tostr, Base, sterm)
from .terms import Term, num, var, app, And, Or, Not, Implies, Iff, TRUE, FALSE, Unsupported

INF = float("inf")
OFF = ["False", "false", "no"]
ON = ["True", "true", "yes"]


class Pint:
    class DimensionalityError(Exception):
        pass

    class OffsetUnitCalculusError(Exception):
        pass

    class UndefinedUnitError(Exception):
        pass

    class DefinitionSyntaxError(Exception):
        pass


def make_world(repo=None):
    M.P.VAR_APPS.clear()
    P._hv.clear()
    E.Explorer.guard = None
    stubs = P.model_stubs()
    stubs["pint"] = P.Namespace("pint", **{k: v for k, v in vars(Pint).items() if isinstance(v, type)})
    w = E.World(stubs, repo)
    w.loop_specs, w.loop_proofs = [], []
    return w


def values():
    """(kind, value): kinds are exhaustive"""
    yield "None", None
    yield "True", True
    yield "False", False
    yield "int", var("n", "I")
    yield "float", var("x", "R")
    yield "nan", float("nan")
    yield "+inf", INF
    yield "-inf", -INF
    yield "str", SymStr("s")
    yield "list", SymList("L")
    yield "dict", SymDict("D")
    yield "other", SymObj("o")


def off(kind, v):
    if kind == "False":
        return TRUE
    if kind == "str":
        return Or(*[seq(v.t, slit(s)) for s in OFF])
    return FALSE


def same_value(r, v):
    """r is the very value v (same content, same type)"""
    if r is v:
        return TRUE
    if isinstance(v, Term):
        if isinstance(r, Term):
            return r == v if r.sort == v.sort or v.sort == "R" else FALSE
        return FALSE if isinstance(r, (bool, str, type(None), Base)) else r == v
    if isinstance(v, SymStr):
        s = sterm(r)
        return seq(v.t, s) if s is not None else FALSE
    if isinstance(v, Ghost):
        return v.same(r)
    if isinstance(v, Base):
        return FALSE
    if isinstance(r, Base):
        return FALSE
    if isinstance(r, Term):
        return FALSE if isinstance(v, (bool, str, type(None))) else r == v
    return TRUE if type(r) is type(v) and (r == v or (r != r and v != v)) else FALSE


def eqnum(r, t):
    """r is the number t (Term or Python number)"""
    if isinstance(r, (bool, str, Base, type(None), list, dict)):
        return FALSE
    if isinstance(r, Term):
        return r == t if isinstance(t, Term) else FALSE
    if isinstance(t, Term):
        return t == r
    return TRUE if r == t else FALSE


def within(t, lo, hi):
    cs = []
    if isinstance(t, float):           # nan, inf
        if t != t:
            return FALSE
        if lo is not None and t == -INF or hi is not None and t == INF:
            return FALSE
        return TRUE
    if lo is not None:
        cs.append(lo <= t)
    if hi is not None:
        cs.append(t <= hi)
    return And(*cs)


def conversions(ty, kind, v):
    """[(condition, number)] : when the value converts to the number type, and to what"""
    if ty == "float":
        if kind in ("True", "False"):
            return [(TRUE, num(int(v)))]
        if kind in ("int", "float"):
            return [(TRUE, v)]
        if kind in ("nan", "+inf", "-inf"):
            return [(TRUE, v)]
        if kind == "str":
            ok, nan, pi, ni = (app(f"float_{k}", v.t, sort="B") for k in ("ok", "nan", "pinf", "ninf"))
            return [(And(ok, nan), float("nan")), (And(ok, Not(nan), pi), INF), (And(ok, Not(nan), Not(pi), ni), -INF),
                    (And(ok, Not(nan), Not(pi), Not(ni)), app("float_val", v.t))]
        return []
    if kind in ("True", "False"):
        return [(TRUE, num(int(v)))]
    if kind == "int":
        return [(TRUE, v)]
    if kind == "float":
        return [(TRUE, T.fn("trunc", v, sort="I"))]
    if kind == "str":
        return [(app("int_ok", v.t, sort="B"), app("int_val", v.t, sort="I"))]
    return []


def contract(clauses):
    """clauses: [(condition, check of the result)]; anything else must raise"""
    def post(p):
        if p.kind == "return":
            return [("accepted only as declared", Or(*[And(c, T.B(f(p.value))) for c, f in clauses]))]
        return [("rejected only if not acceptable", And(*[Not(c) for c, _ in clauses]))]
    return post


def is_false(r):
    return TRUE if r is False else FALSE


class GhostParser:
    """contract of an element parser: accepts some values (result: a ghost), rejects the others"""

    def __init__(self, node, quant=None, *a, **k):
        self.name = node.get("name", "p")

    def parse(self, v):
        if isinstance(v, Ghost):
            key = Ghost(self.name, v)
        else:
            key = Ghost(self.name, str(v))
        if T.decide(accepts(self.name, v)):
            return key
        raise ValueError(f"{self.name} rejects")


def accepts(name, v):
    return Ghost(name, v if isinstance(v, Ghost) else str(v)).term("accepts")


def parsed(name, v):
    return Ghost(name, v if isinstance(v, Ghost) else str(v))


def register(world):
    f = world["mimosa.common.config.utils.parsers.PARSER_FACTORY"]
    f.parsers["ghost"] = GhostParser
    return f


def ghost_quant(value, *args, only_magnitude=True, can_be_false=True):
    """contract of Quantity.__call__ (C04) for a text or a number: off, converted, or an error"""
    if value is False and can_be_false:
        return False
    key = (tostr(value) if not isinstance(value, (str, Ghost)) else value)
    k = [sterm(key) if sterm(key) is not None else key] + [a if isinstance(a, str) else sterm(a) for a in args]
    if T.decide(app("convertible", *[slit(x) if isinstance(x, str) else x for x in k], sort="B")):
        return Ghost("converted")
    for n in ("DimensionalityError", "DefinitionSyntaxError", "OffsetUnitCalculusError", "UndefinedUnitError"):
        if T.decide(app("raises_" + n, sort="B")):
            raise getattr(Pint, n)(n)
    raise TypeError("pint")


def run(repo=None):
    w = make_world(repo)
    s = Suite("C01", w)
    f = register(w)
    q = ghost_quant
    ax = float_axioms()
    lo, hi = var("lo"), var("hi")

    def go(id, node, v, clauses, want=(), assume=()):
        s.case(id, lambda: f.create_parser(node, q).parse(v), contract(clauses), list(ax) + list(assume), want=want)

    for cbf in (False, True):
        base = {"descr": "d", "default": "dflt"}
        if cbf:
            base["can_be_false"] = True
        sfx = " can_be_false" if cbf else ""
        for kind, v in values():
            o = off(kind, v) if cbf else FALSE
            offc = [(o, is_false)]
            hyp = list(v.facts()) if hasattr(type(v), "facts") else []
            # --- numbers
            for ty in ("float", "int"):
                for b in (("min", "max"), ("min",), ("max",), ()):
                    node = dict(base, type=ty, **{k: {"min": lo, "max": hi}[k] for k in b})
                    l_, h_ = (lo if "min" in b else None), (hi if "max" in b else None)
                    cl = list(offc)
                    for c, t in conversions(ty, kind, v):
                        cl.append((And(Not(o), c, within(t, l_, h_)), lambda r, t=t: eqnum(r, t)))
                    go(f"{ty}{list(b)}{sfx} of {kind}", node, v, cl, assume=hyp)
            # --- text
            for ty in ("str", "filepath"):
                go(f"{ty}{sfx} of {kind}", dict(base, type=ty), v,
                   offc + [(Not(o), lambda r: same_value(r, tostr(v)))], assume=hyp)
            go(f"str_or_plain_dict{sfx} of {kind}", dict(base, type="str_or_plain_dict"), v,
               offc + [(Not(o), lambda r: same_value(r, v if kind == "dict" else tostr(v)))], assume=hyp)
            # --- booleans
            yes = {"True": TRUE, "int": (v == 1) if kind == "int" else None, "float": (v == 1) if kind == "float" else None,
                   "str": Or(*[seq(v.t, slit(x)) for x in ON]) if kind == "str" else None}.get(kind, FALSE)
            no = {"False": TRUE, "int": (v == 0) if kind == "int" else None, "float": (v == 0) if kind == "float" else None,
                  "str": Or(*[seq(v.t, slit(x)) for x in OFF]) if kind == "str" else None}.get(kind, FALSE)
            go(f"bool{sfx} of {kind}", dict(base, type="bool"), v,
               [(yes, lambda r: TRUE if r is True else FALSE), (no, is_false)], assume=hyp)
            # --- options
            opts = [SymStr("opt1"), SymStr("opt2"), SymStr("opt3")]
            for label, lst in (("texts", opts), ("text and numbers", [opts[0], var("optn", "I"), var("optx")])):
                cl = list(offc)
                for y in lst:
                    if isinstance(y, SymStr):
                        m = seq(y.t, v.t) if kind == "str" else FALSE
                    elif kind in ("int", "float"):
                        m = v == y
                    elif kind in ("True", "False"):
                        m = y == int(v)
                    else:
                        m = FALSE
                    cl.append((And(Not(o), m), lambda r: same_value(r, v)))
                node = dict(base, type="enum", values=lst, default=lst[0])
                go(f"enum of {label}{sfx} of {kind}", node, v, cl, assume=hyp)
            # --- quantities
            unit = SymStr("unit")
            conv = app("convertible", sterm(tostr(v)) if sterm(tostr(v)) is not None else tostr(v), unit.t, sort="B")
            go(f"quantity{sfx} of {kind}", dict(base, type="quantity", unit=unit), v,
               offc + [(And(Not(o), conv), lambda r: same_value(r, v))], assume=hyp)
            # --- lists, dictionaries
            if kind == "list":
                continue
            if kind != "dict":
                for ty in ("list", "dict"):
                    go(f"{ty}{sfx} of {kind}", dict(base, type=ty), v,
                       offc + ([(TRUE, lambda r, e=[] if ty == "list" else {}: TRUE if isinstance(r, type(e)) and r == e else FALSE)]
                               if kind == "None" else []), assume=hyp)
                go(f"datasource{sfx} of {kind}", dict(base, type="datasource"), v, offc, assume=hyp)
            else:
                go(f"list{sfx} of dict", dict(base, type="list"), v, [], assume=hyp)
        collections(s, f, q, base, sfx)
    unknown(s, f, q)
    lookup(s, w)
    template(s, w)
    return s


def collections(s, f, q, base, sfx):
    i = var("anyi", "I")
    for with_values in (True, False):
        node = dict(base, type="list")
        if with_values:
            node["values"] = {"type": "ghost", "name": "pv"}
        L = SymList("L")

        def post(p, L=L, with_values=with_values):
            inr = And(num(0) <= i, i < L.n)
            if p.kind == "raise":
                if not with_values:
                    return [("a list is accepted", FALSE)]
                ws = witnesses(p)
                return [("rejected only if an element is", Or(*[And(num(0) <= x, x < L.n, Not(accepts("pv", L.elem(x)))) for x in ws]))]
            r = p.value
            want = (lambda x: parsed("pv", x)) if with_values else (lambda x: x)
            out = [("same length and elements", Implies(inr, at(r, "seq", i, lambda e: want(L.elem(i)).same(e), num(0), L.n)))]
            if with_values:
                out.append(("accepted only if every element is", Implies(And(inr, *facts_at(p, i)), accepts("pv", L.elem(i)))))
            return out
        s.case(f"list{sfx} of list{' with element parser' if with_values else ''}", lambda: f.create_parser(node, q).parse(L),
               post, L.facts(), want=("return",) + (("raise",) if with_values else ()))
    for ks, vs in itertools.product((True, False), repeat=2):
        node = dict(base, type="dict")
        if ks:
            node["keys"] = {"type": "ghost", "name": "pk"}
        if vs:
            node["values"] = {"type": "ghost", "name": "pv"}
        D = SymDict("D")

        def post(p, D=D, ks=ks, vs=vs):
            inr = And(num(0) <= i, i < D.n)
            okat = lambda x: And(*([accepts("pk", D.key(x))] if ks else []), *([accepts("pv", D.val(x))] if vs else []))  # noqa: E731
            if p.kind == "raise":
                if not (ks or vs):
                    return [("a dictionary is accepted", FALSE)]
                return [("rejected only if an entry is", Or(*[And(num(0) <= x, x < D.n, Not(okat(x))) for x in witnesses(p)]))]
            K = (lambda x: parsed("pk", x)) if ks else (lambda x: x)
            V = (lambda x: parsed("pv", x)) if vs else (lambda x: x)
            out = [("same entries", Implies(inr, at(p.value, "map", i, lambda e: And(
                K(D.key(i)).same(e[0]), V(D.val(i)).same(e[1])), num(0), D.n)))]
            if ks or vs:
                out.append(("accepted only if every entry is", Implies(And(inr, *facts_at(p, i)), okat(i))))
            return out
        s.case(f"dict{sfx} of dict{' key parser' if ks else ''}{' value parser' if vs else ''}",
               lambda: f.create_parser(node, q).parse(D), post, D.facts(), want=("return",) + (("raise",) if ks or vs else ()))
    # data sources: every subset of the required keys, with and without another key
    need = ["variable", "unit", "scenario", "model", "file"]
    for sub in itertools.product((True, False), repeat=6):
        d = {k: Ghost("v", k) for k, b in zip(need + ["file, unit, model, scenario and variable"], sub) if b}
        node = dict(base, type="datasource", values={"type": "ghost", "name": "pv"})
        allok = And(*[accepts("pv", v) for v in d.values()])

        def post(p, d=d, full=all(sub[:5]), allok=allok):
            if p.kind == "return":
                r = p.value
                if not full or not isinstance(r, dict) or set(r) != set(d):
                    return FALSE
                return And(allok, *[parsed("pv", d[k]).same(r[k]) for k in d])
            return Not(allok) if full else TRUE
        s.case(f"datasource{sfx} with keys {sorted(d)}", lambda: f.create_parser(node, q).parse(d), post)


def witnesses(p):
    out = {}
    for c in p.cond:
        for v in vars_of(c):
            if str(v.args[0]).startswith("witness"):
                out[v.id] = v
    return list(out.values())


def vars_of(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            yield x
        todo.extend(a for a in x.args if isinstance(a, Term))


def facts_at(p, idx):
    out = []
    for dom, bv, conds, fact in p.foralls:
        if bv.sort == idx.sort:
            out.append(Implies(And(*[T.subst(c, {bv.id: idx}) for c in conds], dom[1] <= idx, idx < dom[2]),
                               T.subst(fact, {bv.id: idx})))
    return out


def at(coll, kind, i, check, lo, hi):
    """the collection consists of exactly the elements check() describes, one per index of [lo, hi)"""
    if isinstance(coll, SymList):
        e = coll.elem(i)
        return And(check(e), T.B(coll.n == hi))
    if isinstance(coll, SymDict):
        return And(check((coll.key(i), coll.val(i))), T.B(coll.n == hi))
    if not isinstance(coll, (E.SymIter, E.SymMap, list, dict)):
        return FALSE
    ps = pieces(coll)
    if not ps:
        return FALSE          # empty although an index of the range exists
    if len(ps) != 1 or ps[0][0] != kind:
        return FALSE if all(x[0] in ("item", "elem") for x in ps) else Unsupp("shape of the built collection")
    _, dom, bv, elem, conds = ps[0]
    if not (isinstance(dom, tuple) and dom[0] == "range"):
        return Unsupp("shape of the built collection")
    e = E.subst_any(elem, {bv.id: i})
    c = [T.subst(x, {bv.id: i}) for x in conds]
    return And(T.B(dom[1] == lo), T.B(dom[2] == hi), *c, check(e))


def Unsupp(msg):
    raise Unsupported(msg)


def unknown(s, f, q):
    s.case("unknown parser type", lambda: f.create_parser({"type": "no such type"}, q), lambda p: TRUE if p.kind == "raise" else FALSE)
    opts = [SymStr("opt1"), SymStr("opt2")]
    d = SymStr("dflt")
    s.case("enum whose default is no option", lambda: f.create_parser({"type": "enum", "values": opts, "default": d}, q),
           lambda p: Or(*[seq(d.t, o.t) for o in opts]) if p.kind == "return" else And(*[Not(seq(d.t, o.t)) for o in opts]))


class Rec:
    """parser that only records what it is given"""

    def __init__(self, node, quant=None, *a, **k):
        pass


def lookup(s, w):
    """GeneralParser.get: the user's value if there is one, the default otherwise, parsed once"""
    GP = w["mimosa.common.config.utils.parsers.GeneralParser"]

    class Probe(GP):
        def parse(self, value):
            return Ghost("parse", value if isinstance(value, Ghost) else repr(value))
    for depth in (1, 2, 3, 4):
        path = tuple(f"k{n}" for n in range(depth))
        user = Node("user", (), {path})
        dflt = Ghost("default")

        def post(p, user=user, path=path, dflt=dflt):
            if p.kind != "return":
                return FALSE
            r = p.value
            pres = user.present(path)
            return And(Implies(pres, Ghost("parse", Ghost("user", *path)).same(r)),
                       Implies(Not(pres), Ghost("parse", dflt).same(r)))
        s.case(f"get at depth {depth}", lambda: Probe({"type": "str", "default": dflt}).get(user, list(path)), post)


def leaves_of(tpl, path=()):
    for k, n in tpl.items():
        p = path + (k,)
        if not isinstance(n, dict) or "type" in n:
            yield p, n
        else:
            yield from leaves_of(n, p)


def template(s, w):
    """parse_params over the shipped template: every declared parameter, parsed by a parser made from its own declaration,
    with its own path, and nothing else"""
    import copy
    tpl = M.load_template(w.repo)
    want = dict(leaves_of(tpl))
    pc = w["mimosa.common.config.parseconfig"]
    made = []

    class G:
        def __init__(self, node):
            self.node = node
            self.type = node["type"]
            made.append(self)

        def get(self, user, keys):
            return Ghost("got", " - ".join(keys), id(self))

    class F:
        def create_parser(self, node, quant):
            return G(node)
    old, orig = pc.PARSER_FACTORY, copy.deepcopy(tpl)
    pc.PARSER_FACTORY = F()
    user = Node("user", (), set(want))
    try:
        def thunk():
            return pc.parse_params(tpl, user, return_parser_tree=True)

        def post(p):
            if p.kind != "return":
                return [("template is parsed", FALSE)]
            d, tree = p.value
            out = []
            got, gt = dict(flat(d)), dict(flat(tree))
            for path, node in want.items():
                g, pr = got.pop(path, None), gt.pop(path, None)
                ok = isinstance(pr, G) and pr.node == node and isinstance(g, Ghost) and g.key == ("got", " - ".join(path), id(pr))
                out.append((" - ".join(path), TRUE if ok else FALSE))
            out.append(("no other parameters", TRUE if not got and not gt else FALSE))
            out.append(("template unchanged", TRUE if tpl == orig else FALSE))
            return out
        s.case("template", thunk, post)
        s.case("template without the tree", lambda: pc.parse_params(tpl, user), lambda p: TRUE if p.kind == "return" and set(
            dict(flat(p.value))) == set(want) else FALSE)
    finally:
        pc.PARSER_FACTORY = old


def flat(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, path + (k,))
        else:
            yield path + (k,), v
