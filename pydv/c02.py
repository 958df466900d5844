"""C02: contracts of the key check.

flatten: for a dictionary with arbitrarily many arbitrary entries, every entry is either recorded under its own path (leaf) or
descended into with its own path, and nothing else (step of the induction over the nesting depth; the recursive call is
replaced by that contract).  create_leaf_criterium: for every path of the shipped template, and for paths that leave it with
an arbitrary key.  check_obsolete_params: raises exactly when some user path is no template path, for sets of any size.
check_params: hands the user's keys, the parsed parameters and the parser tree to that check and ends with its error.
End to end: every template path extended with arbitrary unknown keys."""
import copy

from . import terms as T
from . import engine as E
from . import mcheck as M
from .contract import Suite
from .c01 import make_world, leaves_of
from .symany import SymStr, SymDict, Ghost, GhostSet, slit, seq, pieces, SymList
from .terms import num, var, app, And, Or, Not, Implies, TRUE, FALSE, Unsupported

NODES = "mimosa.common.config.utils.nested_dict"
PC = "mimosa.common.config.parseconfig"


class Scalar(Ghost):
    """some value that is no dictionary"""
    PY = object

    def __bool__(self):
        raise Unsupported("truth of a user value")


class Leaf:
    """a parser of the tree: only its type is known"""

    def __init__(self, type):
        self.type = type

    def __vc_contains__(self, x):
        raise TypeError("argument of type 'Parser' is not iterable")

    def __vc_getitem__(self, x):
        raise TypeError("'Parser' object is not subscriptable")


class KeyPath(Ghost):
    """a key path of unknown length: can be printed part by part, nothing else"""

    def __iter__(self):
        return iter([KeyPart("part of", *self.key)])


class KeyPart(Ghost):
    def __vc_conv__(self, name):
        if name == "str":
            return SymStr(app("str_of", *self.flat(), sort="S"))
        raise Unsupported(f"{name} of {self!r}")


class Paths(GhostSet):
    ELEM = KeyPath


class Marker:
    def __repr__(self):
        return "<descended into>"


DESCENT = Marker()


def tree_of(tpl):
    if not isinstance(tpl, dict) or "type" in tpl:
        return Leaf(tpl["type"])
    return {k: tree_of(v) for k, v in tpl.items()}


def parsed_of(tpl, path=()):
    if "type" in tpl:
        return SymDict(" - ".join(path)) if tpl["type"] in ("dict", "datasource") else Scalar("parsed", " - ".join(path))
    return {k: parsed_of(v, path + (k,)) for k, v in tpl.items()}


def nest(path, v):
    for k in reversed(path):
        v = {k: v}
    return v


def run(repo=None):
    w = make_world(repo)
    s = Suite("C02", w)
    tpl = M.load_template(w.repo)
    kw = check(s, w)
    flatten(s, w, kw)
    criterium(s, w, tpl)
    endtoend(s, w, tpl)
    caller(s, w)
    return s


def check(s, w):
    """check_obsolete_params over ghost key sets; returns how it calls flatten"""
    pc = w[PC]
    user, parsed, tree = Ghost("user"), Ghost("parsed"), Ghost("tree")
    calls = []
    crit = Ghost("criterium")

    def fl(d, *a, **k):
        calls.append((a, dict(k)))
        if d is user:
            return Paths("user keys")
        if d is parsed:
            return Paths("parsed keys")
        raise Unsupported("flatten of something else")
    w.summaries[NODES + ".flatten"] = fl
    w.summaries[PC + ".create_leaf_criterium"] = lambda t: crit if t is tree else Ghost("criterium of something else")
    try:
        def post(p):
            g = Paths("user keys")
            bad = num(0) < (g - Paths("parsed keys")).count()
            used = all(any(x is crit for x in list(a) + list(k.values())) for a, k in calls)
            return [("raises exactly when a user key is no template key", Not(bad) if p.kind == "return" else bad),
                    ("keys are those of the leaf criterium", TRUE if used and calls else FALSE)]
        s.case("check_obsolete_params", lambda: pc.check_obsolete_params(user, parsed, tree), post, want=("return", "raise"))
    finally:
        w.summaries.clear()
    kws = [k for a, k in calls]
    rest = dict(kws[0]) if kws else {}
    rest.pop("leaf_criterium", None)
    return rest


def flatten(s, w, kw):
    """one generic level, for paths of 0 to 5 keys above it"""
    fl = w[NODES + ".flatten"]
    rec = NODES + ".flatten.<locals>._recursive_traverse"
    i = var("anyi", "I")
    for depth in range(6):
        prefix = [SymStr(f"key{n}") for n in range(depth)]
        U = SymDict("U")
        state = {"n": 0}

        def summary(keys, node, state=state, prefix=prefix):
            state["n"] += 1
            raw = w.functions[rec]
            if state["n"] == 1:
                if list(keys) or node is not U:
                    raise Unsupported("first call of the traversal")
                w.unfolding.discard(rec)
                return raw(list(prefix), node)
            cells = [c.cell_contents for c in raw.__closure__ or () if isinstance(c.cell_contents, dict)]
            if len(cells) != 1:
                raise Unsupported("result of the traversal")
            w.rt.setitem(cells[0], DESCENT, (list(keys), node))
            return None
        leaf = lambda keys, node: Ghost("at", keys[-1], node).term("leaf")   # noqa: E731

        def thunk(state=state, U=U, leaf=leaf):
            state["n"] = 0
            return fl(U, leaf_criterium=leaf, **kw)

        def post(p, prefix=prefix, U=U, leaf=leaf):
            if p.kind != "return":
                return FALSE
            inr = And(num(0) <= i, i < U.n)
            k, v = U.key(i), U.val(i)
            isleaf = leaf([k], v)
            out, rec_, oth = [], [], 0
            for pc in pieces(p.value):
                if pc[0] != "map":
                    oth += 1
                    continue
                _, dom, bv, elem, conds = pc
                sub = {bv.id: i}
                e = E.subst_any(elem, sub)
                c = And(*[T.subst(x, sub) for x in conds])
                if e[0] is DESCENT:
                    rec_.append((dom, e, c))
                else:
                    out.append((dom, e, c))
            if oth or len(out) != 1 or len(rec_) != 1:
                raise Unsupported("shape of the flattened dictionary")
            dom, e, c = out[0]
            goals = [("leaves are recorded, and only they", Implies(inr, And(Implies(isleaf, c), Implies(c, isleaf)))),
                     ("under their own path with their own value", Implies(And(inr, c), And(samepath(e[0], prefix + [k]), v.same(e[1])))),
                     ("of the whole dictionary", And(dom[1] == 0, dom[2] == U.n))]
            dom, e, c = rec_[0]
            goals += [("other entries are descended into", Implies(inr, And(Implies(Not(isleaf), c), Implies(c, Not(isleaf))))),
                      ("with their own path", Implies(And(inr, c), And(samepath(tuple(e[1][0]), prefix + [k]), v.same(e[1][1])))),
                      ("of the whole dictionary (2)", And(dom[1] == 0, dom[2] == U.n))]
            return goals
        w.summaries[rec] = summary
        try:
            s.case(f"flatten below {depth} keys", thunk, post, U.facts(), want=("return",))
        finally:
            w.summaries.clear()
    s.case("flatten of an empty dictionary", lambda: fl({}, leaf_criterium=lambda k, n: True, **kw),
           lambda p: TRUE if p.kind == "return" and len(p.value) == 0 else FALSE)


def samepath(got, want):
    if isinstance(got, list):
        got = tuple(got)
    if not isinstance(got, tuple):
        raise Unsupported("path of a flattened entry")
    if len(got) != len(want):
        return FALSE
    cs = []
    for a, b in zip(got, want):
        if isinstance(b, SymStr):
            cs.append(b.eq(a) if isinstance(a, (str, SymStr)) else FALSE)
        else:
            cs.append(b.same(a))
    return And(*cs)


def sections(tpl, path=()):
    yield path, tpl
    for k, v in tpl.items():
        if isinstance(v, dict) and "type" not in v:
            yield from sections(v, path + (k,))


def criterium(s, w, tpl):
    """leaf criterium: parameters are leaves unless they hold a dictionary although they are no dictionary parameter;
    sections that hold a dictionary are no leaves"""
    crit = w[PC].create_leaf_criterium(tree_of(tpl))
    kinds = [("a value", Scalar("v"), False), ("a dictionary", SymDict("d"), True), ("an empty dictionary", {}, True)]
    for path, node in leaves_of(tpl):
        for kn, v, isd in kinds:
            free = node["type"] in ("dict", "datasource")
            want = TRUE if free or not isd else FALSE

            def post(p, want=want):
                return And(T.B(truth(p.value)), want) if want is TRUE and p.kind == "return" else (
                    Not(T.B(truth(p.value))) if p.kind == "return" else FALSE)
            if isd and not free:        # a dictionary for a plain parameter: must not pass as a leaf of the same path
                s.case(f"criterium: {' - '.join(path)} holding {kn}", lambda: crit(list(path), v), post)
            else:
                s.case(f"criterium: {' - '.join(path)} holding {kn}", lambda: crit(list(path), v), post)
    for path, _ in sections(tpl):
        if not path:
            continue
        for kn, v, isd in kinds[1:]:
            s.case(f"criterium: section {' - '.join(path)} holding {kn}", lambda: crit(list(path), v),
                   lambda p: Not(T.B(truth(p.value))) if p.kind == "return" else FALSE)


def truth(v):
    if isinstance(v, (bool, T.Term)):
        return v
    raise Unsupported("truth of the criterium")


def endtoend(s, w, tpl):
    pc = w[PC]
    tree, parsed = tree_of(tpl), parsed_of(tpl)
    k, k2 = SymStr("unknown"), SymStr("unknown2")
    deep = nest(("a", "b"), Scalar("v"))

    def go(id, user, ok, assume=()):
        snap = repr(user)
        s.case(id, lambda: pc.check_obsolete_params(user, parsed, tree),
               lambda p: TRUE if (p.kind == "return") == ok and repr(user) == snap else FALSE, assume)
    for path, node in leaves_of(tpl):
        name = " - ".join(path)
        go(f"known key {name}", nest(path, Scalar("v")), True)
        if node["type"] in ("dict", "datasource"):
            go(f"known key {name} with free contents", nest(path, {k: {k2: Scalar("v")}}), True)
            go(f"known key {name} with empty contents", nest(path, {}), True)
        else:
            go(f"key below {name}", nest(path, {k: Scalar("v")}), False)
    go("no key", {}, True)
    for path, sec in sections(tpl):
        name = " - ".join(path) or "top level"
        if path:
            go(f"empty section {name}", nest(path, {}), True)
        away = [Not(seq(k.t, slit(x))) for x in sec]
        known = next(iter(leaves_of(sec)))[0]
        for kn, v in (("a value", Scalar("v")), ("an empty dictionary", {}), ("a dictionary", deep)):
            go(f"unknown key with {kn} in {name}", nest(path, {k: v}), False, away)
            both = {k: v, **nest(known, Scalar("v"))}
            go(f"unknown key with {kn} beside a known one in {name}", nest(path, both), False, away)
            go(f"unknown key with {kn} after a known one in {name}", nest(path, {**nest(known, Scalar("v")), k: v}), False, away)
    # paths of the template in the wrong place
    tops = [p for p, _ in leaves_of(tpl)]
    names = {q for p in tops for q in p}
    for path, sec in sections(tpl):
        if len(path) > 1:
            continue
        for x in sorted(names - set(sec))[:40]:
            go(f"misplaced key {x} in {' - '.join(path) or 'top level'}", nest(path, {x: Scalar("v")}), False)


def caller(s, w):
    """check_params: the user's own keys are checked against the template's, and the verdict is final"""
    pc = w[PC]

    class D(dict):
        pass
    user = {"a": Scalar("u")}
    tplg, parsed, tree = Ghost("template"), Ghost("parsed"), Ghost("tree")
    seen = []

    def chk(u, p, t):
        seen.append((u, p, t))
        if T.decide(var("some_key_unknown", "B")):
            raise RuntimeWarning("obsolete")
    w.summaries[PC + ".load_default_yaml"] = lambda: tplg
    w.summaries[PC + ".parse_params"] = lambda t, u, return_parser_tree=False: (
        (parsed, tree) if return_parser_tree else parsed) if t is tplg and samedict(u, user) else Ghost("wrong arguments")
    w.summaries[PC + ".check_obsolete_params"] = chk
    try:
        for flag in (False, True):
            def thunk():
                seen.clear()
                return pc.check_params(user, flag)

            def post(p):
                u = var("some_key_unknown", "B")
                args = len(seen) == 1 and samedict(seen[0][0], user) and seen[0][1] is parsed and seen[0][2] is tree
                out = [("the check is run on the user's keys, the parsed parameters and the parser tree", TRUE if args else FALSE)]
                if p.kind == "raise":
                    return out + [("rejected only for an unknown key", u)]
                r = p.value
                ok = (isinstance(r, tuple) and r[0] is parsed and r[1] is tree) if flag else r is parsed
                return out + [("accepted only without unknown keys", Not(u)), ("returns the parsed parameters", TRUE if ok else FALSE)]
            s.case(f"check_params({'with' if flag else 'without'} tree)", thunk, post, want=("return", "raise"))
        lp = w[PC].load_params
        w.summaries[PC + ".check_params"] = lambda u, *a: Ghost("checked", u) if isinstance(u, Ghost) else (
            Ghost("checked", "empty") if u == {} else Ghost("checked", "other"))
        w.summaries["mimosa.common.utils.load_yaml"] = lambda f: Ghost("file", f)
        s.case("load_params of a file", lambda: lp("name"), lambda p: Ghost("checked", Ghost("file", "name")).same(p.value)
               if p.kind == "return" else FALSE)
        s.case("load_params without a file", lambda: lp(), lambda p: Ghost("checked", "empty").same(p.value) if p.kind == "return" else FALSE)
    finally:
        w.summaries.clear()


def samedict(a, b):
    return isinstance(a, dict) and list(a) == list(b) and all(a[k] is b[k] for k in b)
