"""C03: contracts of the reference substitution.

recursive_traverse: every entry of a dictionary of any width is either handed to the leaf function with its own path or descended
into (step of the induction over the depth).  parse_param_values: on the whole template, with symbolic values of every type, every
text with references before, between and behind arbitrary other text becomes the text with the values in place; everything else
keeps its value.  MIMOSA.__init__ works with the substituted parameters.  re is replaced by its assumed contract on texts whose
arbitrary parts hold no braces: the pattern is matched (by the real re) against the fixed parts and the callback runs per match."""
import copy
import re as real_re

from . import terms as T
from . import engine as E
from . import mcheck as M
from . import pyostub as P
from .contract import Suite
from .c01 import make_world, leaves_of, same_value
from .c02 import samepath, sections, nest, truth, DESCENT
from .symany import SymStr, SymDict, SymList, Ghost, SymObj, slit, seq, sterm, tostr, pieces
from .terms import num, var, app, And, Or, Not, Implies, TRUE, FALSE, Unsupported

PC = "mimosa.common.config.parseconfig"


def parts_of(s):
    t = s.t
    return list(t.args) if t.op == "concat" else [t]


class Pattern:
    def __init__(self, p, flags=0):
        self.p = p
        self.rx = real_re.compile(p, flags)
        # a match is "{", characters that are no braces, "}": never reaches into text without braces
        for probe in ("{a}", "{a - b}", "{", "}", "a", "{a}{b}", "x{a", "{a{b}}", "a}"):
            for m in self.rx.finditer(probe):
                g = m.group(0)
                if not (g.startswith("{") and g.endswith("}") and g.count("{") == 1 and g.count("}") == 1):
                    raise Unsupported(f"pattern {p}")

    def sub(self, repl, text, count=0):
        if isinstance(text, str):
            if count:
                raise Unsupported("re.sub with a count")
            parts = [slit(text)]
        elif isinstance(text, SymStr) and not count:
            parts = parts_of(text)
        else:
            raise TypeError("expected string or bytes-like object")
        out = []
        for p in parts:
            if p.op != "slit":
                out.append(p)
                continue
            pos, s = 0, p.args[0]
            for m in self.rx.finditer(s):
                r = repl(m) if callable(repl) else None
                if sterm(r) is None:
                    if r is None and not callable(repl):
                        raise Unsupported("re.sub with a template")
                    raise TypeError("expected str instance")
                out += [slit(s[pos:m.start()]), sterm(r)]
                pos = m.end()
            out.append(slit(s[pos:]))
        return SymStr.concat([SymStr(x) if x.op != "slit" else x.args[0] for x in out])

    def finditer(self, text):
        if isinstance(text, str):
            return list(self.rx.finditer(text))
        return [m for p in parts_of(text) if p.op == "slit" for m in self.rx.finditer(p.args[0])]

    def findall(self, text):
        return [m.group(1) if self.rx.groups == 1 else (m.groups() if self.rx.groups else m.group(0)) for m in self.finditer(text)]

    def search(self, text):
        r = self.finditer(text)
        return r[0] if r else None


class Re:
    Match, IGNORECASE, ASCII, UNICODE, error = real_re.Match, real_re.IGNORECASE, real_re.ASCII, real_re.UNICODE, real_re.error

    @staticmethod
    def compile(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)

    @staticmethod
    def sub(p, repl, text, count=0, flags=0):
        return Re.compile(p, flags).sub(repl, text, count)

    @staticmethod
    def findall(p, text, flags=0):
        return Re.compile(p, flags).findall(text)

    @staticmethod
    def finditer(p, text, flags=0):
        return Re.compile(p, flags).finditer(text)

    @staticmethod
    def search(p, text, flags=0):
        return Re.compile(p, flags).search(text)


def world(repo):
    w = make_world(repo)
    w.stubs["re"] = P.Namespace("re", **{k: v.__func__ if isinstance(v, staticmethod) else v
                                         for k, v in vars(Re).items() if not k.startswith("_")})
    return w


def run(repo=None):
    w = world(repo)
    s = Suite("C03", w)
    tpl = M.load_template(w.repo)
    s.section(traverse, w)
    s.section(criterium, w)
    s.section(substitution, w, tpl)
    s.section(model, w)
    return s


def traverse(s, w):
    rt_ = w[PC].recursive_traverse
    rec = PC + ".recursive_traverse.<locals>._do_recursive_traverse"
    i = var("anyi", "I")
    for depth in range(6):
        prefix = [SymStr(f"key{n}") for n in range(depth)]
        U = SymDict("U")
        state = {}

        def summary(keys, node, state=state, prefix=prefix, U=U):
            state["n"] += 1
            if state["n"] == 1:
                if list(keys) or node is not U:
                    raise Unsupported("first call of the traversal")
                w.unfolding.discard(rec)
                return w.functions[rec](list(prefix), node)
            w.rt.setitem(state["down"], DESCENT, (list(keys), node))
            return None
        leaf = lambda node: Ghost("is leaf", node).term("leaf")   # noqa: E731

        def thunk(state=state, U=U, leaf=leaf):
            state.update(n=0, down={}, log={})

            def fn(keys, node):
                w.rt.setitem(state["log"], DESCENT, (list(keys), node))
            rt_(U, fn, leaf)
            return state["log"], state["down"]

        def post(p, prefix=prefix, U=U, leaf=leaf):
            if p.kind != "return":
                return FALSE
            inr = And(num(0) <= i, i < U.n)
            k, v = U.key(i), U.val(i)
            isleaf = leaf(v)
            goals = []
            for what, coll, want in (("leaves are visited, and only they", p.value[0], isleaf),
                                     ("other entries are descended into, and only they", p.value[1], Not(isleaf))):
                ps = pieces(coll)
                if len(ps) != 1 or ps[0][0] != "map":
                    raise Unsupported(f"shape of the traversal {ps}")
                _, dom, bv, elem, conds = ps[0]
                sub = {bv.id: i}
                e = E.subst_any(elem, sub)
                c = And(*[T.subst(x, sub) for x in conds])
                goals += [(what, Implies(inr, And(Implies(want, c), Implies(c, want)))),
                          (what + ", with their own path", Implies(And(inr, c), And(samepath(e[1][0], prefix + [k]), v.same(e[1][1])))),
                          (what + ", all of them", And(dom[1] == 0, dom[2] == U.n))]
            return goals
        w.summaries[rec] = summary
        try:
            s.case(f"traversal below {depth} keys", thunk, post, U.facts(), want=("return",))
        finally:
            w.summaries.clear()
    # the default criterium: dictionaries are descended into, everything else is visited
    log = []

    def go():
        log.clear()
        rt_({"a": {"b": 1, "c": {}}, "d": None, "e": [1], "f": "x"}, lambda k, n: log.append((tuple(k), n)))
        return list(log)
    s.case("traversal with the default criterium", go, lambda p: TRUE if p.kind == "return" and p.value == [
        (("a", "b"), 1), (("d",), None), (("e",), [1]), (("f",), "x")] else FALSE)


def criterium(s, w):
    """every dictionary is descended into, whatever its keys; everything else is visited"""
    got = {}

    def trav(d, leaf_function, leaf_criterium=None):
        got.update(d=d, crit=leaf_criterium)
    tree = {"a": 1}
    w.summaries[PC + ".recursive_traverse"] = trav
    try:
        ps = s.paths("criterium", lambda: w[PC].parse_param_values(tree))
    finally:
        w.summaries.clear()
    if len(ps) != 1 or ps[0].kind != "return" or "d" not in got:
        raise Unsupported("parse_param_values does not use recursive_traverse")
    s.add("the whole tree is traversed", "discharged" if got["d"] is tree else "failed", "nf")
    crit = got["crit"]
    if crit is None:
        return
    for kn, v in [("arbitrary dictionary", SymDict("d")), ("empty dictionary", {}), ("dictionary of texts", {"x": SymStr("x")})]:
        s.case(f"criterium: {kn} is descended into", lambda: truth(crit(v)), lambda p: Not(T.B(p.value)) if p.kind == "return" else FALSE)
    for kn, v in list(value_kinds()) + [("other", SymObj("o")), ("nothing", None)]:
        s.case(f"criterium: {kn} is visited", lambda: truth(crit(v)), lambda p: T.B(p.value) if p.kind == "return" else FALSE)


def value_kinds():
    yield "integer", var("n", "I")
    yield "number", var("x", "R")
    yield "text", SymStr("txt")
    yield "true", True
    yield "false", False
    yield "list", SymList("L")
    yield "concrete text", "SSP2"
    yield "empty text", ""


def text(*parts):
    return SymStr.concat([p if isinstance(p, (str, SymStr)) else SymStr(p) for p in parts])


def build(tpl, over):
    """parsed parameters: arbitrary values, `over`: path -> value"""
    def rec(node, path):
        if path in over:
            return over[path]
        if "type" in node:
            return {"dict": lambda: {"free": {"entry": SymObj("-".join(path))}}, "datasource": lambda: {"file": SymObj("-".join(path))}}.get(
                node["type"], lambda: SymObj("-".join(path)))()
        return {k: rec(v, path + (k,)) for k, v in node.items()}
    return rec(tpl, ())


def walk(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from walk(v, path + (k,))
            if not v:
                yield path + (k,), v
        else:
            yield path + (k,), v


def judge(p, before, changed):
    """the returned tree is the one before, with `changed`: path -> expected text"""
    if p.kind != "return" or not isinstance(p.value, dict):
        return FALSE
    after = dict(walk(p.value))
    if set(after) != set(before):
        return FALSE
    cs = []
    for path, v in before.items():
        want = changed.get(path, v)
        cs.append(same_value(after[path], want) if not isinstance(want, dict) else (TRUE if after[path] == want else FALSE))
    return And(*cs)


def substitution(s, w, tpl):
    fn = w[PC].parse_param_values
    leaves = [(p, n) for p, n in leaves_of(tpl)]
    scalars = [p for p, n in leaves if n["type"] not in ("dict", "datasource")]
    hosts = [("SSP",), ("input", "variables", "GDP", "file"), ("regional_parameter_files", "a", "b", "c"), ("simulation", "custom_mapping", "x")]
    a, b, c = SymStr("before"), SymStr("between"), SymStr("after")

    def case(id, over, changed, assume=()):
        for host_free in (over,):
            tree = build(tpl, {})
            for path, v in host_free.items():
                d = tree
                for k in path[:-1]:
                    d = d.setdefault(k, {})
                    if not isinstance(d, dict):
                        return
                d[path[-1]] = v
            before = dict(walk(tree))
            w.rt.writes = None
            s.case(id, lambda: fn(clone(tree)), lambda p: judge(p, before, changed), assume)

    # every parameter of the template as the target, one reference in arbitrary text
    for tgt in scalars:
        ref = "{" + " - ".join(tgt) + "}"
        host = hosts[1] if tgt != hosts[1] else hosts[2]
        for kn, v in value_kinds():
            case(f"reference to {' - '.join(tgt)} holding {kn}", {tgt: v, host: text(a, ref, c)}, {host: text(a, tostr(v), c)})
    # several references, in every host
    targets = [(scalars[0], var("n", "I")), (scalars[3], SymStr("txt")), (scalars[7], var("x", "R"))]
    for host in hosts:
        over0 = {p: v for p, v in targets if p != host}
        rs = {p: "{" + " - ".join(p) + "}" for p in over0}
        ps = list(over0)
        for x in ps:
            for y in ps:
                t = text(a, rs[x], b, rs[y], c)
                case(f"{' - '.join(host)}: {rs[x]} and {rs[y]}", {**over0, host: t}, {host: text(a, tostr(over0[x]), b, tostr(over0[y]), c)})
                t = rs[x] + rs[y]
                case(f"{' - '.join(host)}: {rs[x]} next to {rs[y]}", {**over0, host: t}, {host: text(tostr(over0[x]), tostr(over0[y]))})
                t = text(rs[x], a, "{no such parameter}", b, rs[y])
                case(f"{' - '.join(host)}: {rs[x]}, no parameter and {rs[y]}", {**over0, host: t},
                     {host: text(tostr(over0[x]), a, "{no such parameter}", b, tostr(over0[y]))})
        if len(ps) >= 3:
            t = text(rs[ps[0]], a, rs[ps[1]], b, rs[ps[2]], c, rs[ps[0]])
            case(f"{' - '.join(host)}: four references", {**over0, host: t},
                 {host: text(tostr(over0[ps[0]]), a, tostr(over0[ps[1]]), b, tostr(over0[ps[2]]), c, tostr(over0[ps[0]]))})
        # braces that name nothing
        secs = ["{" + " - ".join(p) + "}" for p, _ in sections(tpl) if p]
        for t in ["{}", "{ }", "{unknown}", "{unknown - a}", "{SSP - a}", "{time - start - x}", "{time - unknown}", "{Time - start}",
                  "{time-start}", "{ SSP}", "{SSP }", "{a}{b}", "{", "}", "{SSP", "}{"] + secs:
            case(f"{' - '.join(host)}: {t} names no parameter", {**over0, host: text(a, t, b)} if host != ("SSP",) or "SSP" not in t else
                 {host: text(a, t, b)}, {})
        # no braces
        case(f"{' - '.join(host)}: text without references", {host: a}, {})
    case("no texts at all", {}, {})
    # several texts at once
    p0, v0 = targets[0]
    r0 = "{" + " - ".join(p0) + "}"
    case("references in several texts", {p0: v0, **{h: text(a, r0, slitstr(str(n))) for n, h in enumerate(hosts)}},
         {h: text(a, tostr(v0), slitstr(str(n))) for n, h in enumerate(hosts)})


def slitstr(x):
    return x


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    return x


def model(s, w):
    """MIMOSA.__init__: the substituted parameters are the ones the model is built with"""
    mm = w["mimosa.mimosa"]
    user, parsed, tree, done = Ghost("user"), Ghost("parsed"), Ghost("tree"), {"regions": Ghost("regions")}
    seen = {}
    w.summaries[PC + ".check_params"] = lambda u, *a, **k: (parsed, tree) if u is user else Ghost("other")
    w.summaries[PC + ".parse_param_values"] = lambda p: done if p is parsed else Ghost("other")
    pre = "mimosa.mimosa.MIMOSA."
    w.summaries[pre + "get_abstract_model"] = lambda self: seen.setdefault("abstract", self.params)
    w.summaries[pre + "create_instance"] = lambda self: seen.setdefault("instance", self.params)
    w.summaries[pre + "preprocessing"] = lambda self: None
    try:
        def thunk():
            seen.clear()
            return mm.MIMOSA(user)
        s.case("MIMOSA is built with the substituted parameters", thunk, lambda p: TRUE if p.kind == "return" and p.value.params is done
               and seen.get("abstract") is done and seen.get("instance") is done and p.value.regions is done["regions"] else FALSE)
    finally:
        w.summaries.clear()
