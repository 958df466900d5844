"""Obligations of the model properties M*: the laws of laws.py against the constraint set that the real
`create_abstract_model` builds (symbolically executed), in both directions.

forward   every law instance follows from the constraints (on every feasible path of flags, periods, options)
reverse   every constraint, bound and domain follows from the laws
"""
import inspect
import math
import os
import sys
import time

import yaml

from . import terms as T
from . import smt
from . import engine as E
from . import pyostub as P
from . import laws as L
from .purity import pure
from . import numeval
from . import elim
from .terms import Term, Unsupported, num, var, app, And, Or, Not, Implies, lift


class Excluded(Exception):
    pass


class MExplorer(E.Explorer):
    """an exception that only an object of the engine can cause (an operation it does not have) decides nothing"""

    def run(self, thunk, log=None):
        ps = super().run(thunk, log)
        for p in ps:
            if p.kind == "raise" and E.of_engine(p.value):
                p.kind = "unsupported"
        return ps


def load_template(repo):
    with open(os.path.join(repo, "mimosa/inputdata/config/config_default.yaml"), encoding="utf8") as f:
        return yaml.safe_load(f)


def concrete_params(template):
    """defaults, only used by the parameter documentation callables (choice of table columns)"""
    def walk(n):
        if isinstance(n, dict) and "type" in n and not isinstance(n["type"], dict):
            return n.get("default")
        return {k: walk(v) for k, v in n.items()} if isinstance(n, dict) else n
    return walk(template)


# ------------------------------------------------------------------ symbolic state
class SymState:
    numeric = False
    pi = None

    def __init__(self, model, mods, params):
        self.m, self.mods, self.params = model, mods, params
        self.dt = var("DT")
        self.zero = num(0)
        self.pi = math.pi
        self.expand = False
        self.missing = set()

    def num(self, x):
        return num(x)

    def is0(self, t):
        if isinstance(t, Term):
            return t.op == "num" and t.args[0] == 0
        return t == 0

    def v(self, name, *i):
        i = tuple(T.canon(x) if x.sort == "I" else x for x in map(lift, i))
        if name not in self.m._comps:
            self.missing.add(name)
        return app(name, *i)

    def vp(self, name, *i):
        c = self.m._comps.get(name)
        if c is None:
            self.missing.add(name)
            return app(name, *map(lift, i))
        k = i if len(i) > 1 else i[0]
        return lift(c.__vc_getitem__(k))

    def p(self, name, *i):
        c = self.m._comps.get(name)
        if c is None or self.expand:
            law = PARAM_LAWS.get(name)
            return law.expr(self, *i)
        return lift(c.__vc_getitem__(i if len(i) > 1 else i[0]))

    def data(self, name, t, r):
        t = lift(t)
        return app(f"data[{name}]", T.canon(t), r)

    def reg(self, cat, name, r):
        return app(f"reg[{cat}.{name}]", r)

    def contains(self, cat, name, r, text):
        return T.decide(app(f"contains[{text}]", app(f"reg[{cat}.{name}]", r), sort="B"))

    def cfg(self, path):
        return var(f"cfg[{path}]")

    def flag(self, path):
        return T.decide(app(f"flag[{path}]", sort="B"))

    def on(self, path):
        return not T.decide(app(f"off[{path}]", sort="B"))

    def is_(self, path, opt):
        return T.decide(app(f"is[{path}={opt}]", sort="B"))

    def text(self, path):
        n = self.params
        for k in path.split("."):
            n = n[k]
        return n

    flag_c = text

    def year(self, t):
        return T.canon(var("T0YEAR", "I") + lift(t) * self.dt) if self.is0(t) else var("T0YEAR", "I") + lift(t) * self.dt

    def sum(self, f):
        b = T.fresh("r", "Reg")
        return T.mk_sum("regions", b, lift(f(b)))

    def sum_t(self, t, f):
        if self.is0(t):
            return num(0)
        b = T.fresh("k", "I")
        return T.mk_sum(("range", num(0), lift(t)), b, lift(f(b)))

    def kcal(self, t, r):
        if self.is0(t):
            return L.kcal_init(self, r)
        return app("KCAL", T.canon(lift(t)), r)

    def exp(self, x):
        return T.fn("exp", x)

    def log(self, x):
        return T.fn("log", x)

    def atan(self, x):
        return T.fn("atan", x)

    def eq(self, a, b):
        return lift(a) == lift(b)

    def le(self, a, b):
        return lift(a) <= lift(b)

    def excluded(self):
        raise Excluded()


PARAM_LAWS = {l.param: l for l in L.LAWS if l.param}


class KcalSpec:
    """loop invariant of the TFP calibration: after iteration k the variable holds the capital stock that scenario GDP
    accumulates up to period k"""
    name = "KCAL"

    def __init__(self, S, r):
        self.S, self.r = S, r

    def app(self, k):
        return app("KCAL", T.canon(lift(k)), self.r)

    def unfold(self, k):
        kv = T.const_value(lift(k))
        if kv is None:
            return self.app(k)
        if kv == 0:
            return L.kcal_init(self.S, self.r)
        if kv < 0:
            return app("KCAL", lift(k), self.r)
        return lift(L.kcal_step(self.S, lift(k), self.r, self.unfold(lift(k) - 1)))

    def unfold_step(self, k):
        return lift(L.kcal_step(self.S, lift(k), self.r, self.app(lift(k) - 1)))


def unfold_kcal(t):
    """KCAL(0) and KCAL(1) by definition (for t=0, 1 instances)"""
    return t


# ------------------------------------------------------------------ relations
_keys = {}


def rel_key(rel):
    """(kind, normalised polynomial) deciding equality of relations up to a nonzero (eq) / positive (le) factor"""
    k = _keys.get(rel.id)
    if k is not None:
        return k
    kind, p = T.rel_poly(rel)
    p = T.numpi(p)
    if kind == "eq":
        p, _ = T.clear_denoms(p)
        p = T.numpi(p)
        if p.d:
            p, _ = T.monic(p)
    elif p.d:
        lc = abs(p.d[T.lead(p)])
        p = T.Poly({m: c / lc for m, c in p.d.items()})
    _keys[rel.id] = (kind, p)
    return _keys[rel.id]


def same_rel(a, b):
    if a is b:
        return True
    ka, kb = rel_key(a), rel_key(b)
    if ka[0] != kb[0]:
        return False
    if ka[1] == kb[1]:
        return True
    if T.close(ka[1], kb[1]):
        return True
    if apps_of(a) != apps_of(b):
        return False
    fa, fb = rel_key(fuzz(a)), rel_key(fuzz(b))
    return fa[1] == fb[1] or T.close(fa[1], fb[1])


def agree(a, b, conds):
    """the same relation where the conditions hold, which may give a parameter its value"""
    if same_rel(a, b):
        return True
    fixed = elim.settled(conds)
    return bool(fixed) and same_rel(T.subst(a, fixed), T.subst(b, fixed))


_ap = {}


def apps_of(t):
    r = _ap.get(t.id)
    if r is None:
        r = _ap[t.id] = frozenset(var_apps(t)) if not any_sum(t) else var_names(t)
    return r


def any_sum(t, seen=None):
    seen = set() if seen is None else seen
    if t.id in seen:
        return False
    seen.add(t.id)
    return t.op == "sum" or any(isinstance(a, Term) and any_sum(a, seen) for a in t.args)


def any_psum(t):
    p = T.norm(t)
    return any(a.op == "psum" or _has_psum(a) for m in p.d for a, e in m)


def _has_psum(t):
    if t.op == "psum":
        return True
    return any(_has_psum(a) if isinstance(a, Term) else isinstance(a, T.Poly) and any(_has_psum(b) for m in a.d for b, _ in m) for a in t.args)


def apps_named(t, name, out=None, seen=None):
    """the applications of `name` in a raw term"""
    out, seen = ([], set()) if out is None else (out, seen)
    if t.id in seen:
        return out
    seen.add(t.id)
    if t.op == "app" and t.args[0] == name:
        out.append(t)
    for a in t.args:
        if isinstance(a, Term):
            apps_named(a, name, out, seen)
    return out


def _round(f):
    from fractions import Fraction
    if f.denominator < 10 ** 6 and abs(f.numerator) < 10 ** 9:
        return f
    return Fraction(f"{float(f):.11e}")


_fz = {}


def fuzz(t):
    """numeric constants rounded to 12 digits and pi replaced by its value: tolerance for constant folding order"""
    if not isinstance(t, Term):
        return t
    r = _fz.get(t.id)
    if r is not None:
        return r
    if t.op in ("eq", "le", "lt"):
        r = Term(t.op, (fuzz(t.args[0]), fuzz(t.args[1])), "B")
    elif t.sort in ("R", "I") and t.op in ("add", "mul", "pow", "fn", "sum", "neg", "div", "sub"):
        if t.op == "sum":
            r = T.mk_sum(t.args[0], t.args[1], fuzz(t.args[2]))
        elif t.op == "fn":
            r = T.fn(t.args[0], *[fuzz(a) for a in t.args[1:]])
        elif t.op == "pow":
            r = T.mk_pow(fuzz(t.args[0]), fuzz(t.args[1]))
        else:
            r = Term(t.op, tuple(fuzz(a) for a in t.args), t.sort)
        p = T.numpi(T.norm(r))
        r = T.poly_to_term(T.Poly({m: _round(c) for m, c in p.d.items()}))
    elif t.op == "num":
        r = num(_round(t.args[0]))
    elif t is T.PI:
        r = num(_round(__import__("fractions").Fraction(math.pi)))
    else:
        r = t
    _fz[t.id] = r
    return r


def flatten(val):
    """relations of a constraint rule's return value, None if it imposes nothing, or an exception text"""
    if val is P.SConstraint.Skip or val is P.SConstraint.Feasible:
        return []
    if isinstance(val, tuple):
        if len(val) == 2:
            return [lift(val[0]) == lift(val[1])]
        if len(val) == 3:
            lo, b, hi = val
            return ([lift(lo) <= lift(b)] if lo is not None else []) + ([lift(b) <= lift(hi)] if hi is not None else [])
    if isinstance(val, Term) and val.sort == "B":
        if val.op in ("eq", "le", "lt"):
            p = T.norm(val.args[0] - val.args[1])
            if not has_var(val):
                raise ValueError("constraint without a variable (trivial boolean)")
            if val.op == "lt":
                raise ValueError("strict inequality")
            return [val]
        if val.op == "and":
            return [x for c in val.args for x in flatten(c)]
    if val is P.SConstraint.Infeasible:
        return [T.FALSE]
    if val is None:
        raise ValueError("Constraint rule returned None")
    raise ValueError(f"not a relation: {type(val).__name__}")


_hv = {}


def has_var(t):
    r = _hv.get(t.id)
    if r is None:
        r = any(a for a in var_names(t))
        _hv[t.id] = r
    return r


_vn = {}


def var_names(t):
    """names of the decision variables in a term"""
    if not isinstance(t, Term):
        return frozenset()
    r = _vn.get(t.id)
    if r is not None:
        return r
    s = set()
    if t.op == "app" and t.args[0] in P.VAR_APPS:
        s.add(t.args[0])
    for a in t.args:
        if isinstance(a, Term):
            s |= var_names(a)
    _vn[t.id] = frozenset(s)
    return _vn[t.id]


def term_map(t, f, memo=None):
    """bottom-up rebuild; f(app term) may return a replacement"""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if not var_names(t):
        r = t
    elif t.op == "app":
        r = f(t)
        r = t if r is None else r
    elif t.op == "sum":
        r = T.mk_sum(t.args[0], t.args[1], term_map(t.args[2], f, memo))
    else:
        a = [term_map(x, f, memo) if isinstance(x, Term) else x for x in t.args]
        if t.op == "fn":
            r = T.fn(*a)
        elif t.op == "ite":
            r = T.ite(*a)
        elif t.op == "pow":
            r = T.mk_pow(*a)
        elif t.op in ("add", "mul"):
            r = a[0]
            for x in a[1:]:
                r = r + x if t.op == "add" else r * x
        else:
            r = Term(t.op, tuple(a), t.sort)
    memo[t.id] = r
    return r


def var_apps(t, out=None, seen=None):
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(t, Term) or t.id in seen:
        return out
    seen.add(t.id)
    if t.op == "app" and t.args[0] in P.VAR_APPS:
        out[t.id] = t
    for a in t.args:
        if isinstance(a, Term):
            var_apps(a, out, seen)
    return out


def solved(rel, name):
    """rel as  app(name, ...) == expr : (app, expr) when the app occurs linearly with a constant factor"""
    if rel.op != "eq":
        return None
    for lhs, rhs in (rel.args, rel.args[::-1]):
        if lhs.op == "app" and lhs.args[0] == name and lhs.id not in var_apps(rhs):
            return lhs, rhs
    kind, p = T.rel_poly(rel)
    hits = []
    for m, c in p.d.items():
        for a, e in m:
            if a.op == "app" and a.args[0] == name:
                hits.append((m, c, a, e))
    if len(hits) == 1 and len(hits[0][0]) == 1 and hits[0][3] == 1:
        m, c, a, e = hits[0]
        rest = T.poly_to_term(T.Poly({k: -v / c for k, v in p.d.items() if k is not m}))
        if a.id not in var_apps(rest):
            return a, rest
    return None


# ------------------------------------------------------------------ one built model
t_, r_ = var("t", "I"), var("r", "Reg")


def base_facts(generic=True):
    TF, DT, T0 = var("TF", "I"), var("DT"), var("T0YEAR", "I")
    out = [DT > num(0), TF >= num(1), DT <= num(20), T0 >= num(1900), T0 <= num(2100)]
    if generic:
        out += [t_ >= num(1), t_ <= TF]
    if P.MODEL_ENV.get("year2100"):
        # year2100 is int((2100 - start) / dt) (C05), so the whole numbers above it are the periods after 2100
        y = app("YEAR2100", sort="I")
        out += [y >= num(0), y * DT <= num(2100) - T0, num(2100) - T0 < (y + 1) * DT]
        for k in ((-2, -1, 0, 1, 2) if generic else ()):
            late = T0 + (t_ + k) * DT > num(2100)
            out += [Implies(t_ + k > y, late), Implies(late, t_ + k > y)]
    opts = ["noregime", "equal_mitigation_costs", "equal_total_costs", "per_cap_convergence"]
    apps = [app(f"is[{L.REGIME}={o}]", sort="B") for o in opts]
    for i in range(4):
        for j in range(i):
            out.append(Or(Not(apps[i]), Not(apps[j])))
    # known finding: the branch of the carbon budget for partly irreversible damages is dead code (see DESIGN.md)
    out.append(var("cfg[economics.damages.percentage reversible]") >= num(1))
    out.append(var("cfg[economics.damages.percentage reversible]") <= num(1))
    for cat in ("NoSLR_form", "SLR-Ad_form", "SLR-NoAd_form"):
        cs = [app(f"contains[{x}]", app(f"reg[COACCH.{cat}]", r_), sort="B") for x in ("Linear", "Quadratic", "Logistic")]
        for i in range(3):
            for j in range(i):
                out.append(Or(Not(cs[i]), Not(cs[j])))
        out.append(Or(*cs))
    return out


def repo_files(e, repo):
    """files of the package on the traceback of e"""
    out, tb = [], getattr(e, "__traceback__", None)
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(os.path.join(repo, "mimosa")):
            out.append(os.path.relpath(f, repo))
        tb = tb.tb_next
    return out


def anchored(prop, files):
    """the property is about one of these files (M18: building the model at all)"""
    return prop == "M18" or bool(set(files) & set(anchors().get(prop, ())))


_anchors = {}


def anchors():
    if not _anchors:
        import json
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")) as f:
            for l in f:
                d = json.loads(l)
                _anchors[d["id"]] = d["anchors"]["files"]
    return _anchors


class Built:
    """the symbolic model of one module combination"""

    def __init__(self, world, mods, params):
        self.world, self.mods, self.params = world, mods, params
        self.error = None
        self.files = []
        self.model = None
        P.MODEL_ENV["models"] = []
        ex = MExplorer([])
        paths = ex.run(lambda: world["mimosa.abstract_model.create_abstract_model"](*mods.args()))
        if len(paths) != 1:
            self.error = ("unsupported", f"{len(paths)} paths")
            return
        p = paths[0]
        if p.kind != "return":
            self.error = (p.kind, f"{type(p.value).__name__}: {p.value}")
            self.files = repo_files(p.value, world.repo)
            return
        self.model = p.value

        def year(t):
            if isinstance(t, E.SymIter):
                return E.SymArr(t.domain, t.bv, year(t.elem), t.conds)
            return var("T0YEAR", "I") + lift(t) * var("DT")
        self.model.year = year
        self.S = SymState(self.model, mods, params)
        for n, c in self.model._comps.items():
            if isinstance(c, P.SVar):
                P.VAR_APPS.add(n)

    def constraints(self):
        return {n: c for n, c in self.model._comps.items() if isinstance(c, P.SConstraint) and c.active}


RULE_CACHE = {}


KEPT = {}


def cell_sig(v, depth=0):
    """what a cell of a rule's closure holds, as far as a rule can tell: the model as such, plain values
    by value, functions by code and closure, the code's own objects by class and state, all else by
    identity (kept alive, so that no identity is used twice)"""
    if isinstance(v, (int, float, str, bool, type(None))):
        return (type(v).__name__, v)
    if type(v) is tuple and depth < 6:
        return ("tuple",) + tuple(cell_sig(x, depth + 1) for x in v)
    if isinstance(v, P.SModel):
        return "model"
    if depth < 6 and callable(v) and hasattr(getattr(v, "__vc_raw__", v), "__code__"):
        bound = getattr(v, "__self__", None)
        return (getattr(v, "__vc_raw__", v).__code__, cells(v, depth + 1),
                None if bound is None else cell_sig(bound, depth + 1))
    if depth < 6 and type(v).__module__.startswith("mimosa") and type(getattr(v, "__dict__", None)) is dict:
        return (id(type(v)), tuple((k, cell_sig(x, depth + 1)) for k, x in v.__dict__.items()))
    KEPT[id(v)] = v
    return (type(v).__name__, id(v))


def cells(f, depth=0):
    out = []
    f = getattr(f, "__vc_raw__", f)
    for c in getattr(f, "__closure__", None) or ():
        try:
            v = c.cell_contents
        except ValueError:
            v = None
        out.append(cell_sig(v, depth))
    d = tuple(cell_sig(x, depth) for x in getattr(f, "__defaults__", None) or ())
    kd = tuple((k, cell_sig(x, depth)) for k, x in (getattr(f, "__kwdefaults__", None) or {}).items())
    return tuple(out), d, kd


def rule_sig(rule, kinds):
    f = getattr(rule, "__vc_raw__", rule)
    code = getattr(f, "__code__", None)
    if code is None:
        return None
    try:
        bound = getattr(rule, "__self__", None)
        k = (code, cells(rule), None if bound is None else cell_sig(bound), kinds)
        hash(k)
        return k
    except TypeError:
        return None


def run_rule(built, rule, idx, tag):
    """paths of a rule at an index, cached over module combinations by what the rule read"""
    m = built.model
    sig = rule_sig(rule, tag)
    key = (sig,) if sig is not None else None
    if key is not None:
        for touched, paths, params in RULE_CACHE.get(key, ()):
            if params == id(built.params) and all(
                    (n in m._comps and m._comps[n].signature() == s) if s is not None else n not in m._comps
                    for n, s in touched):
                return paths
    save = m.touched
    m.__dict__["touched"] = set()
    generic = any(x is t_ for x in idx) or any(isinstance(x, Term) and T.free_in(x, t_) for x in idx)
    ex = MExplorer(base_facts(generic))
    def thunk():
        return pure(lambda: flatten(rule(m, *idx)), rule)
    paths = ex.run(thunk)
    touched = frozenset(m.touched)
    m.__dict__["touched"] = save | touched
    if key is not None and not any(p.kind == "raise" for p in paths):
        RULE_CACHE.setdefault(key, []).append((touched, paths, id(built.params)))
    return paths


def inst(kinds, cat, shift=0):
    """index of a constraint with index sets `kinds` for a law of kind cat"""
    t = num(0) if cat in ("G0", "R0") else (t_ if not shift else T.canon(t_ + shift))
    if kinds == ():
        return () if cat in ("G0", "R0") and not shift else None
    if kinds == ("t",):
        return (t,)
    if kinds == ("regions",):
        return (r_,) if cat in ("G0", "R0") and not shift else None
    if kinds == ("t", "regions"):
        return (t, r_)
    return None


def law_index(kind):
    t = num(0) if kind in ("G0", "R0") else t_
    return (t, r_) if kind[0] == "R" else (t,)


class Obl:
    """one obligation"""
    __slots__ = ("id", "prop", "kind", "status", "how", "detail", "law", "mods", "idx", "constraint", "model", "cond")

    def __init__(self, id, prop, kind, **k):
        self.id, self.prop, self.kind = id, prop, kind
        self.status = self.how = self.detail = self.law = self.mods = self.idx = self.constraint = self.model = None
        self.cond = ()
        for a, b in k.items():
            setattr(self, a, b)


def feasible(conds):
    return smt.sat(conds, 1500) != "unsat"


class Checker:
    """all obligations of one property"""

    def __init__(self, world, params_variants, combos):
        self.world = world
        self.variants = params_variants
        self.combos = combos
        self.obls = []
        self.t0 = time.time()
        self._done = {}
        self.hard = set()
        self.elim = elim.Elim(sys.modules[__name__], t_, r_)
        self._closures = 12      # failed attempts with further relations, over the whole run
        self.said = set()
        self.undone = {}

    # -------- law instances
    def law_paths(self, built, law, kind):
        idx = law_index(kind)
        base = base_facts(kind in ("G", "R"))
        S = built.S
        S.missing = set()
        def thunk():
            raw = law.fn(S, *idx)
            if raw:
                self.said.add(law.name)
            return [x for x in raw if not (isinstance(x, Term) and x.op == "true") and x is not True]
        ps = MExplorer(base).run(thunk)
        return [p for p in ps if not (p.kind == "raise" and isinstance(p.value, Excluded))], base, set(S.missing)

    def con_paths(self, built, kind, shift=0):
        key = (built.mods.key(), kind, shift)
        if key in self._done:
            return self._done[key]
        out = []
        for n, c in built.constraints().items():
            ks = c.kinds()
            if ks is None:
                out.append((n, None, [E.Path([], "unsupported", f"index sets of {n}")]))
                continue
            idx = inst(ks, kind, shift)
            if idx is None:
                continue
            out.append((n, idx, run_rule(built, c.rule, idx, (ks, kind, shift))))
        for n, idx, paths in self.bound_paths(built, kind) if not shift else ():
            out.append((n, idx, paths))
        self._done[key] = out
        return out

    def all_con(self, built, law_kind):
        k0 = "R0" if law_kind in ("G0", "R0") else "R"
        return self.con_paths(built, k0)

    UNDONE = 6

    def given_up(self, name, kind, ob):
        """the same clause was not discharged in several other module combinations: left open without another search"""
        k = (name, kind)
        if k not in self.undone:
            self.undone[k] = []
        un = [o.status for o in self.undone[k] if o is not ob and o.status != "discharged"]
        if len(un) >= (self.UNDONE if "failed" in un else 3 * self.UNDONE):
            ob.how = None
            ob.status, ob.detail = "open", f"not discharged in {len(un)} other combinations of modules; not tried again"
            return True
        if ob not in self.undone[k]:
            self.undone[k].append(ob)
        return False

    # -------- forward
    def forward(self, built, law):
        for kind in law.kinds:
            paths, base, missing = self.law_paths(built, law, kind)
            oid = f"{law.prop}.{law.name}[{kind}] in {built.mods}"
            ob = Obl(oid, law.prop, "forward", law=law, mods=built.mods, idx=kind)
            self.obls.append(ob)
            ob.status, ob.how = "discharged", "nf"
            if missing:
                ob.status, ob.detail = "failed", f"no component {sorted(missing)}"
                continue
            cons = self.all_con(built, kind)
            for p in paths:
                if p.kind == "unsupported":
                    ob.status, ob.detail = "unsupported", str(p.value)
                    break
                if p.kind == "raise":
                    ob.status, ob.detail = "failed", f"{type(p.value).__name__}: {p.value}"
                    break
                for g in p.value:
                    if self.given_up(law.name, kind, ob):
                        break
                    st, how, det, model = self.entail(built, base, p.cond, g, cons, kind, law)
                    if st != "discharged":
                        ob.status, ob.detail, ob.model, ob.cond = st, det, model, p.cond
                        break
                    if how == "smt":
                        ob.how = "smt"
                if ob.status != "discharged":
                    break

    def param(self, built, law):
        c = built.model._comps.get(law.param)
        for kind in law.kinds:
            oid = f"{law.prop}.{law.name}[{kind}]"
            ob = Obl(oid, law.prop, "definition", law=law, mods=built.mods, idx=kind)
            if c is None:      # helper parameter no longer exists: its uses are checked with its definition unfolded
                continue
            self.obls.append(ob)
            idx = law_index(kind)
            base = base_facts(kind in ("G", "R"))
            S = built.S
            self.world.loop_specs[:] = [KcalSpec(S, r_)]
            if c.kinds() != (("t", "regions") if kind[0] == "R" else ("t",)):
                ob.status, ob.detail = "failed", f"{law.param} is indexed by {c.kinds()}"
                continue
            ps = MExplorer(base).run(lambda: lift(c.definition(*idx)))
            ls = MExplorer(base).run(lambda: lift(law.expr(S, *idx)))
            ob.status, ob.how = "discharged", "nf"
            for p in ps:
                if p.kind != "return":
                    ob.status = "unsupported" if p.kind == "unsupported" else "failed"
                    ob.detail = f"{type(p.value).__name__}: {p.value}"
                    break
                for l in ls:
                    cond = base + p.cond + l.cond
                    if not feasible(cond):
                        continue
                    if l.kind != "return":
                        raise AssertionError(f"law {law}: {l.value}")
                    if same_rel(app("_x") == p.value, app("_x") == l.value):
                        continue
                    v = self.by_induction(law, S, p.value, kind, cond)
                    if same_rel(app("_x") == v, app("_x") == l.value):
                        continue
                    a, b = T.same_ranges(v, l.value, lambda c: smt.sat(cond + [Not(c)], 1500) == "unsat")
                    if same_rel(app("_x") == a, app("_x") == b):
                        continue
                    r, mdl = smt.prove(cond, a == b)
                    if r == "valid":
                        ob.how = "smt"
                        continue
                    # sums are opaque to the solver: the refutation counts only if the two sides differ on numbers
                    ob.status = "failed" if r == "refuted" and (not any_psum(a - b) or numeval.differ(a, b, cond)) else "open"
                    ob.detail = f"{T.show(p.value)}  is not  {T.show(l.value)}"
                    ob.model, ob.cond = mdl, p.cond + l.cond
                    break
                if ob.status != "discharged":
                    break

    def by_induction(self, law, S, value, kind, cond):
        """value with the parameter's own earlier periods replaced by the law (strong induction on the period)"""
        if kind not in ("G", "R"):
            return value
        done = set()
        for _ in range(3):
            occ = [a for a in apps_named(value, law.param) if a.id not in done]
            if not occ:
                return value
            for a in occ:
                done.add(a.id)
                t = a.args[1]
                if smt.sat(cond + [Not(And(num(0) <= t, t < t_))], 1500) != "unsat":
                    return value
                ls = MExplorer(cond).run(lambda: lift(law.expr(S, *a.args[1:])))
                if len(ls) != 1 or ls[0].kind != "return":
                    return value
                value = T.subst(value, {a.id: ls[0].value})
        return value

    def entail(self, built, base, cond, goal, cons, kind, law=None):
        """goal holds whenever all constraints hold, on path condition cond"""
        names = var_names(goal)
        partial = None
        for n, idx, paths in cons:
            hit = False
            for q in paths:
                if q.kind == "return" and any(same_rel(x, goal) for x in q.value):
                    hit = True
                    break
            if not hit:
                continue
            bad = None
            for q in paths:
                if q.kind == "return" and any(agree(x, goal, list(cond) + list(q.cond)) for x in q.value):
                    continue
                if feasible(base + list(cond) + list(q.cond)):
                    bad = q
                    break
            if bad is None:
                return "discharged", "nf", None, None
            partial = (n, bad)
        # definitions of the variables involved substituted
        if self.by_rewriting(base, list(cond), goal, [c[2] for c in cons], 3):
            return "discharged", "rewrite", None, None
        # several constraints together / other shifts: SMT
        hyps = base + list(cond)
        used = []
        rows = [(n, paths) for n, idx, paths in cons]
        for sh in ((-1, 1) if kind in ("G", "R") else (1,)):
            rows += [(n, paths) for n, idx, paths in self.con_paths(built, "R" if kind in ("G", "R") else "R0", sh)
                     if names & set().union(*[var_names(x) for q in paths if q.kind == "return" for x in q.value] or [set()])] \
                if kind in ("G", "R") else []
        todo = set(names)
        for rnd in range(2):
            new = set()
            for n, paths in rows:
                if n in used:
                    continue
                vs = set()
                for q in paths:
                    if q.kind == "return":
                        for x in q.value:
                            vs |= var_names(x)
                if vs & todo and (rnd == 0 or vs - KNOWN_VARS):
                    used.append(n)
                    for q in paths:
                        if q.kind == "return" and q.value and feasible(base + list(cond) + list(q.cond)):
                            hyps.append(Implies(And(*q.cond) if q.cond else T.TRUE, And(*q.value)))
                    new |= vs
            todo = {v for v in new if v not in KNOWN_VARS}
            if not todo:
                break
        try:
            if self.elimination(built, kind, "constraints", cond, goal, law):
                return "discharged", "elimination", None, None
            r, m = smt.prove(hyps, goal)
            if r != "valid" and self.closure(base, list(cond), hyps, [paths for n, paths in rows], names, goal):
                r = "valid"
        except Unsupported as e:
            return "unsupported", None, str(e), None
        if r == "valid":
            return "discharged", "smt", None, None
        det = f"{T.show(goal)} does not follow from the constraints" + (f" ({partial[0]} does not apply when " + " and ".join(
            T.show(c) for c in partial[1].cond) + f" [{partial[1].kind}])" if partial else "") + \
            f"; path {[T.show(c) for c in cond]}"
        near = [f"{n}: {T.show(x)}" for n, idx, paths in cons for q in paths if q.kind == "return" for x in q.value
                if names & var_names(x)][:6]
        err = [f"{n}: {type(q.value).__name__}: {q.value}" for n, idx, paths in cons for q in paths
               if q.kind in ("raise", "unsupported")][:4]
        det += f"; constraints on it: {near}" + (f"; errors: {err}" if err else "")
        uns = any(q.kind == "unsupported" for n, idx, paths in cons for q in paths)
        return ("unsupported" if uns else ("failed" if r == "refuted" else "open")), None, det, m

    def elimination(self, built, kind, what, cond, goal, law=None):
        """the goal with every variable replaced by what the constraints (or laws) define it to be; see elim.py"""
        if kind == "G" or kind == "R":
            one = {t_.id: num(1)}
            return all(self.elim.proves(base_facts(True) + add, [T.subst(c, s) for c in cond] if s else list(cond),
                                        T.subst(goal, s) if s else goal, self.family(built, what, case), self.earlier(built, law, case))
                       for case, add, s in (("later", [t_ >= num(2)], {}), ("second", [], one)))
        return self.elim.proves(base_facts(False), list(cond), goal, self.family(built, what, "first"))

    def raw_families(self, built, what, kind, shift=0):
        if what == "constraints":
            return [paths for n, idx, paths in self.con_paths(built, kind, shift)]
        laws = [l for l in L.LAWS if l.applies(built.mods) and not l.param]
        out = [self.law_cached(built, l, lk) for l in laws for lk in l.kinds if lk[1:] == kind[1:]]
        return out

    def family(self, built, what, case):
        """relations known of the period, the one before and the first one"""
        def rows(paths, s=None):
            f = (lambda x: T.subst(x, s)) if s else (lambda x: x)
            return [([f(c) for c in q.cond], [f(x) for x in q.value] if q.kind == "return" else None) for q in paths]

        def make():
            first = [rows(p) for p in self.raw_families(built, what, "R0")]
            if case == "first":
                return first
            if case == "second":
                return first + [rows(p, {t_.id: num(1)}) for p in self.raw_families(built, what, "R")]
            if what == "constraints":
                return first + [rows(p) for p in self.raw_families(built, what, "R")] + [rows(p) for p in self.raw_families(built, what, "R", -1)]
            return first + [rows(p) for p in self.raw_families(built, what, "R")] + \
                [rows(p, {t_.id: T.canon(t_ - 1)}) for p in self.raw_families(built, what, "R")]
        return self.elim.table((built.mods.key(), what, case), make)

    def earlier(self, built, law, case):
        """the law of the period before (the first period is an obligation of its own)"""
        if law is None:
            return ()
        out = []
        for lk in law.kinds:
            if case == "later" and lk in ("G", "R"):
                s = {t_.id: T.canon(t_ - 1)}
            elif case == "second" and lk in ("G0", "R0"):
                s = {}
            else:
                continue
            for p in self.law_cached(built, law, lk):
                if p.kind == "return":
                    out += [([T.subst(c, s) for c in p.cond], T.subst(g, s)) for g in p.value]
        return out

    def closure(self, base, cond, hyps, rows, names, goal):
        """does the goal follow when the relations on the variables of the relations on its variables are known as well?"""
        if self._closures <= 0:
            return False
        known = set(names)
        vs = {}
        for i, paths in enumerate(rows):
            vs[i] = set().union(*[var_names(g) for q in paths if q.kind == "return" for g in q.value] or [set()])
        for i in vs:
            if vs[i] & set(names):
                known |= vs[i]
        more = list(hyps)
        for i, paths in enumerate(rows):
            if vs[i] and vs[i] <= known and not vs[i] & set(names):
                more += [Implies(And(*q.cond) if q.cond else T.TRUE, And(*q.value)) for q in paths
                         if q.kind == "return" and q.value and feasible(base + list(cond) + list(q.cond))]
        if len(more) == len(hyps):
            return False
        if smt.prove(more, goal, timeout_ms=3000)[0] == "valid":
            return True
        self._closures -= 1
        return False

    def by_rewriting(self, base, cond, goal, families, depth, seen=()):
        """goal follows from the relation families (each a list of paths) by substituting definitions"""
        kind, p = T.rel_poly(goal)
        if not p.d:
            return kind in ("eq", "le")
        c = p.const()
        if c is not None:
            return kind == "le" and c <= 0
        if depth < 3:
            for fam in families:
                ps = [q for q in fam if feasible(base + cond + list(q.cond))]
                if ps and all(q.kind == "return" and any(same_rel(x, goal) for x in q.value) for q in ps):
                    return True
        if depth == 0:
            return False
        names = {}
        for a in var_apps(goal).values():
            names.setdefault(a.args[0], []).append(a)
        for v in sorted(names):
            for fam in families:
                if not any(q.kind == "return" and any(v in var_names(x) for x in q.value) for q in fam):
                    continue
                ps = [q for q in fam if feasible(base + cond + list(q.cond))]
                if not ps or any(q.kind != "return" for q in ps):
                    continue
                ok = True
                for q in ps:
                    d = next((z for z in (solved(x, v) for x in q.value) if z), None)
                    if d is None:
                        ok = False
                        break
                    a, e = d
                    new = term_map(goal, lambda x: self.instantiate(a, e, x))
                    if new is goal or new.id in seen:
                        ok = False
                        break
                    if not self.by_rewriting(base, cond + list(q.cond), new, families, depth - 1, seen + (goal.id,)):
                        ok = False
                        break
                if ok:
                    return True
        return False

    @staticmethod
    def instantiate(a, e, x):
        """the definition a == e (universal in the region) at the occurrence x"""
        if x.args[0] != a.args[0] or len(x.args) != len(a.args):
            return None
        s = {}
        for p, q in zip(a.args[1:], x.args[1:]):
            if p is q:
                continue
            if p is r_:
                s[p.id] = q
                continue
            return None
        return T.subst(e, s) if s else e

    # -------- reverse
    def reverse(self, built, props):
        """every constraint / bound follows from the laws; an obligation belongs to the owner property"""
        laws = [l for l in L.LAWS if l.applies(built.mods) and not l.param]
        for kind in ("R0", "R"):
            base = base_facts(kind == "R")
            lp = None
            for n, idx, paths in self.con_paths(built, kind):
                for q in paths:
                    owner = None
                    if q.kind in ("unsupported", "raise"):
                        if not feasible(base + list(q.cond)):
                            continue
                        owners = self.owners_of(n, paths)
                        if built.mods.trade != "emissiontrade" and any(
                                x is app(f"is[{L.REGIME}=per_cap_convergence]", sort="B") for x in q.cond):
                            continue  # documented: per-capita convergence needs emission trading
                        for o in owners & props:
                            self.obls.append(Obl(f"{o}.{n}[{kind}] evaluates in {built.mods}", o, "reverse",
                                                 status="unsupported" if q.kind == "unsupported" else "failed",
                                                 detail=f"{type(q.value).__name__}: {q.value}", constraint=n, mods=built.mods,
                                                 idx=kind, cond=q.cond))
                        continue
                    for x in q.value:
                        owners = set()
                        if lp is None:
                            lp = []
                            for l in laws:
                                for lk in l.kinds:
                                    if lk[1:] == kind[1:]:
                                        lp.append((l, self.law_cached(built, l, lk)))
                        self.rev_one(built, kind, base, n, q, x, lp, props)
        self.index_sets(built, props)

    def objective(self, built):
        """exactly one objective: NPV of the last period, minimised for costs and maximised for welfare"""
        objs = [c for c in built.model._comps.values() if isinstance(c, P.SObjective)]
        ob = Obl(f"M16.objective in {built.mods}", "M16", "forward", mods=built.mods, idx="G")
        self.obls.append(ob)
        if len(objs) != 1 or objs[0].sets:
            ob.status, ob.detail = "failed", f"{len(objs)} objectives"
            return
        want = "minimize" if built.mods.objective == "globalcosts" else "maximize"
        if str(objs[0].sense) != want:
            ob.status, ob.detail = "failed", f"sense {objs[0].sense}, expected {want}"
            return
        m = built.model
        ps = MExplorer(base_facts(False)).run(lambda: lift(pure(lambda: objs[0].rule(m), objs[0].rule) if callable(objs[0].rule) else objs[0].rule))
        ob.status, ob.how = "discharged", "nf"
        goal = app("_x") == app("NPV", var("TF", "I"))
        for p in ps:
            if p.kind != "return":
                ob.status, ob.detail = ("unsupported" if p.kind == "unsupported" else "failed"), f"{p.value}"
                return
            if not isinstance(p.value, Term) or not same_rel(app("_x") == p.value, goal):
                ob.status, ob.detail = "failed", f"objective is {T.show(p.value) if isinstance(p.value, Term) else p.value}"
                return

    def cover(self, prop):
        """vacuity: the assumptions are satisfiable and every law of the property says something on a feasible path"""
        for g in (True, False):
            s = smt.sat(base_facts(g), 4000)
            self.obls.append(Obl(f"{prop}.cover assumptions satisfiable ({'t>=1' if g else 't=0'})", prop, "cover",
                                 status="discharged" if s == "sat" else "open", how="smt"))
        names = {l.name for l in L.LAWS if l.prop == prop and not l.param and any(l.applies(c) for c in self.combos)}
        for n in sorted(names):
            ok = n in self.said
            self.obls.append(Obl(f"{prop}.cover law {n} is not vacuous", prop, "cover", status="discharged" if ok else "open",
                                 how="nf", detail=None if ok else "no feasible path imposes it"))

    def law_cached(self, built, l, lk):
        key = (built.mods.key(), l, lk)
        if key not in self._done:
            self._done[key] = self.law_paths(built, l, lk)[0]
        return self._done[key]

    def owners_of(self, n, paths):
        vs = set()
        for q in paths:
            if q.kind == "return":
                for x in q.value:
                    vs |= var_names(x)
        if not vs:
            return set(L.ORDER)
        return {self.owner(vs)}

    def owner(self, vs):
        ps = [L.OWNER.get(v, None) for v in vs]
        ps = [p for p in ps if p]
        if not ps:
            return "M18"
        return max(ps, key=lambda p: L.ORDER.index(p))

    def rev_one(self, built, kind, base, n, q, x, lp, props):
        names = var_names(x)
        cond = base + list(q.cond)
        cand = None
        for l, lpaths in lp:
            if not any(p.kind == "return" and any(same_rel(g, x) for g in p.value) for p in lpaths):
                continue
            cand = l
            bad = None
            for p in lpaths:
                if p.kind == "return" and any(agree(g, x, list(q.cond) + list(p.cond)) for g in p.value):
                    continue
                if feasible(cond + list(p.cond)):
                    bad = p
                    break
            if bad is None:
                if l.prop in props:
                    self.obls.append(Obl(f"{l.prop}.{n}[{kind}] imposes only {l.name} in {built.mods}", l.prop, "reverse",
                                         status="discharged", how="nf", constraint=n, mods=built.mods, idx=kind))
                return
        owner = cand.prop if cand else self.owner(names)
        if owner not in props:
            return
        if not feasible(cond):
            return
        hyps = list(cond)
        for l, lpaths in lp:
            for p in lpaths:
                if p.kind == "return" and p.value and any(var_names(g) & names for g in p.value):
                    if feasible(cond + list(p.cond)):
                        hyps.append(Implies(And(*p.cond) if p.cond else T.TRUE, And(*p.value)))
        ob = Obl(f"{owner}.{n}[{kind}] imposes nothing beyond the laws in {built.mods}", owner, "reverse", constraint=n,
                 mods=built.mods, idx=kind, cond=q.cond)
        self.obls.append(ob)
        helper = names - KNOWN_VARS
        if self.given_up(n, kind, ob):
            return
        # once it had to be discharged by elimination, it is tried that way first
        if x.id in self.hard and self.elimination(built, kind, "laws", q.cond, x):
            ob.status, ob.how = "discharged", "elimination"
            return
        try:
            rewritten = self.by_rewriting(base, list(q.cond), x, [ps for l, ps in lp], 3)
        except (RecursionError, ZeroDivisionError) as e:
            ob.status, ob.detail = "unsupported", f"{type(e).__name__} in the normal form"
            return
        if rewritten:
            ob.status, ob.how = "discharged", "rewrite"
            return
        try:
            if self.elimination(built, kind, "laws", q.cond, x):
                self.hard.add(x.id)
                ob.status, ob.how = "discharged", "elimination"
                return
            r, m = smt.prove(hyps, x)
            # what the laws met so far do not say may follow from what further laws say of the same variables
            if r != "valid" and self.closure(base, cond, hyps, [paths for l, paths in lp], names, x):
                r = "valid"
        except Unsupported as e:
            ob.status, ob.detail = "unsupported", str(e)
            return
        if r == "valid":
            ob.status, ob.how = "discharged", "smt"
            return
        ob.status = "open" if helper else ("failed" if r == "refuted" else "open")
        ob.model = m
        ob.detail = f"constraint {n}: {T.show(x)} when {[T.show(c) for c in q.cond]} does not follow from the laws"

    def bound_paths(self, built, kind):
        """bounds and domains of the variables, as constraints"""
        m = built.model
        out = []
        for n, c in m._comps.items():
            if not isinstance(c, P.SVar):
                continue
            kinds = c.kinds()
            if kinds not in (("t",), ("t", "regions")):
                continue
            idx = inst(kinds, kind)
            x = app(n, *idx)
            bd, w = c.kw.get("bounds"), c.kw.get("within", c.kw.get("domain"))
            if bd is None and w in (None, "Reals", "Any"):
                continue

            def thunk(c=c, idx=idx, x=x, b=bd, w=w):
                if callable(b):
                    f = b
                    b = pure(lambda: f(m, *idx) if len(inspect.signature(f).parameters) > 1 else f(m), f)
                rels = []
                if b is not None:
                    lo, hi = b
                    if lo is not None:
                        rels.append(lift(lo) <= x)
                    if hi is not None:
                        rels.append(x <= lift(hi))
                if w in ("NonNegativeReals", "PositiveReals"):
                    rels.append(num(0) <= x)
                elif w in ("NonPositiveReals", "NegativeReals"):
                    rels.append(x <= num(0))
                elif w not in (None, "Reals", "Any"):
                    raise Unsupported(f"domain {w}")
                return rels
            out.append((f"bound of {n}", idx, MExplorer(base_facts(kind in ("G", "R"))).run(thunk)))
        return out

    def index_sets(self, built, props):
        m = built.model
        for n in sorted(KNOWN_VARS):
            c = m._comps.get(n)
            own = L.OWNER.get(n, "M18")
            if own not in props or not isinstance(c, P.SVar):
                continue
            ok = c.kinds() == (("t",) if n in GLOBAL_VARS else ("t", "regions"))
            self.obls.append(Obl(f"{own}.{n} index sets in {built.mods}", own, "domain", mods=built.mods,
                                 status="discharged" if ok else "failed", how="nf",
                                 detail=None if ok else f"variable {n} is indexed by {c.kinds()}"))


KNOWN_VARS = set(L.OWNER)
GLOBAL_VARS = {l.var for l in L.LAWS if l.var and l.kinds[0][0] == "G"} | {"effort_sharing_common_level"}


def make_world(repo=None):
    P.VAR_APPS.clear()
    P._hv.clear()
    E.Explorer.guard = P.truth_guard
    w = E.World(P.model_stubs(), repo)
    w.loop_specs, w.loop_proofs = [], []
    tpl = load_template(w.repo)
    P.MODEL_ENV.clear()
    P.MODEL_ENV["template"] = tpl
    params = concrete_params(tpl)
    P.MODEL_ENV["params"] = params
    P.MODEL_ENV["opaque_params"] = set(PARAM_LAWS)
    return w, params


def part(self, what, prop, mods, f, *args):
    """an error of the engine leaves one clause undecided, not the whole run"""
    try:
        f(*args)
    except KeyboardInterrupt:
        raise
    except (Exception, E.PathLimit, Unsupported) as e:   # noqa: BLE001
        self.obls.append(Obl(f"{what} in {mods}", prop, "engine", mods=mods, status="unsupported", detail=f"engine: {type(e).__name__}: {str(e)[:200]}"))


Checker.part = part


def run(props, combos=None, repo=None):
    w, params = make_world(repo)
    combos = combos or L.all_mods()
    ck = Checker(w, [params], combos)
    seen_par = set()
    for mods in combos:
        b = Built(w, mods, params)
        if b.error:
            for p in props:
                ck.obls.append(Obl(f"{p}: model of {mods} builds", p, "build", mods=mods, detail=b.error[1], status="failed" if
                                   b.error[0] == "raise" and anchored(p, b.files) else "unsupported"))
            continue
        for l in L.LAWS:
            if l.prop in props and l.applies(mods):
                if l.param:
                    if l not in seen_par:
                        seen_par.add(l)
                        ck.part(f"{l.prop}: {l.name}", l.prop, mods, ck.param, b, l)
                else:
                    ck.part(f"{l.prop}: {l.name}", l.prop, mods, ck.forward, b, l)
        ck.part("constraints against the laws", min(props), mods, ck.reverse, b, props)
        if "M16" in props:
            ck.part("objective", "M16", mods, ck.objective, b)
    if P.MODEL_ENV.get("year2100"):
        from . import c06
        for o in c06.year2100(repo).obls:
            for p in props:
                ck.obls.append(Obl(f"{p}: {o.id}", p, "parameter", status=o.status, how=o.how, detail=o.detail))
    for p in props:
        ck.cover(p)
    ck.wall = time.time() - ck.t0
    return ck
