"""M18: composition of the model.  Contracts of create_abstract_model, add_constraint and the constraint classes."""
import os
import sys

from . import terms as T
from . import smt
from . import engine as E
from . import pyostub as P
from . import laws as L
from . import mcheck as M
from .terms import Term, Unsupported, num, var, app, lift, And, Or, Not
from .mcheck import Obl, t_, r_

ALWAYS = {"components/emissions.py", "components/sealevelrise.py", "components/mitigation.py",
          "components/effortsharing.py", "components/cobbdouglas.py"}
FILES = {"COACCH": "components/damages/coacch.py", "nodamage": "components/damages/nodamage.py",
         "notrade": "components/emissiontrade/notrade.py", "emissiontrade": "components/emissiontrade/emissiontrade.py",
         "globalcostpool": "components/emissiontrade/globalcostpool.py",
         "notransfer": "components/financialtransfer/notransfer.py",
         "globaldamagepool": "components/financialtransfer/globaldamagepool.py",
         "welfare_loss_minimising": "components/welfare/welfare_loss_minimising.py",
         "cost_minimising": "components/welfare/cost_minimising.py",
         "inequal_aversion_general": "components/welfare/inequal_aversion_general.py",
         "utility": "components/objective/utility.py", "globalcosts": "components/objective/globalcosts.py"}
INIT = "mimosa.common.pyomo_utils.GeneralConstraint.__init__"
KINDS = {"GlobalConstraint": (("t",), 1), "GlobalInitConstraint": ((), 1), "RegionalConstraint": (("t", "regions"), 1),
         "RegionalInitConstraint": (("regions",), 1), "GlobalSoftEqualityConstraint": (("t",), 2),
         "RegionalSoftEqualityConstraint": (("t", "regions"), 2)}


def reach(f, seen=None):
    """ids of functions and objects a rule refers to through closures, defaults and bound selves"""
    seen = set() if seen is None else seen
    if id(f) in seen:
        return seen
    seen.add(id(f))
    raw = getattr(f, "__vc_raw__", None)
    if raw is not None:
        reach(raw, seen)
    for c in getattr(f, "__closure__", None) or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if callable(v) or hasattr(v, "rule"):
            reach(v, seen)
    for v in getattr(f, "__defaults__", None) or ():
        if callable(v):
            reach(v, seen)
    s = getattr(f, "__self__", None)
    if s is not None:
        seen.add(id(s))
    if hasattr(f, "rule"):
        reach(f.rule, seen)
    if hasattr(f, "func"):          # functools.partial
        reach(f.func, seen)
    return seen


class Recorder:
    def __init__(self, world):
        self.made = []
        self.repo = world.repo
        self.files = set()
        world.summaries[INIT] = self
        P.MODEL_ENV["on_set"] = self.on_set

    def file(self):
        f = sys._getframe(2)
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith(os.path.join(self.repo, "mimosa", "components")):
                return os.path.relpath(fn, os.path.join(self.repo, "mimosa"))
            f = f.f_back

    def __call__(self, obj, *a, **k):
        self.made.append((obj, self.file()))
        return NotImplemented

    def on_set(self, name, v):
        self.files.add(self.file())


def run(repo=None):
    w, params = M.make_world(repo)
    ck = M.Checker(w, [params], L.all_mods())
    out = ck.obls
    w["mimosa.abstract_model.create_abstract_model"]

    def ob(id, status, detail=None, how="nf", mods=None, kind="composition"):
        out.append(Obl(f"M18.{id}", "M18", kind, status=status, detail=detail, how=how, mods=mods))

    rec = Recorder(w)
    for mods in L.all_mods():
        rec.made, rec.files = [], set()
        b = M.Built(w, mods, params)
        if b.error:
            ob(f"{mods} builds", "unsupported" if b.error[0] == "unsupported" else "failed", b.error[1], mods=mods)
            continue
        ob(f"{mods} builds", "discharged", mods=mods)
        composition(ob, b, mods, rec.made, rec.files)
    del w.summaries[INIT]
    del P.MODEL_ENV["on_set"]
    classes(ob, w)
    naming(ob, w)
    unknown(ob, w)
    for c, n in (("models", len(L.all_mods())),):
        ob("cover: every combination was built", "discharged" if n == 72 else "open", kind="cover")
    ck.wall = 0
    return ck


def composition(ob, b, mods, made, touched):
    cons = [c for c in b.model._comps.values() if isinstance(c, P.SConstraint)]
    files = {f for o, f in made if f} | {f for f in touched if f}
    want = ALWAYS | {FILES[k] for k in mods.key()}
    # welfare/utility_fct.py and the like are shared helpers; what counts are the files of modules not selected
    others = {f for k, f in FILES.items() if k not in mods.key()}
    lacking = sorted(want - files)
    ob(f"{mods}: every selected component contributes", "failed" if lacking else "discharged",
       f"nothing from {lacking}" if lacking else None, mods=mods)
    extra = sorted(files & others)
    ob(f"{mods}: no component that is not selected", "failed" if extra else "discharged",
       f"components from {extra}" if extra else None, mods=mods)
    ob(f"{mods}: no component is overwritten", "failed" if b.model.replaced else "discharged",
       f"redefined: {b.model.replaced}", mods=mods)
    inactive = [c.name for c in cons if not c.active]
    ob(f"{mods}: all constraints active", "failed" if inactive else "discharged", f"{inactive}", mods=mods)
    refs = [(c, reach(c.rule)) for c in cons]
    bad = None
    uns = None
    total = 0
    for o, f in made:
        cls = type(o).__name__
        if cls not in KINDS:
            uns = f"constraint class {cls}"
            continue
        kinds, n = KINDS[cls]
        total += n
        hits = [c for c, ids in refs if id(o) in ids or id(o.rule) in ids]
        if len(hits) != n:
            # two declarations may share one rule function
            same = sum(KINDS[type(q).__name__][1] for q, g in made if q.rule is o.rule and type(q).__name__ in KINDS)
            if len(hits) != same:
                bad = f"{cls} {o.name} from {f} appears {len(hits)} times, expected {n}"
                break
        wrong = [c.name for c in hits if c.kinds() != kinds]
        if wrong:
            bad = f"{cls} {o.name} from {f} is declared over {hits[0].kinds()}, expected {kinds}"
            break
    ob(f"{mods}: every declared constraint is in the model exactly once over its index sets",
       "failed" if bad else ("unsupported" if uns else "discharged"), bad or uns, mods=mods)
    if not uns:
        ob(f"{mods}: no other constraint is in the model", "discharged" if len(cons) == total else "failed",
           f"{len(cons)} constraints in the model, {total} declared", mods=mods)


def classes(ob, w):
    """contract of every to_pyomo_constraint, for an arbitrary rule"""
    pu = w["mimosa.common.pyomo_utils"]
    m = P.SModel()
    m.t, m.regions = P.SSet(), P.SSet()
    P.VAR_APPS.update({"lhs", "rhs"})
    P._hv.clear()
    for cls, (kinds, n) in KINDS.items():
        idx = {"t": t_, "regions": r_}
        ix = tuple(idx[k] for k in kinds)
        C = getattr(pu, cls, None)
        if C is None:
            ob(f"contract of {cls}.to_pyomo_constraint", "unsupported", "class not found", kind="contract")
            continue
        eps, aeps = var("eps"), var("aeps")
        ign = app("ignored", *ix, sort="B")
        calls = []
        if n == 1:
            rel = app("lhs", *ix) == app("rhs", *ix)
            variants = [("", lambda: C(lambda mm, *i: app("lhs", *i) == app("rhs", *i), "nm"), None)]
        else:
            lhs, rhs = (lambda mm, *i: app("lhs", *i)), (lambda mm, *i: app("rhs", *i))
            ig = lambda mm, *i: T.decide(ign)  # noqa: E731
            variants = [("relative", lambda: C(lhs, rhs, "nm", epsilon=eps), (1 + eps, 1 - eps, 0)),
                        ("relative, conditional", lambda: C(lhs, rhs, "nm", epsilon=eps, ignore_if=ig), (1 + eps, 1 - eps, 0)),
                        ("absolute", lambda: C(lhs, rhs, "nm", absolute_epsilon=aeps), (1, 1, aeps)),
                        ("absolute, conditional", lambda: C(lhs, rhs, "nm", absolute_epsilon=aeps, ignore_if=ig), (1, 1, aeps))]
        for vn, mk, e in variants:
            name = f"contract of {cls}.to_pyomo_constraint {vn}".strip()
            def thunk():
                c = mk().to_pyomo_constraint(m)
                cs = c if isinstance(c, (list, tuple)) else [c]
                res = []
                for z in cs:
                    res.append((z.kinds() if isinstance(z, P.SConstraint) else None, M.flatten(z.rule(m, *ix))))
                return res
            paths = E.Explorer([]).run(thunk)
            st, det = "discharged", None
            for p in paths:
                if p.kind != "return":
                    st, det = ("unsupported" if p.kind == "unsupported" else "failed"), f"{type(p.value).__name__}: {p.value}"
                    break
                if any(k != kinds for k, _ in p.value):
                    st, det = "failed", f"index sets {[k for k, _ in p.value]}, expected {kinds}"
                    break
                rels = [x for _, xs in p.value for x in xs]
                l_, r2 = app("lhs", *ix), app("rhs", *ix)
                if n == 1:
                    want = [rel]
                elif any(c is ign for c in p.cond):
                    want = []
                else:
                    hi, lo, ab = e
                    want = [l_ <= hi * r2 + ab, lo * r2 - ab <= l_]
                if len(want) != len(rels) or not all(any(M.same_rel(a, x) for x in rels) for a in want):
                    st, det = "failed", f"imposes {[T.show(x) for x in rels]}, expected {[T.show(x) for x in want]}"
                    break
            ob(name, st, det, kind="contract")
    P.VAR_APPS.discard("lhs")
    P.VAR_APPS.discard("rhs")
    P._hv.clear()


def naming(ob, w):
    """add_constraint adds every constraint it is given, under a new name, and touches nothing else"""
    pu = w["mimosa.common.pyomo_utils"]
    for case, args in (("one named", (1, "a")), ("one unnamed", (1, None)), ("two named", (2, ["a", "b"])),
                       ("two unnamed", (2, [None, None])), ("same name twice", None)):
        def thunk():
            m = P.SModel()
            m.t, m.regions, m.x = P.SSet(), P.SSet(), P.SVar()
            before = dict(m._comps)
            mk = lambda: P.SConstraint(m.t, rule=lambda mm, t: None)  # noqa: E731
            cs = [mk(), mk(), mk(), mk()]
            if args is None:
                pu.add_constraint(m, cs[0], "a")
                try:
                    pu.add_constraint(m, cs[1], "a")
                except RuntimeError:
                    used = cs[:1]
                else:
                    used = cs[:2]
            else:
                pu.add_constraint(m, cs[0], None)
                n, names = args
                pu.add_constraint(m, cs[1] if n == 1 else cs[1:3], names)
                pu.add_constraint(m, cs[3], None)
                used = cs[:1] + (cs[1:2] if n == 1 else cs[1:3]) + cs[3:]
            after = m._comps
            if any(after.get(k) is not v for k, v in before.items()) or m.replaced:
                return "an existing component changed"
            new = [v for k, v in after.items() if k not in before]
            if len(new) != len(used) or any(not any(v is u for v in new) for u in used):
                return f"{len(used)} constraints given, {len(new)} in the model"
            return None
        ps = E.Explorer([]).run(thunk)
        st, det = "discharged", None
        for p in ps:
            if p.kind != "return":
                st, det = ("unsupported" if p.kind == "unsupported" else "failed"), f"{type(p.value).__name__}: {p.value}"
            elif p.value:
                st, det = "failed", p.value
        ob(f"contract of add_constraint: {case}", st, det, kind="contract")


class Choice:
    """a module name: an arbitrary text"""
    __symbolic__ = __vc_attr__ = True

    def __init__(self, arg):
        self.arg = arg
        self.asked = set()

    def __eq__(self, o):
        if isinstance(o, str):
            self.asked.add(o)
            cur = E.current()
            if cur is not None and any(c.op == "app" and str(c.args[0]).startswith(f"is[{self.arg}=") and c.args[0] != f"is[{self.arg}={o}]"
                                       for c in cur.cond):
                return False                # the text is known to be another one
            return app(f"is[{self.arg}={o}]", sort="B")
        return o is self

    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r) if isinstance(r, Term) else not r

    def __hash__(self):
        raise Unsupported("module name as a dictionary key")

    def __vc_in__(self, c):
        for x in c:
            if T.decide(self == x):
                return True
        return False

    def __vc_key__(self, d):
        for x in d:
            if T.decide(self == x):
                return x
        raise KeyError(self)


def unknown(ob, w):
    """for every five texts: the model is built if all are documented choices, otherwise an error is raised"""
    params = M.load_template(w.repo)["model"]
    docs = [("damage module", L.DAMAGE), ("emissiontrade module", L.TRADE), ("financialtransfer module", L.TRANSFER),
            ("welfare module", L.WELFARE), ("objective module", L.OBJECTIVE)]
    f = w["mimosa.abstract_model.create_abstract_model"]
    for i, (arg, opts) in enumerate(docs):
        decl = set(params[arg]["values"])
        if decl != set(opts):
            ob(f"declared choices of {arg}", "failed", f"{sorted(decl)}, documented {sorted(opts)}")
        c = Choice(arg)
        args = ["COACCH", "notrade", "notransfer", "welfare_loss_minimising", "utility"]
        args[i] = c
        facts = []
        names = sorted(set(opts) | {"x"})
        ps = E.Explorer([]).run(lambda: f(*args))
        all_ = sorted(c.asked | set(opts))
        excl = [Or(Not(c == a), Not(c == b)) for k, a in enumerate(all_) for b in all_[:k]]
        known = Or(*[c == o for o in opts])
        st, det = "discharged", None
        for p in ps:
            if smt.sat(excl + p.cond) == "unsat":
                continue
            if p.kind == "unsupported" or p.kind == "raise" and E.of_engine(p.value):
                st, det = "unsupported", str(p.value)
                break
            if p.kind == "return" and smt.sat(excl + p.cond + [Not(known)]) != "unsat":
                st, det = "failed", f"an unknown {arg} builds a model: {[T.show(x) for x in p.cond]}"
                break
            if p.kind == "raise" and smt.sat(excl + p.cond + [known]) != "unsat":
                st, det = "failed", f"a documented {arg} raises {p.value!r}: {[T.show(x) for x in p.cond]}"
                break
        ob(f"unknown {arg} raises, documented choices do not", st, det, how="smt")
