"""M18 on the real code: every module combination built, components counted"""
import os

from reallab import lab, REPO, silent, load

L = load("laws")
KINDS = {"GlobalConstraint": 1, "GlobalInitConstraint": 1, "RegionalConstraint": 1, "RegionalInitConstraint": 1,
         "GlobalSoftEqualityConstraint": 2, "RegionalSoftEqualityConstraint": 2}
DIMS = {"GlobalConstraint": ["t"], "GlobalInitConstraint": [], "RegionalConstraint": ["t", "regions"],
        "RegionalInitConstraint": ["regions"], "GlobalSoftEqualityConstraint": ["t"],
        "RegionalSoftEqualityConstraint": ["t", "regions"]}


@lab("M18")
def composition(job, res):
    with silent():
        import mimosa.common.pyomo_utils as pu
        import mimosa.abstract_model as am
        import pyomo.environ as pe
    made = []
    init = pu.GeneralConstraint.__init__

    def spy(self, *a, **k):
        made.append(self)
        return init(self, *a, **k)
    pu.GeneralConstraint.__init__ = spy
    try:
        combos = L.all_mods()
        for mods in combos:
            if res.left() < 0:
                res["notes"].append("time limit")
                break
            del made[:]
            try:
                with silent():
                    m = am.create_abstract_model(*mods.args())
            except Exception as e:
                res.finding(f"{mods} does not build: {type(e).__name__}: {e}", mods=mods.key())
                continue
            cons = [c for c in m.component_objects(pe.Constraint)]
            want = {}
            for c in made:
                if type(c).__name__ not in KINDS:
                    want = None
                    break
                d = tuple(DIMS[type(c).__name__])
                want[d] = want.get(d, 0) + KINDS[type(c).__name__]
            if want is not None:
                got = {}
                for c in cons:
                    ix = c.index_set()
                    d = () if not c.is_indexed() else tuple(s.local_name for s in ix.subsets())
                    got[d] = got.get(d, 0) + 1
                res.ran(1, {"mods": mods.key(), "constraints": {str(k): v for k, v in got.items()}})
                if got != want:
                    res.finding(f"{mods}: declared constraints by index sets {want}, in the model {got}", mods=mods.key())
            if [c.local_name for c in cons if not c.active]:
                res.finding(f"{mods}: inactive constraints", mods=mods.key())
            objs = list(m.component_objects(pe.Objective))
            if len(objs) != 1:
                res.finding(f"{mods}: {len(objs)} objectives", mods=mods.key())
    finally:
        pu.GeneralConstraint.__init__ = init
    # the choice of modules
    base = ["COACCH", "notrade", "notransfer", "welfare_loss_minimising", "utility"]
    for i in range(5):
        for name in ("", "coacch", "NOTRADE", "utility ", "x", "no", "notrade" if i != 1 else "nodamage"):
            if name == base[i]:
                continue
            a = list(base)
            a[i] = name
            res.ran(1)
            try:
                with silent():
                    am.create_abstract_model(*a)
            except Exception:
                continue
            res.finding(f"unknown module choice {name!r} as argument {i} builds a model", args=a)


SIGN = {  # a variable or parameter that belongs to one module alone
    "COACCH": "damage_costs_non_slr", "emissiontrade": "global_carbonprice", "globaldamagepool": "rel_financial_transfer"}


@lab("M18")
def selection(job, res):
    """the constraints of two models that differ in one module differ only by what that module declares"""
    with silent():
        import mimosa.abstract_model as am
        import pyomo.environ as pe
        import mimosa.components as comps
        import inspect
    base = os.path.join(REPO, "mimosa", "components")
    files = {"COACCH": "damages/coacch", "nodamage": "damages/nodamage", "notrade": "emissiontrade/notrade",
             "emissiontrade": "emissiontrade/emissiontrade", "globalcostpool": "emissiontrade/globalcostpool",
             "notransfer": "financialtransfer/notransfer", "globaldamagepool": "financialtransfer/globaldamagepool",
             "welfare_loss_minimising": "welfare/welfare_loss_minimising", "cost_minimising": "welfare/cost_minimising",
             "inequal_aversion_general": "welfare/inequal_aversion_general", "utility": "objective/utility",
             "globalcosts": "objective/globalcosts"}
    always = ["emissions", "sealevelrise", "mitigation", "effortsharing", "cobbdouglas"]
    for mods in L.all_mods():
        if res.left() < 0:
            return
        with silent():
            try:
                m = am.create_abstract_model(*mods.args())
            except Exception:
                continue
        seen = set()
        for c in m.component_objects((pe.Constraint, pe.Param, pe.Var)):
            for f in rule_files(c):
                seen.add(os.path.relpath(f, base)[:-3])
        res.ran(1)
        for k, f in files.items():
            if k not in mods.key() and f in seen:
                res.finding(f"{mods}: rules from {f}, which is not selected", mods=mods.key())
        for f in always + [files[k] for k in mods.key() if k not in ("notrade", "notransfer", "utility", "globalcosts")]:
            if f not in seen and os.path.exists(os.path.join(base, f + ".py")):
                res.finding(f"{mods}: no rule from {f}, which is selected", mods=mods.key())


def rule_files(c):
    out = set()
    r = getattr(c, "rule", None) or getattr(c, "_rule", None)
    todo, seen = [r], set()
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        code = getattr(x, "__code__", None)
        if code is not None and code.co_filename.startswith(os.path.join(REPO, "mimosa", "components")):
            out.add(code.co_filename)
        for cell in getattr(x, "__closure__", None) or ():
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if callable(v):
                todo.append(v)
        for a in ("_fcn", "_initializer", "_init", "_impl"):
            v = getattr(x, a, None)
            if v is not None and not isinstance(v, (int, float, str)):
                todo.append(v)
    return out
