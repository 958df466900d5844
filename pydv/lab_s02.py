"""S02 on the real code: real preprocessed models with a solver that returns whatever it likes"""
import os
import tempfile

from reallab import lab, silent


@lab("S02")
def solving(job, res):
    with silent():
        import mimosa.mimosa as mm
        import pyomo.environ as pe
        from pyomo.opt import SolverFactory, SolverManagerFactory, SolverResults, SolverStatus, TerminationCondition
        from pyomo.core.expr.visitor import identify_variables
        from pyomo.repn import generate_standard_repn
    r = res.rng
    plan = {}
    tmp = tempfile.mkdtemp(prefix="s02", dir=os.getcwd())

    def simple(d):
        """x, y of an equality x == y"""
        if not d.equality:
            return None
        vs = list(identify_variables(d.body, include_fixed=True))
        if len(vs) != 2 or not d.body.polynomial_degree() == 1 and not all(v.fixed for v in vs):
            return None
        rep = generate_standard_repn(d.body, compute_values=True)
        if rep.is_linear() and len(rep.linear_vars) == 2 and sum(rep.linear_coefs) == 0 and abs(rep.constant - pe.value(d.upper)) < 1e-12 and rep.constant == 0:
            return tuple(rep.linear_vars)
        return None

    def answer(model):
        plan["model"] = model
        if plan["how"] == "fail":
            raise RuntimeError("the solver cannot be run")
        seen = {}
        for d in model.component_data_objects(pe.Constraint, active=True):
            for v in identify_variables(d.body, include_fixed=False):
                seen[id(v)] = v
        for v in model.component_data_objects(pe.Var):
            if id(v) not in seen and not v.fixed:
                v.set_value(r.uniform(0.1, 5), skip_validation=True)       # what an earlier run left there
        for v in seen.values():
            v.set_value(r.uniform(0.1, 5), skip_validation=True)
        plan["solution"] = {v.name: v.value for v in seen.values()}
        out = SolverResults()
        out.solver.status = plan["status"]
        out.solver.termination_condition = plan["condition"]
        return out

    class Local:
        def __init__(self, **k):
            self.options = {}

        def available(self, *a, **k):
            return True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def solve(self, model, *a, **k):
            return answer(model)
    for f, names in ((SolverFactory, ("ipopt", "conopt")), (SolverManagerFactory, ("neos",))):
        for n in names:
            f.unregister(n)
            f.register(n)(Local)
    configs = [{"regions": {"USA": {}, "INDIA": {}}, "model": {"damage module": "nodamage"}, "time": {"start": 2020, "end": 2060, "dt": 20}},
               {"regions": {"INDIA": {}}, "time": {"start": 2020, "end": 2060, "dt": 20}},
               {"regions": {"USA": {}, "CHN": {}, "BRA": {}}, "model": {"emissiontrade module": "emissiontrade"}, "time": {"start": 2020, "end": 2060, "dt": 20}},
               {"regions": {"USA": {}, "JAP": {}}, "model": {"financialtransfer module": "globaldamagepool"}, "time": {"start": 2020, "end": 2070, "dt": 12.5}}]
    cond = list(TerminationCondition)
    for k in range(len(configs) if res.quick else 40):
        if res.left() < 0.5:
            break
        u = configs[k % len(configs)]
        before = []

        class Watched(mm.MIMOSA):
            def preprocessing(self):
                c = self.concrete_model
                v = [x for x in c.component_objects(pe.Var) if x.dim() == 2]
                rs = list(c.regions)
                c.tied = pe.Constraint(c.t, rule=lambda m_, t: v[2][t, rs[0]] == v[2][t, rs[-1]] if len(rs) > 1 and t > 0 else pe.Constraint.Skip)
                c.tied2 = pe.Constraint(c.t, rule=lambda m_, t: v[4][t, rs[0]] == v[3][t, rs[0]] if len(rs) > 1 and t > 1 else pe.Constraint.Skip)
                for d in self.concrete_model.component_data_objects(pe.Constraint, active=True):
                    p = simple(d)
                    if p is not None and not p[0].fixed and not p[1].fixed:
                        before.append((d, p))
                return super().preprocessing()
        with silent():
            m = Watched(dict(u))
        pairs = before
        left = [p for d, p in pairs if d.active and simple(d) is not None and not p[0].fixed and not p[1].fixed]
        eq = [p for d, p in pairs if not d.active or not any(v is x for v in identify_variables(d.body, include_fixed=True) for x in p)]   # taken out
        several = len(u["regions"]) > 1
        if several and left:
            res.finding(f"a model with {len(u['regions'])} regions goes to the solver with the equality of {left[0][0].name} and {left[0][1].name}", config=u)
        res["notes"].append(f"{len(eq) > 0} equalities taken out, {len(left)} left for {len(u['regions'])} regions")
        steps = [("ok", False), ("fail", False), ("warning", False), ("ok", True), ("error", True), ("unknown", False), ("ok", False), ("aborted", False),
                 ("aborted", True), ("fail", True), ("error", False), ("warning", True), ("unknown", True), ("ok", False)]
        if k:
            r.shuffle(steps)
        history = []
        saves = (3, 7) if k % 2 == 0 else r.sample(range(1, len(steps)), 2)
        for i, (name, remote) in enumerate(steps):
            if i in saves:
                try:
                    with silent():
                        m.save("between", folder=tmp)
                    history.append("save")
                except Exception as e:   # noqa: BLE001
                    res["notes"].append(f"save: {type(e).__name__}: {e}")
            plan.update(how="fail" if name == "fail" else "", status=None if name == "fail" else SolverStatus(name),
                        condition=TerminationCondition.optimal if name == "ok" else r.choice(cond), model=None)
            kw = {"use_neos": True, "neos_email": "a@b.c"} if remote else r.choice([{}, {"verbose": False}, {"verbose": False, "ipopt_maxiter": 10}])
            history.append((name, str(plan["condition"]), kw))
            err = None
            try:
                with silent():
                    m.solve(**kw)
            except Exception as e:
                err = e
            res.ran(1, {"config": u, "history": list(history)})
            what = f"status {name} ({plan['condition']}) from the {'remote' if remote else 'local'} solver"
            if plan["model"] is None:
                res["notes"].append(f"solver not called: {type(err).__name__}: {err}")
                if err is None:
                    res.finding("solve returns without a solver having run", config=u, history=history)
                continue
            if (err is None) != (name == "ok"):
                res.finding(f"{what}: solve {'returns' if err is None else f'raises {type(err).__name__}: {err}'}", config=u, history=history)
                break
            if name == "fail":
                if m.status is not None and m.status == SolverStatus.ok:
                    res.finding(f"{what}: the stored status is still OK", config=u, history=history)
                    break
                continue
            if m.status != plan["status"]:
                res.finding(f"{what}: stored status {m.status}", config=u, history=history)
                break
            bad = [(x.name, x.value, y.name, y.value) for x, y in eq if x.value is None or y.value is None or abs(x.value - y.value) > 1e-6 * (1 + abs(y.value))]
            if bad:
                res.finding(f"{what}: aggregated variables not restored: {bad[0]}", config=u, history=history)
                break
            moved = [n for n, v in plan["solution"].items() if "aggregat" not in n and m.concrete_model.find_component(n) is not None
                     and abs(m.concrete_model.find_component(n).value - v) > 1e-9]
            if moved:
                res.finding(f"{what}: {moved[0]} is no longer what the solver found", config=u, history=history)
                break
