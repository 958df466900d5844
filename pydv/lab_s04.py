"""S04 on the real code: random sessions of loads, builds (also rejected ones) and saves in one process.  A model must equal the one a fresh
process builds from the same dictionary; earlier models and the caller's dictionaries must be what they were"""
import copy
import json
import math
import os
import shutil
import tempfile

from reallab import lab, silent


def leaf(x, y):
    return x is y or type(x) is type(y) and (x == y or isinstance(x, float) and math.isnan(x) and math.isnan(y))


def same(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return leaf(x, y)


def containers(x, out=None):
    out = set() if out is None else out
    if isinstance(x, (dict, list, set)) and id(x) not in out:
        out.add(id(x))
        for y in (list(x.values()) if isinstance(x, dict) else x):
            containers(y, out)
    elif isinstance(x, tuple):
        for y in x:
            containers(y, out)
    return out


def mess(x):
    """what a caller may do with his dictionary afterwards"""
    if isinstance(x, dict):
        for v in list(x.values()):
            mess(v)
        for k in list(x)[::2]:
            x[k] = "edited"
        x["an added key"] = 1
    elif isinstance(x, list):
        for v in x:
            mess(v)
        x.append("edited")


def text(x):
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k!r}: {text(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return f"{type(x).__name__}[" + ", ".join(text(v) for v in x) + "]"
    return repr(x)


def fingerprint(m, pe):
    """name -> text of everything the model consists of"""
    out = {"the parameters": text(m.params), "the regions": text(getattr(m, "regions", None))}
    c = m.concrete_model
    for x in c.component_objects(descend_into=True):
        n = x.name
        if x.ctype is pe.Param:
            out[n] = text([(k, pe.value(x[k])) for k in x if True]) + str(x._units if hasattr(x, "_units") else "")
        elif x.ctype is pe.Var:
            out[n] = text([(k, str(v.domain), v.lb, v.ub, v.fixed, v.value) for k, v in x.items()])
        elif x.ctype is pe.Constraint:
            out[n] = text([(k, str(v.expr), v.active) for k, v in x.items()])
        elif x.ctype is pe.Objective:
            out[n] = text([(k, str(v.expr), str(v.sense), v.active) for k, v in x.items()])
        elif x.ctype is pe.Set or x.ctype.__name__ == "RangeSet":
            out[n] = text(list(x)) if not x.is_indexed() else n
        else:
            out[n] = type(x).__name__
    out["the components"] = text(list(out))
    return out


def differing(a, b):
    for k in list(a) + list(b):
        if a.get(k) != b.get(k):
            x, y = a.get(k) or "", b.get(k) or ""
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return f"{k}: ...{x[max(0, i - 60):i + 60]!r} against ...{y[max(0, i - 60):i + 60]!r}"
    return None


T = {"start": 2020, "end": 2075, "dt": 10}


FILES = {"x/data.csv": 1.0, "y/data.csv": 1.7, "y/Data.csv": 0.6}
ROWS = [("A", "one", "GDP|PPP"), ("A", "one", "GDP|MER"), ("A", "one", "Emissions|CO2|MER"), ("A", "One", "GDP|PPP"), ("a", "one", "GDP|PPP"), ("A", "one", "gdp|ppp"),
        ("A", "one", "Real GDP|PPP"), ("A", "one", "GDP|PPP|MER")]


def write_files(tmp):
    """scenario files and rows whose names are easily taken for one another, all with different numbers"""
    for n, f in FILES.items():
        os.makedirs(os.path.join(tmp, os.path.dirname(n)), exist_ok=True)
        with open(os.path.join(tmp, n), "w") as fh:
            fh.write("Model,Scenario,Region,Variable,Unit,2010,2020,2040,2060,2080,2100\n")
            for i, (m, sc, v) in enumerate(ROWS):
                for k, reg in enumerate(("USA", "INDIA")):
                    u = "Mt CO2/yr" if "CO2" in v else "billion US$2005/yr"
                    fh.write(f"{m},{sc},{reg},{v},{u}," + ",".join(str(round(f * (3000 + 700 * i + 50 * k) * g, 2)) for g in (0.8, 1, 1.5, 2.1, 2.6, 2.9)) + "\n")


def own(tmp, two):
    def source(f, k, unit):
        m, sc, v = ROWS[k]
        return {"file": os.path.join(tmp, f), "model": m, "scenario": sc, "variable": v, "unit": unit}
    nd = {"damage module": "nodamage"}
    for name, f, g, e in (("own file", "x/data.csv", 0, 2), ("own file, other row", "x/data.csv", 1, None), ("own file, other folder", "y/data.csv", 0, 2),
                          ("own file, other case", "y/Data.csv", 3, None), ("own file, other model", "x/data.csv", 4, None),
                          ("own file, other variable", "y/data.csv", 5, None), ("own file, longer variable", "x/data.csv", 6, None),
                          ("own file, still longer", "x/data.csv", 7, None)):
        vs = {"GDP": source(f, g, "currency_unit")}
        if e is not None:
            vs["emissions"] = source(f, e, "emissionsrate_unit")
        yield name, {"regions": two, "time": T, "model": nd, "input": {"variables": vs}}


def configs(tmp=None):
    two, one = {"USA": {}, "INDIA": {}}, {"INDIA": {}}
    nd = {"damage module": "nodamage"}
    yield "plain", {"regions": two, "time": T, "model": nd}
    yield "other scenario", {"regions": two, "time": T, "model": nd, "SSP": "SSP3"}
    yield "other grid", {"regions": two, "time": {"start": 2015, "end": 2090, "dt": 20}, "model": nd}
    yield "one region", {"regions": one, "time": T}
    yield "region values", {"regions": {"USA": {"MAC": {"kappa": 0.7}, "economics": {"init_capital_factor": 2.9}}, "INDIA": {"MAC": {}}, "BRA": {"COACCH": None}}, "time": T,
                            "effort sharing": {"regime": "equal_mitigation_costs"}}
    yield "mapping", {"regions": one, "time": T, "simulation": {"custom_mapping": {"A0": {"INDIA": 2.0}, "PRTP": {None: 0.3}}, "constraint_variables": {},
                                                                 "deactivated_constraints": []}}
    yield "simulation", {"regions": two, "time": T, "model": nd, "simulation": {"simulationmode": True, "constraint_variables": {
        "temperature": {2020: {"Global": 1.2}, 2040: {"Global": 1.5}, 2060: {"Global": 1.6}, 2090: {"Global": 1.7}}}, "deactivated_constraints": ["regional_inertia"]}}
    yield "trade", {"regions": two, "time": T, "model": {"damage module": "nodamage", "emissiontrade module": "emissiontrade", "financialtransfer module": "notransfer"},
                    "emissions": {"carbonbudget": "500 GtCO2"}}
    yield "pool", {"regions": two, "time": T, "model": {"emissiontrade module": "globalcostpool", "financialtransfer module": "globaldamagepool", "welfare module": "cost_minimising",
                                                         "objective module": "globalcosts"}}
    yield "numbers", {"regions": two, "time": T, "model": nd, "economics": {"PRTP": 0.004, "GDP": {"alpha": 0.31}, "elasmu": 1.3}, "temperature": {"target": "2 delta_degC"},
                      "regionsmappings": [{"regionstype1": "IMAGE26", "regionstype2": "COACCH", "conversiontable": "inputdata/regions/IMAGE26_COACCH.csv"}]}
    yield "rejected: no mappings", {"regions": two, "time": T, "model": nd, "regionsmappings": []}
    yield "rejected number", {"regions": two, "time": {"start": "soon", "end": 2100}, "economics": {"PRTP": 0.02}}
    yield "rejected key", {"regions": two, "economics": {"prtp": 0.02}, "SSP": "SSP5"}
    yield "rejected module", {"regions": two, "model": {"damage module": "none"}}
    if tmp:
        yield from own(tmp, two)
    yield "unknown region", {"regions": {"Atlantis": {}}, "SSP": "SSP1", "time": T}


def outcome(cls, user, pe):
    try:
        with silent():
            m = cls(user)
    except Exception as e:   # noqa: BLE001
        return None, {"rejected": f"{type(e).__name__}: {e}"}
    return m, fingerprint(m, pe)


def fresh(jobs):
    """job -> its result, each in a process of its own"""
    out, pending = {}, []
    for name, f in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, "w") as fh:
                    json.dump(f(), fh)
            finally:
                os._exit(0)
        os.close(w)
        pending.append((name, pid, r))
    for name, pid, r in pending:
        with os.fdopen(r) as fh:
            t = fh.read()
        os.waitpid(pid, 0)
        if t:
            out[name] = json.loads(t)
    return out


@lab("S04")
def sessions(job, res):
    with silent():
        import mimosa.mimosa as mm
        import pyomo.environ as pe
        from mimosa import load_params

    class Mod(mm.MIMOSA):
        def preprocessing(self):
            pass
    r = res.rng
    tmp = tempfile.mkdtemp(prefix="s04", dir=os.getcwd())
    write_files(tmp)
    everything = list(configs(tmp))
    cls = {n: (mm.MIMOSA if n in ("plain", "simulation") else Mod) for n, _ in everything}
    ref = fresh([(n, lambda n=n, u=u: outcome(cls[n], copy.deepcopy(u), pe)[1]) for n, u in everything] + [("load", lambda: text(load_params()))])
    if len(ref) < len(everything) + 1:
        res["notes"].append("no reference from a fresh process")
        return
    valid = [n for n, _ in everything if "rejected" not in ref[n]]
    for n in sorted(set(n for n, _ in everything) - set(valid)):
        if not n.startswith(("rejected", "unknown")):
            res["notes"].append(f"{n} does not build: {ref[n]}")
    users, users0, alive, log = dict(copy.deepcopy(everything)), dict(copy.deepcopy(everything)), [], []
    plan = [n for n, _ in everything]
    r.shuffle(plan)
    plan += [r.choice(plan) for _ in range(0 if res.quick else 400)]

    def intact(when):
        for k, (n, m, u) in enumerate(alive):
            d = differing(ref[n], fingerprint(m, pe))
            if d:
                res.finding(f"{when} changes an earlier model ({n}): {d}", session=list(log))
                alive.pop(k)
                return
    kept = []
    twice = False
    try:
        while plan and res.left() > 1 and len(res["findings"]) < 6:
            n = plan.pop(0)
            if r.random() < 0.35:
                log.append("load_params()")
                with silent():
                    p = load_params()
                if text(p) != ref["load"]:
                    res.finding(f"load_params gives other values than in a fresh process", session=list(log))
                if any(containers(p) & containers(q) for q in kept):
                    res.finding("two results of load_params share a container", session=list(log))
                if r.random() < 0.5:
                    mess(p)
                    log.append("edit its result")
                kept = kept[-2:] + [p]
                res.ran(1, {"session": list(log)})
            u = users[n]
            if r.random() < 0.3:
                u = copy.deepcopy(u)
            log.append(f"MIMOSA({n})")
            m, fp = outcome(cls[n], u, pe)
            res.ran(1, {"session": list(log)})
            if not same(u, users0[n]):
                res.finding(f"building changes the caller's dictionary: {text(u)}", session=list(log), config=text(users0[n]))
                users[n] = copy.deepcopy(users0[n])
            d = differing(ref[n], fp)
            if d:
                res.finding(f"{n}: another model than in a fresh process: {d}", session=list(log), config=text(users0[n]))
            if m is not None:
                if containers(m.params) & containers(u):
                    res.finding("the model keeps a container of the caller's dictionary", session=list(log), config=text(users0[n]))
                for n2, m2, _ in alive:
                    if containers(m.params) & containers(m2.params):
                        res.finding(f"the parameters of two models share a container ({n2}, {n})", session=list(log))
                if not d and len(alive) < 4:
                    alive.append((n, m, u))
            if m is not None and r.random() < 0.4:
                log.append("save it")
                os.chdir(tmp)
                try:
                    for v in m.concrete_model.component_data_objects(pe.Var):
                        v.set_value(0.5, skip_validation=True)
                    before = fingerprint(m, pe)
                    with silent():
                        m.save("x", hash_suffix=r.random() < 0.5, folder=r.choice(["output", "out"]))
                    e = differing(before, fingerprint(m, pe))
                    if e:
                        res.finding(f"saving changes the model ({n}): {e}", session=list(log))
                except Exception as e:   # noqa: BLE001
                    res["notes"].append(f"saving {n}: {type(e).__name__}: {e}")
                finally:
                    os.chdir(os.path.dirname(tmp))
                if alive and alive[-1][1] is m:
                    alive.pop()
            elif m is not None and r.random() < 0.3:
                log.append("edit its parameters")
                if alive and alive[-1][1] is m:
                    alive.pop()
                mess(m.params)
                if not same(u, users0[n]):
                    res.finding(f"editing a model's parameters changes the caller's dictionary", session=list(log))
                    users[n] = copy.deepcopy(users0[n])
            if not plan and not twice:
                intact("a later call")
                twice = True
                plan = [x for x in valid]
                r.shuffle(plan)
        intact("a later call")
    finally:
        os.chdir(os.path.dirname(tmp))
        shutil.rmtree(tmp, ignore_errors=True)
