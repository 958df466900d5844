"""S03 on the real code: real models with arbitrary variable values saved in a scratch folder, files read back and compared with the model"""
import csv
import json
import math
import os
import re
import shutil
import tempfile

from reallab import lab, silent


def text_of_unit(u):
    return "" if u is None else re.sub(r"/([A-Za-z_][A-Za-z_0-9]*)", lambda k: "/yr" if k.group(1) == "a" else k.group(0), str(u))


def plain(x):
    """what JSON makes of a value"""
    if isinstance(x, dict):
        return {(k if isinstance(k, str) else json.loads(json.dumps({k: 0}).split(":")[0][1:]) if k is None or isinstance(k, (int, float)) else "*"): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def agree(a, b):
    """a: the run's parameter, b: what the file says (keys that are not JSON's may be written in any way)"""
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        ks, rest = {}, []
        for k, v in a.items():
            if k is None or isinstance(k, (str, int, float)):
                ks[json.loads(json.dumps(list({k: 0})[0])) if isinstance(k, str) else json.loads("[" + json.dumps({k: 0})[1:].rsplit(":", 1)[0] + "]")[0]] = v
            else:
                rest.append(v)
        if not all(k in b and agree(v, b[k]) for k, v in ks.items()):
            return False
        other = [v for k, v in b.items() if k not in ks]
        return len(other) == len(rest) and all(agree(x, y) for x, y in zip(rest, other))
    if isinstance(a, (list, tuple)):
        return isinstance(b, list) and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or a is None or isinstance(a, str):
        return type(a) is type(b) and a == b
    return not isinstance(b, bool) and isinstance(b, (int, float)) and (a == b or (math.isnan(a) and math.isnan(b)))


@lab("S03")
def saving(job, res):
    with silent():
        import mimosa.mimosa as mm
        import pyomo.environ as pe
        from mimosa.export import save as sv

    class Mod(mm.MIMOSA):
        def preprocessing(self):
            pass
    r = res.rng
    tmp = tempfile.mkdtemp(prefix="s03", dir=os.getcwd())
    home = os.getcwd()
    os.chdir(tmp)
    try:
        configs = [{"model": {"damage module": "nodamage"}, "regions": {"USA": {}, "INDIA": {}}, "time": {"start": 2020, "end": 2062, "dt": 3.5}},
                   {"regions": {"INDIA": {}}, "time": {"start": 2015, "end": 2055, "dt": 20},
                    "simulation": {"custom_mapping": {"A0": {"INDIA": 2.0}, "baseline_GDP": {(i, "INDIA"): 1.0 + i for i in range(3)}}}},
                   {"regions": {"USA": {}, "CHN": {}, "BRA": {}}, "time": {"start": 2020, "end": 2100, "dt": 20},
                    "model": {"emissiontrade module": "emissiontrade", "financialtransfer module": "globaldamagepool"}},
                   {"regions": {"USA": {}, "BRA": {}}, "time": {"start": 2020, "end": 2160, "dt": 20},
                    "model": {"damage module": "nodamage", "welfare module": "cost_minimising", "objective module": "globalcosts"}},
                   {"model": {"damage module": "nodamage"}, "regions": {"USA": {}, "INDIA": {}}, "time": {"start": 2020, "end": 2062, "dt": 3.5},
                    "economics": {"PRTP": 0.012}},
                   {"model": {"damage module": "nodamage"}, "regions": {"USA": {}, "INDIA": {}}, "time": {"start": 2020, "end": 2062, "dt": 3.5},
                    "simulation": {"simulationmode": False, "deactivated_constraints": ["inertia_regional"]}}]
        suffixes = {}
        k = -1
        while k < (len(configs) if res.quick else 300) - 1 and res.left() > 0.3:
            k += 1
            u = dict(configs[k % len(configs)])
            if k >= len(configs):
                u["time"] = dict(u["time"], dt=r.choice([2.5, 5, 7, 12.3, 20]))
                if "simulation" in u:
                    n = int(40 // u["time"]["dt"]) + 2
                    u["simulation"] = {"custom_mapping": {"baseline_GDP": {(i, "INDIA"): 1.0 + i for i in range(n)}}}
            try:
                with silent():
                    m = Mod(u)
            except Exception as e:
                res["notes"].append(f"model does not build: {type(e).__name__}: {e}")
                continue
            c = m.concrete_model
            extra = []
            if k % 2:      # components a user of the library adds
                c.an_extra_row = pe.Var(c.t, units=getattr(pe.units, "kg") / pe.units.atm)
                c.another_extra_row = pe.Var(c.t, c.regions)
                extra = ["an_extra_row"]
            for v in c.component_data_objects(pe.Var):
                v.set_value(r.choice([0.0, 1e-9, -1.23456789e-5, 123456789.123, 1 / 3, -2.5]) * r.choice([1, r.uniform(0.5, 2)]), skip_validation=True)
            regs = list(c.regions)
            ts = list(c.t)
            want = {}
            for x in c.component_objects([pe.Var, pe.Param]):
                if x.local_name.startswith("_"):
                    continue
                sets = [z.local_name for z in x.index_set().subsets()]
                isvar = x.ctype is pe.Var
                if sets == ["t"] and isvar:
                    want[(x.local_name, "Global")] = (x, None)
                elif sets == ["t", "regions"]:
                    for q in regs:
                        want[(x.local_name, q)] = (x, q)
            before = {id(v): v.value for v in c.component_data_objects(pe.Var)}
            par0 = json.dumps(plain(m.params), sort_keys=True)
            for j, (name, folder, suffix) in enumerate([("Run", None, False), ("run 2.B", "Out", True), ("x", "deep/er", False), ("_Other", "deep", True)]):
                if k and j != (k % 4 if k < 4 else 1 + 2 * (k % 2)):
                    continue
                shutil.rmtree(os.path.join(tmp, "w"), ignore_errors=True)
                os.makedirs(os.path.join(tmp, "w"))
                os.chdir(os.path.join(tmp, "w"))
                if r.random() < 0.5:
                    os.makedirs(folder or "output")
                kw = {} if folder is None else {"folder": folder}
                if suffix or r.random() < 0.5:
                    kw["hash_suffix"] = suffix
                data = {"config": str(u), "name": name, "options": kw}
                try:
                    with silent():
                        m.save(name, **kw)
                except Exception as e:
                    res.finding(f"saving raises {type(e).__name__}: {e}", **data)
                    continue
                res.ran(1, data)
                found = [os.path.join(d, f) for d, _, fs in os.walk(".") for f in fs]
                csvs = [f for f in found if f.endswith(".csv")]
                base = os.path.join(".", folder or "output", name)
                if len(found) != 2 or len(csvs) != 1 or csvs[0] + ".params.json" not in found:
                    res.finding(f"files written: {sorted(found)}", **data)
                    continue
                f = csvs[0]
                if not suffix and f != base + ".csv" or suffix and not (f.startswith(base + "_") and len(f) > len(base) + 5):
                    res.finding(f"file is called {f}", **data)
                if suffix:
                    key = f[len(base) + 1:-4]
                    for other, p in suffixes.items():
                        if (other == key) != (p == par0):
                            res.finding(f"suffixes {key} and {other} for {'equal' if p == par0 else 'different'} parameters", **data)
                    suffixes[key] = par0
                with open(f + ".params.json") as fh:
                    j_ = json.load(fh)
                if not agree(m.params, j_):
                    res.finding("the parameter file does not hold the run's parameters", **data)
                with open(f, newline="") as fh:
                    rows = list(csv.reader(fh))
                years = ["%g" % (pe.value(c.beginyear) + t * pe.value(c.dt)) for t in ts]
                if rows[0] != ["Variable", "Region", "Unit"] + years:
                    res.finding(f"columns {rows[0]}, wanted the years {years}", **data)
                    continue
                seen = {}
                for row in rows[1:]:
                    key = (row[0], row[1])
                    seen[key] = seen.get(key, 0) + 1
                    if key not in want:
                        res.finding(f"row {key} does not belong to the model", **data)
                        continue
                    x, q = want[key]
                    unit = text_of_unit(pe.units.get_units(x))
                    if row[2] != unit:
                        res.finding(f"unit {row[2]!r} of {key}, wanted {unit!r}", **data)
                    vals = ["%.6g" % pe.value(x[t] if q is None else x[t, q]) for t in ts]
                    for g, v, y in zip(row[3:], vals, years):
                        if g != v and not (g not in ("", "nan") and float(g) == float(v)) and not (v == "nan" and g in ("", "nan")):
                            res.finding(f"{key} in {y} is written {g}, the model has {v}", **data)
                            break
                for key in want:
                    if seen.get(key) != 1:
                        res.finding(f"{seen.get(key, 0)} rows for {key}", **data)
                if {id(v): v.value for v in c.component_data_objects(pe.Var)} != before or json.dumps(plain(m.params), sort_keys=True) != par0:
                    res.finding("saving changes the model or its parameters", **data)
            # a rule that returns other values the second time must not matter; names are per component
        del extra
    finally:
        os.chdir(home)
        shutil.rmtree(tmp, ignore_errors=True)
