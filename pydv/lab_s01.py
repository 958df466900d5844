"""S01 on the real code: real models in simulation mode, their active constraints against what was asked"""
import csv
import math
import os
import tempfile

from reallab import lab, silent

EPS = 1e-3


def exprs(m, pe):
    """text of every constraint -> how often, active ones and inactive components"""
    out, off = {}, set()
    for c in m.component_objects(pe.Constraint):
        if not c.active:
            off.add(c.local_name)
        for k in c:
            d = c[k]
            if d.active and c.active:
                s = str(d.expr)
                out.setdefault(s, []).append(d)
    return out, off


@lab("S01")
def simulation(job, res):
    with silent():
        import mimosa.mimosa as mm
        import pyomo.environ as pe
        from pyomo.core.expr.visitor import identify_variables

    class Mod(mm.MIMOSA):
        def preprocessing(self):
            pass
    r = res.rng
    tmp = tempfile.mkdtemp(prefix="s01", dir=os.getcwd())

    def build(u):
        with silent():
            return Mod(u).concrete_model

    n = 0
    bases = [{"model": {"damage module": "nodamage"}, "regions": {"USA": {}, "INDIA": {}}, "time": {"start": 2020, "end": 2070, "dt": 10}},
             {"regions": {"USA": {}, "CHN": {}}, "time": {"start": 2020, "end": 2100, "dt": 20},
              "model": {"emissiontrade module": "emissiontrade", "financialtransfer module": "globaldamagepool"}},
             {"regions": {"INDIA": {}}, "time": {"start": 2015, "end": 2055, "dt": 7.5}, "model": {"emissiontrade module": "globalcostpool"}},
             {"regions": {"USA": {}, "BRA": {}}, "time": {"start": 2020, "end": 2160, "dt": 20},
              "model": {"damage module": "nodamage", "welfare module": "cost_minimising", "objective module": "globalcosts"}}]
    k = -1
    while res.left() > 0.5 and n < (4 if res.quick else 400):
        k += 1
        if k > 2000:
            break
        u0 = dict(bases[k % len(bases)])
        n += 1
        try:
            m0 = build(dict(u0))
        except Exception as e:
            res["notes"].append(f"model does not build: {type(e).__name__}: {e}")
            continue
        e0, off0 = exprs(m0, pe)
        names = [c.local_name for c in m0.component_objects(pe.Constraint)]
        plain = [c[len("constraint_"):] for c in names if c.startswith("constraint_") and not c[len("constraint_"):].isdigit()]
        regs = list(u0["regions"])
        vs = [(v.local_name, v.dim()) for v in m0.component_objects(pe.Var) if v.dim() in (1, 2) and v.index_set() is not m0.regions]
        years = [pe.value(m0.beginyear) + i * pe.value(m0.dt) for i in m0.t]

        def off_mode(sim, what):
            u = dict(u0, simulation=sim)
            m = build(u)
            e, off = exprs(m, pe)
            res.ran(1)
            if {s: len(c) for s, c in e.items()} != {s: len(c) for s, c in e0.items()} or off != off0:
                res.finding(f"{what} changes the constraints", config=u)

        def run(pins, off, how):
            """pins: name -> row label -> year -> value"""
            cv = {}
            files = {}
            for v, rows in pins.items():
                h = r.choice(["inline", "file"]) if how == "mixed" else how
                if h == "inline":
                    ys = sorted({y for row in rows.values() for y in row})
                    cv[v] = {y: {lab_: row[y] for lab_, row in rows.items()} for y in ys}
                else:
                    files.setdefault(tuple(sorted({y for row in rows.values() for y in row})), []).append(v)
            for i, (ys, group) in enumerate(files.items()):
                # files of one name in several folders, and several of one folder
                folder = os.path.join(tmp, f"d{len(os.listdir(tmp)) if i < 2 else max(0, len(os.listdir(tmp)) - 1)}")
                os.makedirs(folder, exist_ok=True)
                path = os.path.join(folder, "out.csv" if not os.path.exists(folder + "/out.csv") else f"out{len(os.listdir(folder))}.csv")
                cols = [0, 1, 2] if r.random() < 0.7 else [0, 1]      # a file need not name units
                with open(path, "w", newline="") as f:
                    w = csv.writer(f)
                    w.writerow(["Variable", "Region", "Unit"][:len(cols)] + ["%g" % y for y in ys])
                    w.writerow(["another", "Global", "x"][:len(cols)] + [5.0 + y for y in ys])
                    w.writerow(["another", regs[0], "x"][:len(cols)] + [6.0 + y for y in ys])
                    lines = []
                    for v in group:
                        for lab_, row in pins[v].items():
                            lines.append([v, lab_, "x"] + [repr(row[y]) for y in ys])
                            lines += [[o, lab_, "x"] + [repr(row[y] + k_ + 1) for y in ys] for k_, o in enumerate((v + "_other", v[:-1], v.upper(), "x" + v))
                                      if o not in pins]
                    r.shuffle(lines)
                    w.writerows([[x for j, x in enumerate(line) if j != 2 or 2 in cols] for line in lines])
                for v in group:
                    cv[v] = path
            u = dict(u0, simulation={"simulationmode": True, "constraint_variables": cv, "deactivated_constraints": off})
            m = build(u)
            e, offs = exprs(m, pe)
            res.ran(1, {"config": u})
            want_off = {"constraint_" + c for c in off} | off0
            if offs != want_off:
                res.finding(f"deactivated {sorted(offs)}, asked {sorted(want_off)}", config=u)
                return
            off_text = {}
            for c in offs:
                for kk in getattr(m0, c):
                    s = str(getattr(m0, c)[kk].expr)
                    off_text[s] = off_text.get(s, 0) + 1
            box = {}
            for s, cs in e.items():
                extra = len(cs) - (len(e0.get(s, [])) - off_text.get(s, 0))
                if extra < 0:
                    res.finding(f"a constraint is missing: {s[:200]}", config=u)
                    return
                for d in cs[:extra]:
                    vars_ = list(identify_variables(d.body, include_fixed=True))
                    if len(vars_) != 1 or vars_[0].parent_component().local_name not in pins:
                        res.finding(f"simulation mode adds a constraint on something else: {s[:200]}", config=u)
                        return
                    x = vars_[0]
                    old = x.value
                    x.set_value(0.0, skip_validation=True)
                    b0 = pe.value(d.body)
                    x.set_value(1.0, skip_validation=True)
                    a = pe.value(d.body) - b0
                    x.set_value(old, skip_validation=True)
                    lo, hi = box.get(x.name, (-math.inf, math.inf))
                    for bound, up in ((d.lower, False), (d.upper, True)):
                        if bound is None:
                            continue
                        z = (pe.value(bound) - b0) / a
                        if up == (a > 0):
                            hi = min(hi, z)
                        else:
                            lo = max(lo, z)
                    box[x.name] = (lo, hi)
            for s, cs in e0.items():
                if len(e.get(s, [])) < len(cs) - off_text.get(s, 0):
                    res.finding(f"a constraint is missing: {s[:200]}", config=u)
                    return
            for v, rows in pins.items():
                c = getattr(m, v)
                for idx in c:
                    t = idx[0] if isinstance(idx, tuple) else idx
                    row = rows[idx[1] if isinstance(idx, tuple) else "Global"]
                    lo, hi = box.get(c[idx].name, (-math.inf, math.inf))
                    if not (hi - lo <= 2 * EPS + 1e-6 * (1 + abs(hi)) and hi >= lo - 1e-9 * (1 + abs(hi))):
                        res.finding(f"{c[idx].name} is held between {lo} and {hi}, not within 0.001 of a path", config=u, years=years)
                        return
                    y = years[t]
                    want = None
                    ys = sorted(row)
                    if y in row:
                        want = row[y]
                    elif affine[v] and ys[0] <= y <= ys[-1]:
                        want = row[ys[0]] + (row[ys[-1]] - row[ys[0]]) * (y - ys[0]) / (ys[-1] - ys[0])
                    tol = (1e-7 if y in row else 2e-5) * (1 + abs(want or 0))
                    if want is not None and not (want - EPS - tol <= lo <= want + tol and want - tol <= hi <= want + EPS + tol):
                        res.finding(f"{c[idx].name} is held at {(lo + hi) / 2} in {y}, the path says {want}", config=u, years=years)
                        return
        affine = {}

        def path(v, dim, kind):
            labels = regs if dim == 2 else ["Global"]
            labels = labels[:]
            r.shuffle(labels)
            if kind == "sparse":
                last = 2150 + (years[0] % 5)
                ys = sorted({years[0], last} | {years[0] + 5 * i for i in r.sample(range(1, int((last - years[0]) // 5)), min(3, int((last - years[0]) // 5) - 1))})
            else:
                ys = list(years)
                if len(ys) < 4:
                    ys += [ys[-1] + 5 * i for i in (1, 2)]
            ys = [int(y) if float(y).is_integer() else y for y in ys]
            affine[v] = kind == "sparse"
            rows = {}
            for x in labels:
                a, b = r.uniform(-1, 3), r.uniform(-0.02, 0.05)
                # (no rounding of affine rows: a cubic through unevenly spaced points amplifies it between them)
                rows[x] = {y: a + b * (y - ys[0]) if affine[v] else round(r.uniform(-1, 5), 6) for y in ys}
            return rows
        r.shuffle(vs)
        regional = [x for x in vs if x[1] == 2]
        glob = [x for x in vs if x[1] == 1]
        plans = [([regional[0], glob[0]], "file"), ([regional[-1]], "inline"), ([glob[-1]], "inline"), (regional[1:3] + glob[1:2], "mixed")]
        try:
            off_mode({"simulationmode": False, "constraint_variables": {vs[0][0]: {2020: {x: 0.5 for x in regs}}},
                      "deactivated_constraints": [plain[0]] if plain else []}, "switched-off simulation")
            for pl, how in plans:
                if res.left() < 0.5:
                    break
                pins = {v: path(v, d, r.choice(["sparse", "exact"])) for v, d in pl}
                run(pins, r.sample(plain, min(len(plain), r.choice([0, 1, 3]))), how)
        except Exception as e:
            res.finding(f"simulation mode raises {type(e).__name__}: {str(e)[:300]}", config=u0)
        for what, sim in (("pinned variable", {"constraint_variables": {"no_such": {y: {x: 1.0 for x in regs + ["Global"]} for y in (2020, 2040, 2060, 2080)}}}),
                          ("deactivated constraint", {"deactivated_constraints": ["no_such"]})):
            u = dict(u0, simulation=dict(sim, simulationmode=True))
            res.ran(1)
            try:
                build(u)
            except Exception:
                continue
            res.finding(f"unknown {what} is accepted", config=u)
