"""C07 on the real code: the data of real stores and models against an independent reading of the scenario files"""
import csv
import math
import os
import tempfile

from reallab import lab, silent, load, REPO

TR = load("truth")
value_of = load("lab_c04").value_of
REGIONS = ["USA", "CHN", "INDIA", "WEU", "RSAF", "BRA", "JAP", "CEU", "ME", "SEAS"]
NEAR = ["Usa", "usa", "USA1", "usa"]      # regions that only look like another
UNITS = {"GDP": ["billion US$2005/yr", "trillion US$2005/yr", "million US$2005/yr", "billion US$2010/yr"],
         "emissions": ["Mt CO2/yr", "Gt CO2/yr", "kt CO2/yr"], "population": ["million", "billion", "thousand"]}
TARGET = {"GDP": ["currency_unit", "billion USD2005/yr"], "emissions": ["emissionsrate_unit", "MtCO2/yr"], "population": ["population_unit", "million"]}
# names of rows that a careless reading takes for one another; the first is the usual one
LIKE = {"GDP": ["GDP|PPP", "GDP|MER", "gdp|ppp"], "emissions": ["Emissions|CO2", "Emissions|MER", "Emissions|CO2|PPP"],
        "population": ["Population", "Population|PPP", "Population|CO2"]}
MODELS, SCENARIOS = ["A", "a", "A B"], ["one", "One", "SSP2-x"]
SCALE = {"GDP": 2000.0, "emissions": 3000.0, "population": 300.0}


def files(r, tmp, k):
    """a random scenario file: two models, two scenarios, some doubled or absent rows"""
    path = os.path.join(tmp, ["x", "y", "x"][k], ["data.csv", "data.csv", "Data.csv"][k])      # names differ only in folder or case
    os.makedirs(os.path.dirname(path), exist_ok=True)
    ys = [2010] + sorted(r.sample([2015, 2020, 2025, 2030, 2045, 2050, 2060, 2070, 2085, 2090, 2095], r.randint(3, 7))) + [2100]
    head = ["Model", "Scenario", "Region", "Variable", "Unit"]
    if r.random() < 0.5:
        head = [h.lower() for h in head]
    rows, twice, absent = [], [], []
    for mo in MODELS:
        for sc in SCENARIOS:
            for reg in REGIONS[:6] + NEAR[:3]:
                for v, name in ((v, name) for v in LIKE for name in LIKE[v]):
                    if name != LIKE[v][0] and r.random() < 0.4:
                        continue
                    x = SCALE[v] * r.uniform(0.2, 2)
                    vals = []
                    for _ in ys:
                        x *= r.uniform(0.8, 1.4)
                        vals.append(round(x if v != "emissions" else x * r.choice([1, 1, 0.7, -0.2]), 3))
                    shape = r.random()
                    if shape < 0.06:
                        vals[0] = 0.0
                    elif shape < 0.10:
                        vals[-1] = vals[-2]
                    elif shape < 0.14:
                        vals[-1] = 0.0 if v == "emissions" else vals[-1]
                    elif shape < 0.18:
                        vals.sort(reverse=True)
                    elif shape < 0.20:
                        vals = [abs(vals[0])] * len(vals)
                    row = [mo, sc, reg, name, UNITS[v][0]] + vals
                    z = r.random()
                    if z < 0.04:
                        absent.append((mo, sc, reg, name))
                        continue
                    rows.append(row)
                    if z > 0.96:
                        twice.append((mo, sc, reg, name))
                        rows.append(row[:4] + row[4:])
    if k % 2:
        r.shuffle(rows)
    for row in rows:
        v = next(v for v in LIKE if row[3] in LIKE[v])
        row[4] = r.choice(UNITS[v])
    for key in twice:
        if r.random() < 0.5:        # the second row says exactly the same
            a = [i for i, row in enumerate(rows) if tuple(row[:4]) == key]
            rows[a[1]] = list(rows[a[0]])
    with open(path, "w", newline="") as f:
        wr = csv.writer(f)
        wr.writerow(head + ys)
        wr.writerows(rows)
    return path, twice, absent


NAMES = {"GDP": "GDP|PPP", "emissions": "Emissions|CO2", "population": "Population"}


def compare(res, t, get, what, u, points, only=None):
    bad = False
    for v in [only] if only else NAMES:
        for reg in t.regions():
            want = t.data(v, reg, [y for _, y in points])
            scale = max(1e-9, max(map(abs, want)))
            for (k, y), x in zip(points, want):
                try:
                    g = float(get(v, reg, k, y))
                except (KeyError, TypeError, ValueError) as e:
                    g = math.nan
                if not abs(g - x) <= 1e-7 * scale:
                    res.finding(f"{what}: {v} of {reg} in {y} is {g}, the file gives {x}", config=u)
                    bad = True
                    break
            if bad:
                return False
    return True


@lab("C07")
def stores(job, res):
    with silent():
        import mimosa.mimosa as mm

    class M(mm.MIMOSA):
        def preprocessing(self):
            pass
    r = res.rng
    tmp = tempfile.mkdtemp(prefix="c07", dir=os.getcwd())
    shipped = ["inputdata/data/data_IMAGE_SSP.csv"]
    harm = "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv"
    if os.path.exists(os.path.join(REPO, "mimosa", harm)):
        shipped.append(harm)
    own = [files(r, tmp, k) for k in range(3)]
    old = []
    n = 0
    while res.left() > 0.4 and n < (26 if res.quick else 3000):
        n += 1
        u = {"model": {"damage module": "nodamage"}, "SSP": r.choice([f"SSP{i}" for i in range(1, 6)]),
             "time": {"start": r.choice([2010, 2015, 2020, 2020]), "end": r.choice([2050, 2100, 2150, 2170, 2290]),
                      "dt": r.choice([5, 10, 7.5, 3.3, 20])},
             "regions": {x: {} for x in r.sample(REGIONS[:6], r.choice([1, 2]))}}
        expect = None
        kind = n % 4
        if kind == 1:
            pass
        elif kind == 2 and len(shipped) > 1:
            u["input"] = {"variables": {v: {"file": shipped[1], "model": "IMAGE", "scenario": "{SSP}-Ref-SPA0-V17", "variable": NAMES[v],
                                            "unit": TARGET[v][0]} for v in r.sample(list(NAMES), r.choice([1, 3]))}}
        else:
            vs = {}
            for v in r.sample(list(NAMES), r.choice([1, 2, 3])):
                path, twice, absent = r.choice(own)
                vs[v] = {"file": path, "model": r.choice(MODELS), "scenario": r.choice(["one", "One", "{SSP}-x" if u["SSP"] == "SSP2" else "one"]),
                         "variable": r.choice(LIKE[v]), "unit": r.choice(TARGET[v])}
                sc = vs[v]["scenario"].replace("{SSP}", u["SSP"])
                for reg in u["regions"]:
                    key = (vs[v]["model"], sc, reg, vs[v]["variable"])
                    if key in twice or key in absent:
                        expect = f"{'two rows' if key in twice else 'no row'} of {key}"
            if kind == 0:
                v = r.choice(list(vs))
                k = r.choice(["model", "scenario", "variable"])
                vs[v][k] += r.choice(["x", "-", " "])
                expect = f"no row of {k} {vs[v][k]!r}"
            u["input"] = {"variables": vs}
        try:
            t = TR.Truth(REPO, u, value_of)
            for v in NAMES:
                for reg in t.regions():
                    t.series(v, reg)
            if expect:
                res["notes"].append("the independent reading accepts " + expect)
                continue
        except LookupError as e:
            expect = expect or str(e)
        try:
            with silent():
                model = M(u)
        except Exception as e:   # noqa: BLE001
            res.ran(1)
            if expect is None:
                res.finding(f"a model of available data cannot be built: {type(e).__name__}: {str(e)[:300]}", config=u)
            continue
        res.ran(1, {k: u[k] for k in ("time", "SSP")})
        if expect is not None:
            res.finding(f"a selection without exactly one row is accepted ({expect})", config=u)
            continue
        m = model.concrete_model
        pts = [(k, u["time"]["start"] + k * u["time"]["dt"]) for k in m.t]
        names = {"GDP": "baseline_GDP", "emissions": "baseline_emissions", "population": "population"}

        def get(v, reg, k, y):
            c = m.component(names[v])
            return c[k, reg] if not hasattr(c[k, reg], "value") else c[k, reg].value
        if not compare(res, t, get, f"model {n}", u, pts):
            continue
        ds = getattr(model, "data_store", None)
        if ds is not None and hasattr(ds, "interp_data"):
            old.append((n, t, u, ds, pts))
        if old and r.random() < 0.6:
            k, t0, u0, d0, p0 = r.choice(old)
            compare(res, t0, lambda v, reg, k, y: d0.interp_data(y, reg, v), f"the data of model {k} after building model {n}", u0, r.sample(p0, min(4, len(p0))))


@lab("C07")
def marked(job, res):
    """a region name with the trailing mark reads the region without it"""
    try:
        from mimosa.common.data import DataStore
        from mimosa.common.config.parseconfig import load_params, parse_params
    except ImportError:
        res["notes"].append("no DataStore")
        return
    r = res.rng
    for ssp in ("SSP1", "SSP3"):
        regs = r.sample(REGIONS, 2)
        u = {"SSP": ssp, "regions": {regs[0] + "#": {}, regs[1]: {}, regs[0]: {}}, "time": {"start": 2020, "end": 2100, "dt": 10}}
        t = TR.Truth(REPO, u, value_of)
        try:
            ps = {"time": u["time"], "regions": u["regions"], "SSP": ssp, "input": {"variables": {v: t.source(v) for v in NAMES}}}
            with silent():
                ds = DataStore(ps)
        except Exception as e:   # noqa: BLE001
            res["notes"].append(f"DataStore alone: {type(e).__name__}: {e}")
            return
        compare(res, t, lambda v, reg, k, y: ds.interp_data(y, reg, v), "a store with a marked region", u, [(0, 2020), (3, 2050), (8, 2100)])
        res.ran(1)


@lab("C07")
def requests(job, res):
    """stores alone: many requests, each differing from an earlier one in one respect"""
    try:
        from mimosa.common.data import DataStore
    except ImportError:
        res["notes"].append("no DataStore")
        return
    r = res.rng
    tmp = tempfile.mkdtemp(prefix="c07r", dir=os.getcwd())
    own = [files(r, tmp, k)[0] for k in range(3)]
    at = [2010, 2013.5, 2020, 2050, 2095, 2100, 2104, 2110, 2140, 2150, 2163]
    cur = {"file": own[0], "model": "A", "scenario": "one", "v": "GDP", "variable": "GDP|PPP", "region": REGIONS[0]}
    fs, mos, scs, regs = r.sample(own, 2), r.sample(MODELS, 2), r.sample(SCENARIOS, 2), r.sample(REGIONS[:6], 2) if r.random() < 0.25 else ["USA", r.choice(NEAR)]   # few, so that requests meet
    old = []
    for n in range(160 if res.quick else 20000):
        if res.left() < 0.15:
            break
        k = r.choice(["file", "model", "scenario", "variable", "variable", "region", "any"])
        cur = dict(cur)
        if k in ("file", "any"):
            cur["file"] = r.choice(fs)
        if k in ("model", "any"):
            cur["model"] = r.choice(mos)
        if k in ("scenario", "any"):
            cur["scenario"] = r.choice(scs)
        if k in ("variable", "any"):
            cur["v"] = r.choice(list(LIKE))
            cur["variable"] = r.choice(LIKE[cur["v"]])
        if k in ("region", "any"):
            cur["region"] = r.choice(regs) + r.choice(["", "", "#"])
        if old and r.random() < 0.1:
            cur = dict(r.choice(old)[0])
        v, reg = cur["v"], cur["region"]
        u = {"SSP": "SSP2", "regions": {reg: {}}, "time": {"start": 2010, "end": r.choice([2120, 2150]), "dt": r.choice([1, 5, 3.5, 10])},
             "input": {"variables": {v: dict({x: cur[x] for x in ("file", "model", "scenario", "variable")}, unit=r.choice(TARGET[v]))}}}
        expect = None
        t = TR.Truth(REPO, u, value_of)
        try:
            t.series(v, reg)
        except LookupError as e:
            expect = str(e)
        try:
            with silent():
                ds = DataStore({"time": u["time"], "regions": u["regions"], "SSP": "SSP2", "input": u["input"]})
            if expect is not None:
                res.finding(f"a selection without exactly one row is accepted ({expect})", config=u)
                return
        except Exception as e:   # noqa: BLE001
            res.ran(1)
            if type(e) in (TypeError, AttributeError):
                res["notes"].append(f"DataStore alone: {type(e).__name__}: {e}")
                return
            if expect is None:
                res.finding(f"a store of available data cannot be built: {type(e).__name__}: {str(e)[:300]}", config=u)
                return
            continue
        res.ran(1)
        ys = sorted({r.choice(at) for _ in range(2)} | {2010, 2100})
        # between the periods the store is only asked for years of the model
        dt = u["time"]["dt"]
        pts = [(0, 2010 + dt * math.floor((y - 2010) / dt)) for y in ys]
        if not compare(res, t, lambda v_, reg_, k_, y: ds.interp_data(y, reg_, v_), f"request {n}", u, pts, only=v):
            return
        old.append((cur, t, u, ds, pts))
        if r.random() < 0.3:
            c0, t0, u0, d0, p0 = r.choice(old)
            if not compare(res, t0, lambda v_, reg_, k_, y: d0.interp_data(y, reg_, v_), f"an earlier store after request {n}", u0, p0, only=c0["v"]):
                return
