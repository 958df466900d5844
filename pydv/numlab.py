"""Replay of the laws on the real code: concrete models built by MIMOSA itself, points evaluated in them.

Run with the interpreter of the repository (it needs pyomo); reads a JSON job from argv[1], prints a JSON result.

Two experiments, both end in an executable witness:
  lawful    a point that satisfies every law of laws.py must satisfy every constraint, bound and domain of the model
  unlawful  a point that breaks a law of the property must be rejected by some constraint, bound or domain

The values of the point come from the laws, never from the model's constraints.
"""
import contextlib
import io
import itertools
import json
import math
import os
import random
import sys
import time

sys.dont_write_bytecode = True
REPO = os.environ.get("MIMOSA_REPO", "/repo")
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))

import importlib.util  # noqa: E402


def _load(name):
    spec = importlib.util.spec_from_file_location("vc_" + name, os.path.join(HERE, name + ".py"))
    mod = importlib.util.module_from_spec(spec)
    sys.modules["vc_" + name] = mod
    spec.loader.exec_module(mod)
    return mod


L = _load("laws")

KAPPA = "kappa_rel_abatement_0.75_2050"
# configuration in model units; written into the user's configuration by QUANT
DEFAULTS = {
    "economics.PRTP": 0.02, "economics.elasmu": 1.4, "economics.inequal_aversion": 0.6,
    "economics.GDP.alpha": 0.3, "economics.GDP.depreciation of capital": 0.05, "economics.GDP.savings rate": 0.21,
    "economics.MAC.beta": 3.0, "economics.MAC.gamma": 2.601, "economics.MAC.LBD_rate": 0.82,
    "economics.MAC.LBD_scaling": 45.0, "economics.MAC.LOT_rate": 0.02,
    "economics.MAC.regional calibration factor": KAPPA,
    "economics.MAC.rel_mitigation_costs_min_level": 0.0,
    "economics.damages.scale factor": 0.8, "economics.damages.ignore damages": False, "economics.damages.quantile": 0.5,
    "economics.damages.percentage reversible": 1,
    "economics.damages.coacch_slr_withadapt": True,
    "emissions.carbonbudget": False, "emissions.global min level": False, "emissions.regional min level": False,
    "emissions.not positive after budget year": False, "emissions.non increasing emissions after 2100": False,
    "emissions.baseline carbon intensity": True, "emissions.inertia.global": False, "emissions.inertia.regional": False,
    "emissions.cumulative_emissions_trapz": True,
    "effort sharing.regime": "noregime", "effort sharing.percapconv_year": 2050,
    "temperature.initial": 1.16, "temperature.TCRE": 0.00062, "temperature.target": False,
}
QUANT = {"economics.MAC.gamma": (1000, "USD2005/tCO2"), "economics.MAC.LBD_scaling": (1, "GtCO2"),
         "emissions.carbonbudget": (1, "GtCO2"), "emissions.global min level": (1, "GtCO2/yr"),
         "emissions.regional min level": (1, "GtCO2/yr"), "temperature.initial": (1, "delta_degC"),
         "temperature.TCRE": (1000, "delta_degC/TtCO2"), "temperature.target": (1, "delta_degC")}

# regions with one damage form each (values given as overrides, so that every form occurs in a small model)
REGIONS = {
    "USA": {"COACCH": {"NoSLR_form": "Robust-Quadratic", "NoSLR_b1": 0.52, "NoSLR_b2": 0.31, "NoSLR_b3": 0.0,
                       "SLR-Ad_form": "Robust-Linear", "SLR-Ad_b1": 1.2, "SLR-Ad_b2": 0.0, "SLR-Ad_b3": 0.0,
                       "SLR-NoAd_form": "Robust-Logistic", "SLR-NoAd_b1": 3.0, "SLR-NoAd_b2": 20.0, "SLR-NoAd_b3": 2.5,
                       "NoSLR_a (q=0.5)": 1.1, "SLR-Ad_a (q=0.5)": 0.9, "SLR-NoAd_a (q=0.5)": 1.2,
                       "NoSLR_a (q=0.95)": 2.1, "SLR-Ad_a (q=0.95)": 1.9, "SLR-NoAd_a (q=0.95)": 1.7, "NoSLR_a (q=0.05)": 0.3, "SLR-Ad_a (q=0.05)": -0.4, "SLR-NoAd_a (q=0.05)": -0.6}},
    "CHN": {"COACCH": {"NoSLR_form": "Robust-Logistic", "NoSLR_b1": 5.1, "NoSLR_b2": 12.0, "NoSLR_b3": 1.1,
                       "SLR-Ad_form": "Robust-Quadratic", "SLR-Ad_b1": 0.7, "SLR-Ad_b2": 0.4, "SLR-Ad_b3": 0.0,
                       "SLR-NoAd_form": "Robust-Linear", "SLR-NoAd_b1": 1.9, "SLR-NoAd_b2": 0.0, "SLR-NoAd_b3": 0.0,
                       "NoSLR_a (q=0.5)": 0.8, "SLR-Ad_a (q=0.5)": 1.3, "SLR-NoAd_a (q=0.5)": 0.7,
                       "NoSLR_a (q=0.95)": 1.8, "SLR-Ad_a (q=0.95)": 1.4, "SLR-NoAd_a (q=0.95)": 1.6, "NoSLR_a (q=0.05)": -0.2, "SLR-Ad_a (q=0.05)": 0.2, "SLR-NoAd_a (q=0.05)": -0.3}},
    "INDIA": {"COACCH": {"NoSLR_form": "Robust-Linear", "NoSLR_b1": 1.7, "NoSLR_b2": 0.0, "NoSLR_b3": 0.0,
                         "SLR-Ad_form": "Robust-Logistic", "SLR-Ad_b1": 4.0, "SLR-Ad_b2": 15.0, "SLR-Ad_b3": 3.0,
                         "SLR-NoAd_form": "Robust-Quadratic", "SLR-NoAd_b1": 1.1, "SLR-NoAd_b2": 2.2,
                         "SLR-NoAd_b3": 0.0,
                         "NoSLR_a (q=0.5)": 1.4, "SLR-Ad_a (q=0.5)": 0.6, "SLR-NoAd_a (q=0.5)": 1.5,
                         "NoSLR_a (q=0.95)": 2.4, "SLR-Ad_a (q=0.95)": 1.2, "SLR-NoAd_a (q=0.95)": 2.2, "NoSLR_a (q=0.05)": 0.4, "SLR-Ad_a (q=0.05)": -0.5, "SLR-NoAd_a (q=0.05)": 0.1}},
}


class Broken(Exception):
    """the point could not be computed"""


# --------------------------------------------------------------------------------------------- the real model
_mimosa = None


class NoTransform:
    def apply_to(self, *a, **k):
        pass

    update_variables = apply_to


def mimosa_module():
    global _mimosa
    if _mimosa is None:
        import mimosa.mimosa as mm
        for n in list(vars(mm)):
            if n == "TransformationFactory":
                setattr(mm, n, lambda *a, **k: NoTransform())

        class Model(mm.MIMOSA):
            def preprocessing(self):
                pass
        mm.VcModel = Model
        _mimosa = mm
    return _mimosa


def set_path(d, path, v):
    ks = path.split(".")
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = v


class Config:
    def __init__(self, mods, cfg=None, time=(2020, 2140, 20), regions=None, ssp="SSP2", twins=False):
        self.mods = L.Mods(*mods)
        self.cfg = dict(DEFAULTS, **(cfg or {}))
        self.time = tuple(time)
        self.regions = regions or ["USA", "CHN", "INDIA"]
        self.ssp, self.twins = ssp, twins

    def params(self):
        p = {}
        for path, v in self.cfg.items():
            if path in QUANT and v is not False:
                f, u = QUANT[path]
                v = f"{v * f!r} {u}"
            set_path(p, path, v)
        m = self.mods
        p["model"] = {"damage module": m.damage, "emissiontrade module": m.trade, "financialtransfer module": m.transfer,
                      "welfare module": m.welfare, "objective module": m.objective}
        p["time"] = {"start": self.time[0], "end": self.time[1], "dt": self.time[2]}
        p["regions"] = {r: json.loads(json.dumps(REGIONS.get(r, {}))) for r in self.regions}
        p["SSP"] = self.ssp
        if self.twins:
            set_path(p, "input.variables", {n: {"file": twin_file(self.twins == "odd"), "model": "A", "scenario": "one", "variable": v, "unit": u}
                                            for n, (v, u, f) in TWIN_ROWS.items()})
        return p

    def describe(self):
        return {"mods": self.mods.key(), "cfg": {k: v for k, v in self.cfg.items() if repr(v) != repr(DEFAULTS.get(k))},
                "time": self.time, "regions": self.regions, "ssp": self.ssp, "twins": self.twins}


TWIN_ROWS = {"GDP": ("GDP|PPP", "currency_unit", 5000.0), "emissions": ("Emissions|CO2", "emissionsrate_unit", 2500.0),
             "population": ("Population", "population_unit", 900.0)}


ODD_ROWS = {"CHN": {"emissions": -0.4}, "INDIA": {"GDP": 0.004, "emissions": 0.001, "population": 0.5}}
_odd = {}


def twin_file(odd=False):
    """input data in which two regions have exactly the same numbers; odd: one region with negative emissions, one with hardly any income"""
    if odd not in _odd:
        import atexit
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix="vc_twins")
        atexit.register(shutil.rmtree, d, True)
        f = os.path.join(d, "odd.csv" if odd else "twins.csv")
        units = {"GDP": "billion US$2005/yr", "emissions": "Mt CO2/yr", "population": "million"}
        with open(f, "w", encoding="utf8") as fh:
            fh.write("Model,Scenario,Region,Variable,Unit,2010,2020,2040,2060,2080,2100\n")
            for n, (v, _, base) in TWIN_ROWS.items():
                for r, k in (("USA", 1.0), ("CHN", 1.0), ("INDIA", 1.3)):
                    k *= ODD_ROWS.get(r, {}).get(n, 1.0) if odd else 1.0
                    fh.write(f"A,one,{r},{v},{units[n]}," + ",".join(str(base * k * g) for g in (0.9, 1.0, 1.3, 1.5, 1.6, 1.65)) + "\n")
        _odd[odd] = f
    return _odd[odd]


_models = {}


def build(config):
    key = json.dumps(config.describe(), sort_keys=True, default=str)
    if key not in _models:
        if len(_models) > 40:
            _models.clear()
        mm = mimosa_module()
        import logging
        logging.disable(logging.CRITICAL)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            _models[key] = mm.VcModel(config.params())
    return _models[key]


# ------------------------------------------------------------------------------------------------- the numeric state
def regional_tables():
    import csv
    t = {}
    base = os.path.join(REPO, "mimosa", "inputdata", "regionalparams")
    for cat, f in (("economics", "economics.csv"), ("MAC", "mac.csv"), ("mortality", "mortality.csv"),
                   ("COACCH", "COACCH.csv")):
        with open(os.path.join(base, f), encoding="utf8") as fh:
            t[cat] = {row["region"]: row for row in csv.DictReader(fh)}
    m = {}
    with open(os.path.join(REPO, "mimosa", "inputdata", "regions", "IMAGE26_COACCH.csv"), encoding="utf8") as fh:
        for row in csv.DictReader(fh):
            m.setdefault(row["IMAGE26"], []).append(row["COACCH"])
    t["COACCH"] = {r: [t["COACCH"][x] for x in xs if x in t["COACCH"]] for r, xs in m.items()}
    return t


_tables = None


def regional(cat, name, region):
    global _tables
    if _tables is None:
        _tables = regional_tables()
    rows = _tables[cat][region]
    rows = rows if isinstance(rows, list) else [rows]
    vals = [r[name] for r in rows if r[name] not in ("", None)]
    try:
        vals = [float(v) for v in vals]
        return sum(vals) / len(vals) if vals else float("nan")
    except ValueError:
        return vals[0]


class NumState:
    numeric = True
    pi = math.pi

    def __init__(self, config, data, nt, model=None):
        self.config, self.mods, self.data_, self.nt = config, config.mods, data, nt
        self.dt = config.time[2]
        self.zero = 0
        self.val = {}
        self.memo = {}
        self.kmemo = {}
        self.model = model
        self.par = {}

    def num(self, x):
        return x

    def is0(self, t):
        return t == 0

    reads = None

    def v(self, n, *i):
        if self.reads is not None:
            self.reads.add((n,) + i)
        x = self.val.get((n,) + i)
        if x is None:
            if i[0] < 0 or i[0] >= self.nt:
                raise Broken(f"{n}{i} outside the horizon")
            x = self.val[(n,) + i] = self.seed(n, *i)
        return x

    def seed(self, n, *i):
        if n == "GDP_gross":
            return self.data("GDP", *i)
        if n == "baseline":
            return self.data("emissions", *i)
        if n == "capital_stock":
            return self.kcal(*i)
        if n == "GDP_net":
            return self.data("GDP", *i)
        return 0.0

    def vp(self, n, *i):
        if n in self.par:
            return self.par[n][i]
        return self.v(n, *i)

    def p(self, n, *i):
        k = (n,) + i
        if k not in self.memo:
            self.memo[k] = PARAM_LAWS[n].expr(self, *i)
        return self.memo[k]

    def data(self, n, t, r):
        if (t, r) not in self.data_[n]:
            raise Broken("data outside the horizon")
        return self.data_[n][t, r]

    def reg(self, cat, n, r):
        x = self.rmemo.get((cat, n, r))
        if x is None:
            ov = REGIONS.get(r, {}).get(cat, {})
            x = self.rmemo[cat, n, r] = ov[n] if n in ov else regional(cat, n, r)
        return x

    rmemo = {}

    def contains(self, cat, n, r, text):
        return text in self.reg(cat, n, r)

    def cfg(self, path):
        return self.config.cfg[path]

    def flag(self, path):
        return bool(self.config.cfg[path])

    def on(self, path):
        return self.config.cfg[path] is not False

    def is_(self, path, opt):
        return self.config.cfg[path] == opt

    def text(self, path):
        return self.config.cfg[path]

    flag_c = text

    def year(self, t):
        return self.config.time[0] + t * self.dt

    def sum(self, f):
        return sum(f(r) for r in self.config.regions)

    def sum_t(self, t, f):
        return sum(f(k) for k in range(t))

    def kcal(self, t, r):
        k = (t, r)
        if k not in self.kmemo:
            self.kmemo[k] = L.kcal_init(self, r) if t == 0 else L.kcal_step(self, t, r, self.kcal(t - 1, r))
        return self.kmemo[k]

    exp, log, atan = staticmethod(math.exp), staticmethod(math.log), staticmethod(math.atan)

    def eq(self, a, b):
        return ("eq", a, b)

    def le(self, a, b):
        return ("le", a, b)

    def excluded(self):
        raise Broken("excluded")


PARAM_LAWS = {l.param: l for l in L.LAWS if l.param}
ORDER = ["M14K", "M02", "M01", "M03", "M06", "M07", "M10", "M08", "M09", "M11", "M12", "M14", "M13", "M15", "M16"]


def base_data(mod):
    import pyomo.environ as pe
    m = mod.concrete_model
    out = {}
    for p in m.component_objects(pe.Param):
        d = p.doc
        if isinstance(d, str) and d.startswith("timeandregional::"):
            out[d.split("::")[1]] = {k: float(pe.value(p[k])) for k in p}
    for n in ("GDP", "emissions", "population"):
        if n not in out:
            raise Broken(f"the model has no data parameter for {n}")
    return out


def instances(law, nt, regions):
    for k in law.kinds:
        ts = [0] if k.endswith("0") else range(1, nt)
        for t in ts:
            for r in (regions if k[0] == "R" else [None]):
                yield (t,) if r is None else (t, r)


class Trajectory:
    """a point given by controls and overrides; everything else follows from the laws"""

    def __init__(self, config, data, nt, abatement, transfer=None, trade=None, regime=None, override=None, par=None):
        self.config, self.abatement, self.transfer, self.trade, self.regime = config, abatement, transfer, trade, regime
        self.override = override or {}
        self.S = NumState(config, data, nt)
        self.S.par = par or {}
        self.nt = nt
        self.laws = sorted([l for l in L.LAWS if l.var and l.applies(config.mods)], key=lambda l: ORDER.index(
            "M14K" if l.var in ("capital_stock", "GDP_gross") else l.prop))

    def controls(self, t):
        S, R = self.S, self.config.regions
        m = self.config.mods
        for r in R:
            a = self.abatement(S, t, r)
            S.val["relative_abatement", t, r] = a
        if m.trade == "notrade":
            for r in R:
                S.val["import_export_mitigation_cost_balance", t, r] = 0.0
                S.val["import_export_emission_reduction_balance", t, r] = 0.0
        elif not self.regime:
            b = [self.trade(t, i) if (self.trade and t > 0) else 0.0 for i in range(len(R) - 1)]
            b.append(-sum(b))
            for r, x in zip(R, b):
                S.val["import_export_mitigation_cost_balance", t, r] = x
        if m.transfer == "notransfer":
            for r in R:
                S.val["financial_transfer", t, r] = 0.0
                S.val["rel_financial_transfer", t, r] = 0.0
        else:
            b = [self.transfer(t, i) if (self.transfer and t > 0) else 0.0 for i in range(len(R) - 1)]
            b.append(-sum(b))
            for r, x in zip(R, b):
                S.val["financial_transfer", t, r] = x
        if self.regime:
            self.regime(self, t)
        S.val.setdefault(("effort_sharing_common_level", t), 0.01)
        for k, f in self.override.items():
            if k[1] == t:
                S.val[k] = f(S.val.get(k, 0.0)) if k not in self.done else S.val[k]

    def run(self, prefix=None):
        """prefix: (values, t0) of a point that agrees before period t0"""
        S = self.S
        self.done = set()
        R = self.config.regions
        t0 = 0
        if prefix is not None:
            vals, t0 = prefix
            S.val.update({k: v for k, v in vals.items() if k[1] < t0})
        clock, changed = 0, {}
        for t in range(t0, self.nt):
            kind = "0" if t == 0 else ""
            todo = []
            for l in self.laws:
                for k in l.kinds:
                    if k[1:] == kind:
                        for r in (R if k[0] == "R" else [None]):
                            i = (t,) if r is None else (t, r)
                            todo.append([l, i, (l.var,) + i, None, -1])
            rest = []
            for it in range(400):
                delta = 0.0
                before = {k: S.val.get(k) for k in list(S.val) if k[1] == t} if it < 3 or self.regime else None
                self.controls(t)
                clock += 1
                if before is not None:
                    for k, v in S.val.items():
                        if k[1] == t and before.get(k) != v:
                            changed[k] = clock
                else:
                    for r in R:
                        changed["relative_abatement", t, r] = clock
                if it == 1:
                    core = self.core(todo, t)
                    rest = [j for j in todo if j[0].var not in core]
                    todo = [j for j in todo if j[0].var in core]
                delta = self.sweep(todo, changed, clock, t)
                if it > 0 and delta < 1e-11:
                    break
            else:
                raise Broken(f"no fixpoint in period {t}: {delta}")
            for it in range(60):
                clock += 1
                if self.sweep(rest, changed, clock, t) == 0.0:
                    break
        return self

    def sweep(self, todo, changed, clock, t):
        S = self.S
        delta = 0.0
        for job in todo:
            l, i, key, reads, when = job
            if reads is not None and not any(changed.get(k, 0) >= when for k in reads):
                continue
            job[4] = clock
            S.reads = job[3] = set()
            e = l.expr(S, *i)
            if e is None:
                S.reads = None
                continue
            if "implicit" in l.tags and t > 0:
                # linear in its own variable: solve exactly
                x0 = S.val.get(key) or S.seed(*key)
                S.val[key] = x0
                f0 = l.expr(S, *i)
                S.val[key] = x0 + 1.0
                f1 = l.expr(S, *i)
                S.val[key] = x0
                e = x0 + (f0 - x0) / (1 - (f1 - f0))
            S.reads = None
            if isinstance(e, complex) or e != e or abs(e) > 1e30:
                raise Broken(f"{key} = {e}")
            if key in self.override:
                e = self.override[key](e)
                self.done.add(key)
            old = S.val.get(key)
            if old != e:
                S.val[key] = float(e)
                changed[key] = clock
            d = abs(e - (old or 0.0)) / (1e-3 + abs(e))
            if d > delta:
                delta = d
        return delta

    CORES = {}

    def core(self, todo, t):
        """variables that depend on themselves within a period, and what they depend on"""
        key = (json.dumps(self.config.describe(), default=str), t == 0, bool(self.regime))
        if key in self.CORES:
            return self.CORES[key]
        g = {}
        for l, i, k, reads, when in todo:
            g.setdefault(l.var, set()).update(x[0] for x in reads or () if x[1] == t)
        g["relative_abatement"] = {"baseline", "regional_emissions"}
        g["import_export_mitigation_cost_balance"] = {"area_under_MAC", "GDP_gross", "damage_costs", "baseline",
                                                      "rel_financial_transfer", "regional_emission_reduction",
                                                      "global_carbonprice", "global_emissions"} if self.regime else set()

        def reach(a):
            seen, todo = set(), [a]
            while todo:
                x = todo.pop()
                for y in g.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            return seen
        up = {v: reach(v) for v in g}
        cyc = {v for v in g if v in up[v]}
        out = cyc | {x for v in cyc for x in up[v]}
        self.CORES[key] = out
        return out


def margin(rel):
    """> 0 : violated by that much (scaled)"""
    k, a, b = rel
    s = 1.0 + max(abs(a), abs(b)) if k == "eq" else 1.0
    return (abs(a - b) if k == "eq" else a - b) / s


def check_laws(S, mods, nt, regions, props=None, only_policy=False, cut=1e-7):
    out = []
    for l in L.LAWS:
        if l.param or not l.applies(mods) or (props and l.prop not in props):
            continue
        if only_policy and "policy" not in l.tags:
            continue
        for i in instances(l, nt, regions):
            try:
                rels = l.fn(S, *i)
            except Broken:
                continue
            for r in rels:
                mg = margin(r)
                if mg > cut:
                    out.append((l, i, mg, r))
    return out


# --------------------------------------------------------------------------------------------- feasibility in the model
class Real:
    def __init__(self, config):
        import pyomo.environ as pe
        self.pe = pe
        self.config = config
        self.mod = build(config)
        self.m = self.mod.concrete_model
        self.nt = len(list(self.m.t))
        self.data = base_data(self.mod)
        self.vars = {v.local_name: v for v in self.m.component_objects(pe.Var)}
        self.params = {p.local_name: p for p in self.m.component_objects(pe.Param)}
        self.cons = None
        self.par = {}
        for n in ("import_export_mitigation_cost_balance", "import_export_emission_reduction_balance",
                  "financial_transfer", "rel_financial_transfer"):
            if n in self.params:
                try:
                    self.par[n] = {k: float(pe.value(self.params[n][k])) for k in self.params[n]}
                except (TypeError, ValueError):
                    pass

    def constraint_list(self):
        if self.cons is None:
            from pyomo.core.expr.visitor import identify_variables
            self.cons = []
            self.vnames = {}
            for n, v in self.vars.items():
                for k in v:
                    self.vnames[id(v[k])] = (n, k, v[k])
            for c in self.m.component_objects(self.pe.Constraint, active=True):
                for k in c:
                    cd = c[k]
                    if not cd.active:
                        continue
                    vs = [id(x) for x in identify_variables(cd.body, include_fixed=True)]
                    self.cons.append((c.local_name, k, cd, vs))
        return self.cons

    def load(self, S):
        """set the point; helper variables unknown to the laws are solved from constraints linear in them"""
        known = set()
        self.constraint_list()
        for n, v in self.vars.items():
            for k in v:
                key = (n,) + (k if isinstance(k, tuple) else (k,))
                x = S.val.get(key)
                if x is None and (n in L.OWNER):
                    x = None
                if x is not None:
                    v[k].set_value(x, skip_validation=True)
                    known.add(id(v[k]))
        missing = {i: nk for i, nk in self.vnames.items() if i not in known}
        free = []
        used = set()
        for rnd in range(60):
            hit = False
            for j, (n, k, cd, vs) in enumerate(self.cons):
                if j in used:
                    continue
                u = [i for i in set(vs) if i in missing]
                if len(u) == 1 and cd.equality:
                    x = missing[u[0]][2]
                    f = []
                    try:
                        for z in (0.0, 1.0, 2.0):
                            x.set_value(z, skip_validation=True)
                            f.append(self.pe.value(cd.body) - self.pe.value(cd.lower))
                    except (ZeroDivisionError, ValueError, OverflowError):
                        continue
                    s = f[1] - f[0]
                    if s and abs(f[2] - f[1] - s) < 1e-9 * (1 + abs(s)):
                        x.set_value(-f[0] / s, skip_validation=True)
                        del missing[u[0]]
                        used.add(j)
                        hit = True
            if not hit:
                break
        # unconstrained variables may take any value; one that occurs in a constraint makes the point undecided
        und = []
        for i, (n, k, x) in missing.items():
            if any(i in vs for _, _, _, vs in self.cons):
                und.append((n, k))
            else:
                lo, hi = x.lb, x.ub
                z = 0.0
                if lo is not None and z < lo:
                    z = lo
                if hi is not None and z > hi:
                    z = hi
                x.set_value(z, skip_validation=True)
        return und

    def violations(self, tol=1e-7, first=None):
        """violated constraints and bounds; with `first`, stop at the first one (constraints on that variable first)"""
        out = []
        pe = self.pe
        cons = self.constraint_list()
        if first is not None:
            ids = {id(x) for n, k, x in self.vnames.values() if n == first}
            cons = sorted(cons, key=lambda c: not any(i in ids for i in c[3]))
        for n, k, cd, vs in cons:
            if first is not None and out:
                return out
            try:
                b = pe.value(cd.body)
                lo, hi = cd.lower, cd.upper
                lo = None if lo is None else pe.value(lo)
                hi = None if hi is None else pe.value(hi)
            except Exception as e:
                out.append((n, k, f"{type(e).__name__}: {e}", math.inf, vs))
                continue
            if isinstance(b, complex):
                out.append((n, k, "complex", math.inf, vs))
                continue
            s = 1.0 + max([abs(self.vnames[i][2].value or 0.0) for i in vs] or [0.0])
            if b != b:
                out.append((n, k, "nan", math.inf, vs))
                continue
            d = max((lo - b) if lo is not None else 0.0, (b - hi) if hi is not None else 0.0)
            if d / s > tol:
                out.append((n, k, f"{lo} <= {b} <= {hi}", d / s, vs))
        for i, (n, k, x) in self.vnames.items():
            lo, hi, z = x.lb, x.ub, x.value
            if z is None:
                continue
            if (lo is not None and lo - z > tol * (1 + abs(z))) or (hi is not None and z - hi > tol * (1 + abs(z))):
                out.append((f"bound of {n}", k, f"{lo} <= {z} <= {hi}", max((lo or z) - z, z - (hi or z)), [i]))
        return out

    def owner(self, viol):
        names = {self.vnames[i][0] for i in viol[4]}
        ps = [L.OWNER[n] for n in names if n in L.OWNER]
        if not ps:
            return "M18"
        return max(ps, key=L.ORDER.index)


# ------------------------------------------------------------------------------------------------- scenarios
def smooth(rng, nt, R, top=0.9):
    end = {r: rng.uniform(0.5, top) for r in R}
    p = {r: rng.uniform(0.7, 1.3) for r in R}
    w = {(t, r): rng.uniform(-0.03, 0.03) for t in range(nt) for r in R}

    def f(S, t, r):
        if t == 0:
            return 0.0
        return max(0.02, end[r] * (t / max(1, nt - 1)) ** p[r] + w[t, r])
    return f


def net_zero_after(base, year):
    def f(S, t, r):
        if S.year(t) >= year:
            return 1.0
        return base(S, t, r)
    return f


def overshoot(base, year):
    """emissions below zero from `year` on: cumulative emissions and temperature peak before 2100"""
    def f(S, t, r):
        if S.year(t) >= year:
            return 1.25
        return base(S, t, r)
    return f


def deep(base, last, region):
    """one region takes out of the air much more than its baseline in the last period"""
    return lambda S, t, r: 1.7 if t == last and r == region else base(S, t, r)


def constant_after(base, year):
    """emissions constant in the periods whose predecessor lies after `year`"""
    def f(S, t, r):
        if t > 0 and S.year(t - 1) > year:
            e0 = S.v("regional_emissions", t - 1, r)
            b = S.v("baseline", t, r) if S.flag(L.CI) else S.data("emissions", t, r)
            return 1 - e0 / b
        return base(S, t, r)
    return f


def regime_equal_mitigation(dev):
    def f(T, t):
        S, R = T.S, T.config.regions
        sgn = [1 + 0.005 * d for d in dev(len(R), t)]
        if T.config.mods.trade == "notrade":
            return
        gdp = [S.v("GDP_gross", t, r) for r in R]
        area = [S.v("area_under_MAC", t, r) for r in R]
        c = sum(area) / sum(s * g for s, g in zip(sgn, gdp))
        if t == 0:
            c = 0.0
        S.val["effort_sharing_common_level", t] = c
        for r, s, g, a in zip(R, sgn, gdp, area):
            S.val["import_export_mitigation_cost_balance", t, r] = c * s * g - a
    return f


def regime_equal_total(dev, until=2100):
    def f(T, t):
        S, R = T.S, T.config.regions
        if T.config.mods.trade == "notrade":
            return
        gdp = [S.v("GDP_gross", t, r) for r in R]
        area = [S.v("area_under_MAC", t, r) for r in R]
        dmg = [S.v("damage_costs", t, r) + S.v("rel_financial_transfer", t, r) for r in R]
        if t == 0 or S.year(t) > until:
            S.val["effort_sharing_common_level", t] = 0.0 if t == 0 else 0.02
            b = [0.0] * len(R)
            if t:
                b = [0.001 * (i + 1) for i in range(len(R) - 1)]
                b.append(-sum(b))
            for r, x in zip(R, b):
                S.val["import_export_mitigation_cost_balance", t, r] = x
            return
        sgn = [1 + 0.005 * d for d in dev(len(R), t)]
        c = (sum(area) + sum(d * g for d, g in zip(dmg, gdp))) / sum(s * g for s, g in zip(sgn, gdp))
        S.val["effort_sharing_common_level", t] = c
        for r, s, g, a, d in zip(R, sgn, gdp, area, dmg):
            S.val["import_export_mitigation_cost_balance", t, r] = (c * s - d) * g - a
    return f


def regime_percap(dev):
    def f(T, t):
        S, R = T.S, T.config.regions
        if t == 0:
            for r in R:
                S.val["import_export_mitigation_cost_balance", t, r] = 0.0
            return
        d = [0.001 * x for x in dev(len(R), t)]
        sm = L.soft_min(S, S.v("global_carbonprice", t))
        ge = S.v("global_emissions", t)
        b = []
        for r, x in zip(R, d):
            allow = S.p("percapconv_share", t, r) * ge - x
            paid = S.v("baseline", t, r) - allow
            b.append((paid - S.v("regional_emission_reduction", t, r)) * sm)
        e = sum(b) / len(b)
        for r, x in zip(R, b):
            S.val["import_export_mitigation_cost_balance", t, r] = x - e
    return f


def deviations(rng, total_zero=False, size=1.0):
    memo = {}

    def f(n, t):
        if t not in memo:
            d = [size * rng.choice((-1.0, 1.0)) * (1 - 1e-6) for _ in range(n)]
            if total_zero:
                d[-1] = 0.0
                if n >= 2:
                    d = [d[0], -d[0]] + [0.0] * (n - 2)
            memo[t] = d
        return memo[t]
    return f


GRIDS = [(2020, 2140, 20), (2020, 2130, 10), (2020, 2140, 11.5), (2020, 2115, 5), (2030, 2170, 20), (2020, 2128, 7),
         (2100, 2160, 20), (2035, 2123, 2.5), (2025, 2150, 12.5)]


def scenarios(rng, props, quick=True, hints=()):
    """(mods, cfg overrides, grid, trajectory kind)"""
    dm, tr, ft, wf, ob = L.DAMAGE, L.TRADE, L.TRANSFER, L.WELFARE, L.OBJECTIVE
    out = []
    combos = list(itertools.product(dm, tr, ft, wf, ob))
    rng.shuffle(combos)
    # every option of every module, the interesting pairs first
    first = [("COACCH", "notrade", "notransfer", "welfare_loss_minimising", "utility"),
             ("COACCH", "emissiontrade", "globaldamagepool", "cost_minimising", "globalcosts"),
             ("nodamage", "globalcostpool", "notransfer", "inequal_aversion_general", "utility"),
             ("COACCH", "emissiontrade", "notransfer", "inequal_aversion_general", "globalcosts"),
             ("nodamage", "notrade", "globaldamagepool", "welfare_loss_minimising", "globalcosts"),
             ("COACCH", "notrade", "globaldamagepool", "cost_minimising", "utility")]
    cs = first + [c for c in combos if c not in first]
    n = 8 if quick else 48
    more = extras(random.Random(f"{rng.random()} {sorted(props)}"))
    if quick:
        more = [m[:4] + (dict(m[4], lawful_only=True),) for m in more[:4]]
    for k in range(n):
        mods = cs[k % len(cs)]
        cfg = {"emissions.baseline carbon intensity": k % 2 == 0, "emissions.cumulative_emissions_trapz": k % 3 != 1,
               "economics.damages.ignore damages": k % 4 == 2, "economics.damages.coacch_slr_withadapt": k % 2 == 0,
               "economics.MAC.beta": (3.0, 2.0, 2.5)[k % 3],
               "economics.damages.quantile": 0.95 if k % 3 == 1 else 0.5}
        regime = ("noregime", "equal_mitigation_costs", "per_cap_convergence", "equal_total_costs")[k % 4]
        if mods[1] == "notrade":
            regime = "noregime"
        if regime == "per_cap_convergence" and mods[1] != "emissiontrade":
            regime = "equal_mitigation_costs"
        cfg["effort sharing.regime"] = regime
        cfg["effort sharing.percapconv_year"] = (2050, False, 2070, 2020, 2100)[k % 5]
        shape = ("smooth", "netzero", "overshoot", "constant", "smooth")[k % 5]
        out.append((mods, cfg, GRIDS[(k if k != 1 else 0) % (5 if quick else len(GRIDS))], shape))
    if quick:
        return list(hints) + more + out
    hints = list(hints)
    rng.shuffle(hints)
    return [x for row in itertools.zip_longest(hints, more, out) for x in row if x is not None]


ALL_REGIONS = ["CAN", "USA", "MEX", "RCAM", "BRA", "RSAM", "NAF", "WAF", "EAF", "SAF", "WEU", "CEU", "TUR", "UKR", "STAN", "RUS", "ME", "INDIA", "KOR",
               "CHN", "SEAS", "INDO", "JAP", "OCE", "RSAS", "RSAF"]


def extras(rng):
    """unusual scenarios: many regions, many periods, other years, values on the border of what the configuration allows"""
    C, N = "COACCH", "nodamage"
    util = ("notrade", "notransfer", "welfare_loss_minimising", "utility")
    pool = ("globalcostpool", "globaldamagepool", "inequal_aversion_general", "globalcosts")
    trade = ("emissiontrade", "notransfer", "cost_minimising", "utility")
    G = "economics.GDP."
    out = [((C,) + util, {}, (2020, 2080, 20), "smooth", {"regions": ALL_REGIONS}),
           ((N,) + trade, {"effort sharing.regime": "equal_mitigation_costs"}, (2020, 2060, 20), "smooth", {"regions": ALL_REGIONS}),
           ((C,) + trade, {"emissions.baseline carbon intensity": False}, (2020, 2107, 2.5), "netzero", {"regions": ["USA", "CHN"]}),
           ((N,) + util, {}, (2020, 2106, 2), "constant", {"regions": ["INDIA"]}),
           ((C,) + pool, {"emissions.cumulative_emissions_trapz": False}, (2026, 2126, 8), "smooth", {}),
           ((C,) + util, {}, (2048, 2160, 8.5), "netzero", {}),
           ((N,) + trade, {}, (2031, 2161, 6.5), "constant", {}),
           ((C,) + util, {}, (2020, 2148, 7), "overshoot", {}),
           ((N,) + util, {}, (2020, 2140, 11.37), "overshoot", {}),
           ((C,) + trade, {"economics.damages.scale factor": -0.5}, (2020, 2100, 20), "smooth", {}),
           ((N,) + trade, {"emissions.cumulative_emissions_trapz": False}, (2024, 2144, 9.6), "overshoot", {}),
           ((C,) + util, {}, (2015, 2115, 12.25), "netzero", {}),
           ((C,) + pool, {G + "savings rate": 0.0}, (2020, 2100, 20), "smooth", {}),
           ((N,) + trade, {G + "savings rate": 0.0, "emissions.baseline carbon intensity": False}, (2020, 2100, 10), "smooth", {}),
           ((C,) + trade, {G + "depreciation of capital": 0.0, "economics.PRTP": 0.0}, (2025, 2125, 10), "netzero", {}),
           ((N,) + util, {G + "savings rate": 1.0 / 3, G + "alpha": 0.0, "economics.elasmu": 0.5}, (2020, 2120, 20), "smooth", {}),
           ((C,) + util, {"economics.MAC.LBD_rate": 1.0, "economics.MAC.LOT_rate": 0.0}, (2020, 2120, 20), "smooth", {}),
           ((C,) + trade, {"economics.damages.scale factor": 0.0, "economics.inequal_aversion": 0.0}, (2020, 2120, 20), "constant", {}),
           ((C, "globalcostpool", "globaldamagepool", "inequal_aversion_general", "utility"),
            {"economics.inequal_aversion": 0.0, "economics.elasmu": 0.5}, (2020, 2120, 20), "smooth", {"ssp": "SSP3"}),
           ((N, "emissiontrade", "notransfer", "inequal_aversion_general", "utility"),
            {"economics.inequal_aversion": 1.4, "effort sharing.regime": "per_cap_convergence", "effort sharing.percapconv_year": 2200}, (2020, 2120, 10), "smooth",
            {"ssp": "SSP1"}),
           ((C,) + util, {"temperature.initial": 0.0, "economics.MAC.beta": 0.01}, (2020, 2120, 20), "smooth", {"ssp": "SSP5"}),
           ((C, "emissiontrade", "globaldamagepool", "inequal_aversion_general", "utility"), {"effort sharing.regime": "equal_total_costs"}, (2020, 2120, 20), "smooth",
            {"ssp": "SSP4"}),
           ((C,) + pool, {}, (2020, 2100, 20), "smooth", {"twins": True}),
           ((N, "emissiontrade", "notransfer", "inequal_aversion_general", "utility"),
            {"effort sharing.regime": "per_cap_convergence"}, (2020, 2100, 20), "smooth", {"twins": True}),
           ((C,) + util, {"economics.damages.quantile": 0.05}, (2020, 2120, 20), "smooth", {}),
           ((C,) + trade, {"economics.damages.quantile": 0.05, "economics.damages.scale factor": 3.0, "economics.damages.coacch_slr_withadapt": False},
            (2020, 2120, 20), "constant", {}),
           ((N,) + util, {"emissions.baseline carbon intensity": False}, (2020, 2120, 20), "deep", {}),
           ((N,) + trade, {}, (2020, 2120, 20), "deep", {}),
           ((N,) + util, {}, (2020, 2130, 10), "smooth", {"twins": "odd"}),
           ((N, "globalcostpool", "notransfer", "inequal_aversion_general", "utility"), {"emissions.baseline carbon intensity": False}, (2020, 2120, 20), "smooth",
            {"twins": "odd"}),
           ((C,) + util, {}, (2020, 2140, 20), "constant", {"regions": ["CHN"]}),
           ((N, "emissiontrade", "notransfer", "cost_minimising", "utility"),
            {"effort sharing.regime": "per_cap_convergence", "effort sharing.percapconv_year": False}, (2020, 2124, 1), "smooth", {"regions": ["USA", "CHN"]}),
           ((C,) + util, {}, (2020, 2050, 0.5), "smooth", {"regions": ["USA"]})]
    rng.shuffle(out)
    return out


def policy_cfg(S, nt, R, shape):
    """policies hit exactly by the trajectory"""
    late = [t for t in range(nt) if S.year(t) >= 2100]
    cfg = {}
    if late:
        b = max(S.v("cumulative_emissions", t) for t in late)
        if shape != "smooth" or True:
            cfg["emissions.carbonbudget"] = b
        cfg["temperature.target"] = max(S.v("temperature", t) for t in late)
    base = {r: S.data("emissions", 0, r) for r in R}
    g = min((S.v("global_emissions", t) - S.v("global_emissions", t - 1)) / (S.dt * sum(base.values()))
            for t in range(1, nt))
    rs = {(t, r): (S.v("regional_emissions", t, r) - S.v("regional_emissions", t - 1, r)) / (S.dt * base[r]) for t in range(1, nt) for r in R}
    rr = min([x for (t, r), x in rs.items() if base[r] > 0], default=0)
    if any(x > rr for (t, r), x in rs.items() if base[r] < 0):
        rr = 0
    if g < 0:
        cfg["emissions.inertia.global"] = g
    if rr < 0:
        cfg["emissions.inertia.regional"] = rr
    cfg["emissions.global min level"] = min(S.v("global_emissions", t) for t in range(nt))
    cfg["emissions.regional min level"] = min(S.v("regional_emissions", t, r) for t in range(nt) for r in R)
    if shape == "overshoot":
        cfg["emissions.not positive after budget year"] = True
    if shape == "netzero":
        cfg["emissions.not positive after budget year"] = True
        cfg["emissions.non increasing emissions after 2100"] = True
    if shape == "constant":
        cfg["emissions.non increasing emissions after 2100"] = True
    ml = min(S.v("rel_mitigation_costs", t, r) for t in range(1, nt) for r in R)
    if ml < 0:
        cfg["economics.MAC.rel_mitigation_costs_min_level"] = max(-2.0, ml)
    elif shape == "smooth":
        cfg["economics.MAC.rel_mitigation_costs_min_level"] = -0.5
    return {k: (v if isinstance(v, bool) else nudge(k, v)) for k, v in cfg.items()}


def nudge(k, v):
    """one part in 1e9 of slack, so that unit conversion and summation order do not matter"""
    up = k in ("emissions.carbonbudget", "temperature.target")
    return v + (1 if up else -1) * 1e-9 * max(1.0, abs(v))


def slack(cfg):
    return dict(cfg, **{"emissions.carbonbudget": False, "temperature.target": False, "emissions.inertia.global": False,
                        "emissions.inertia.regional": False, "emissions.global min level": False,
                        "emissions.regional min level": False, "emissions.not positive after budget year": False,
                        "emissions.non increasing emissions after 2100": False,
                        "economics.MAC.rel_mitigation_costs_min_level": -2.0})


class Scenario:
    def __init__(self, mods, cfg, grid, shape, seed, regions=None, **opts):
        self.mods, self.cfg, self.grid, self.shape, self.seed = mods, cfg, grid, shape, seed
        self.regions = regions or list(REGIONS)
        self.opts = opts
        self.free = self.config(slack(cfg))
        self.real = Real(self.free)
        self.data = self.real.data
        self.nt = self.real.nt
        self.bases = {}

    def config(self, cfg):
        return Config(self.mods, cfg, self.grid, self.regions, **self.opts)

    def traj(self, override=None, abatement=None, regime=True, trade=True, config=None, transfer=True, dev=None):
        rng = random.Random(self.seed)
        R = self.regions
        base = smooth(rng, self.nt, R)
        if self.shape == "netzero":
            base = net_zero_after(base, 2100)
        elif self.shape == "overshoot":
            base = overshoot(base, 2075)
        elif self.shape == "constant":
            base = constant_after(base, 2100)
        elif self.shape == "deep":
            base = deep(base, self.nt - 1, R[-1])
        if abatement:
            base = abatement(base)
        tv = {(t, i): rng.uniform(-0.03, 0.03) for t in range(self.nt) for i in range(len(R))}
        fv = {(t, i): rng.uniform(-0.01, 0.01) for t in range(self.nt) for i in range(len(R))}
        reg = None
        rg = (config or self.free).cfg["effort sharing.regime"]
        if regime:
            if rg == "equal_mitigation_costs":
                reg = regime_equal_mitigation(dev or deviations(rng))
            elif rg == "equal_total_costs":
                reg = regime_equal_total(dev or deviations(rng))
            elif rg == "per_cap_convergence":
                reg = regime_percap(dev or deviations(rng, True))
            if self.mods[1] == "notrade":
                reg = None
        T = Trajectory(config or self.free, self.data, self.nt, base,
                       transfer=(lambda t, i: fv[t, i]) if transfer and self.mods[0] != "nodamage" else None,
                       trade=(lambda t, i: tv[t, i]) if trade else None, regime=reg, override=override,
                       par=self.real.par)
        key = (regime, trade, transfer, json.dumps((config or self.free).describe(), default=str))
        if abatement is None and dev is None:
            if override and key in self.bases:
                return T.run((self.bases[key], min(k[1] for k in override)))
            T.run()
            if not override:
                self.bases[key] = T.S.val
            return T
        return T.run()


def point(S, names=None, limit=400):
    out = {}
    for k, v in S.val.items():
        if names is None or k[0] in names:
            out[f"{k[0]}[{','.join(map(str, k[1:]))}]"] = v
    return out


def finding(prop, kind, what, config, S, names=None, extra=None):
    d = {"property": prop, "kind": kind, "what": what, "config": config.describe(), "params": config.params(),
         "point": point(S) if S is not None else {}}
    d.update(extra or {})
    return d


POLICY_KEYS = {
    "M04": ("emissions.carbonbudget", "temperature.target", "emissions.not positive after budget year",
            "emissions.non increasing emissions after 2100"),
    "M05": ("emissions.inertia.global", "emissions.inertia.regional", "emissions.global min level",
            "emissions.regional min level", "economics.MAC.rel_mitigation_costs_min_level")}


def program_error(e):
    """files of the package in the part of the traceback below this harness; empty for an error of the harness"""
    frames = []
    tb = e.__traceback__
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(HERE):
            frames = []
        elif f.startswith(os.path.join(os.path.abspath(REPO), "mimosa")):
            frames.append(os.path.relpath(f, REPO))
        tb = tb.tb_next
    return frames


def error(res, e, config):
    fr = program_error(e)
    res["errors"].append({"config": config.describe(), "params": config.params(), "files": fr,
                          "error": f"{type(e).__name__}: {str(e)[:300]}"})


def defined_by(names, S, sc):
    """properties whose law for one of these variables looks at exactly these variables: such a constraint is that law gone wrong"""
    out = set()
    for l in L.LAWS:
        if l.var not in names or l.param or not l.applies(sc.free.mods) or l.prop not in L.ORDER:
            continue
        for i in [(t,) + ((sc.regions[-1],) if l.kinds[-1][0] == "R" else ()) for t in (0, sc.nt - 1)]:
            S.reads = set()
            try:
                l.expr(S, *i)
                if {x[0] for x in S.reads} | {l.var} == names:
                    out.add(l.prop)
            except Exception:   # noqa: BLE001  no law there
                pass
            S.reads = None
    return out


def run_lawful(sc, props, res):
    T = sc.traj()
    S = T.S
    pol = policy_cfg(S, sc.nt, sc.regions, sc.shape)
    cfg = dict(sc.free.cfg, **pol)
    config = sc.config(dict(cfg))
    S.config = config
    S.memo.clear()
    bad = check_laws(S, config.mods, sc.nt, sc.regions)
    real = Real(config)
    par = [b for b in bad if b[0].name in ("no_trade", "no_transfer")]
    for l, i, mg, r in par:
        if l.prop in props:
            res["findings"].append(finding(l.prop, "unlawful value", f"{l.name}{i}: {r}", config, S))
    if [b for b in bad if b not in par]:
        res["notes"].append(f"lawful point breaks {[(b[0].name, b[1], b[2]) for b in bad][:3]} in {config.describe()}")
        return
    # derived parameters
    for l in L.LAWS:
        if not l.param or l.prop not in props or l.param not in real.params:
            continue
        for i in instances(l, sc.nt, sc.regions):
            try:
                want = l.expr(S, *i)
            except (Broken, ZeroDivisionError):
                continue
            try:
                got = float(real.pe.value(real.params[l.param][i if len(i) > 1 else i[0]]))
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            res["checked"] += 1
            if isinstance(got, str) or abs(got - want) > 1e-8 * (1 + abs(want)):
                res["findings"].append(finding(l.prop, "derived parameter", f"{l.param}{i} is {got}, the law gives {want}",
                                               config, None, extra={"param": l.param, "index": i, "want": want}))
                break
    und = real.load(S)
    vio = real.violations()
    if und:
        names = {u[0] for u in und}
        res["notes"].append(f"undetermined variables {sorted(names)}")
        vio = [v for v in vio if not ({real.vnames[i][0] for i in v[4]} & names)]
    res["points"] += 1
    res["checked"] += len(real.cons)
    done = set()
    off = {}
    if vio and {"M04", "M05"} & set(props):
        for o, keys in POLICY_KEYS.items():
            r2 = Real(sc.config(dict(cfg, **{k: slack({})[k] for k in keys})))
            r2.load(S)
            off[o] = {v[:2] for v in r2.violations()}
    for v in vio:
        owners = {real.owner(v)} | defined_by({real.vnames[i][0] for i in v[4]}, S, sc)
        for q in off:                 # a violation that disappears with the policy belongs to the policy
            if v[:2] not in off[q]:
                owners = {q}
        for o in sorted(owners & set(props)):
            if (o, v[0]) in done:
                continue
            done.add((o, v[0]))
            res["findings"].append(finding(o, "lawful point rejected", f"{v[0]}[{v[1]}] requires {v[2]} (off by {v[3]:.3g})",
                                           config, S, extra={"constraint": v[0], "index": str(v[1])}))
    # the objective
    if "M16" in props:
        obj = list(real.m.component_objects(real.pe.Objective, active=True))
        sense = real.pe.minimize if config.mods.objective == "globalcosts" else real.pe.maximize
        npv = S.v("NPV", sc.nt - 1)
        ok = len(obj) == 1 and obj[0].sense == sense
        got = None
        if ok and not und:
            got = real.pe.value(obj[0].expr)
            ok = abs(got - npv) <= 1e-9 * (1 + abs(npv))
        if not ok:
            res["findings"].append(finding("M16", "objective", f"{len(obj)} objectives, sense "
                                           f"{[str(o.sense) for o in obj]}, value {got}, expected {npv}", config, S))
    return S, config


def accepted(real, S, names):
    und = real.load(S)
    vio = real.violations(tol=1e-6, first=names)
    if und:
        return None
    return not vio


def perturbations(law, i, sc):
    """overrides that break this law at this index"""
    t = i[0]
    key = (law.var,) + i
    for d in (lambda x: x * 1.05 + 0.01, lambda x: x * 0.93 - 0.01):
        yield {"override": {key: d}}
    if t == 0 and law.prop in ("M08", "M09"):
        bump = lambda base: (lambda S, tt, r: 0.3 if tt == 0 else base(S, tt, r))  # noqa: E731
        yield {"override": {key: lambda x: 0.0}, "abatement": bump}
        yield {"override": {key: lambda x: x * 1.2 + 0.01}, "abatement": bump}


def run_unlawful(sc, props, res, rng, budget):
    """break each law of the property in turn; the model must reject the point"""
    real = sc.real
    mods = sc.free.mods
    fast = time.time()
    laws = [l for l in L.LAWS if l.prop in props and l.applies(mods) and not l.param]
    plain = [l for l in laws if l.var]
    free = sc.config(dict(slack(sc.cfg), **{"effort sharing.regime": "noregime"}))
    real = Real(free)
    try:
        sc.traj(regime=False, config=free)
    except Broken as e:
        res["notes"].append(f"base point {sc.mods}: {e}")
        return
    for l in plain:
        if l.var not in real.vars:
            continue
        idx = list(instances(l, sc.nt, sc.regions))
        # first, last and a random middle period; the region rotates
        byt = {}
        for i in idx:
            byt.setdefault(i[0], []).append(i)
        ts = sorted(byt)
        pick = sorted({ts[0], ts[-1], rng.choice(ts), ts[min(1, len(ts) - 1)]})
        for t in pick:
            i = rng.choice(byt[t])
            for p in perturbations(l, i, sc):
                if time.time() - fast > budget:
                    res["notes"].append("time budget")
                    return
                try:
                    T = sc.traj(override=p["override"], abatement=p.get("abatement"), regime=False, config=free)
                except (Broken, ZeroDivisionError, OverflowError, ValueError, TypeError):
                    continue
                S = T.S
                if not judge(real, S, l, i, props, mods, sc, free, res):
                    continue
                break
    for l in laws:
        if l.var:
            continue
        for config, S in special(l, sc, rng, free):
            if time.time() - fast > budget:
                res["notes"].append("time budget")
                return
            r = Real(config)
            judge(r, S, l, None, props, mods, sc, config, res)


def judge(real, S, l, i, props, mods, sc, config, res):
    S.config = config
    bad = [b for b in check_laws(S, mods, sc.nt, sc.regions, props=[l.prop], cut=1e-4) if b[0] is l]
    if not bad:
        return False
    ok = accepted(real, S, l.var or "")
    res["points"] += 1
    res["checked"] += 1
    if ok:
        b = bad[0]
        res["findings"].append(finding(l.prop, "unlawful point accepted",
                                       f"{b[0].name}{b[1]} broken by {b[2]:.3g} ({b[3][0]} {b[3][1]!r} {b[3][2]!r}), yet every "
                                       "constraint and bound of the model holds", config, S,
                                       extra={"law": l.name, "index": list(b[1])}))
    return True


def special(l, sc, rng, free):
    """points that break an inequality or a law without a determined variable: (config, state)"""
    n, nt, R = l.name, sc.nt, sc.regions
    if len(R) < 2 and n in ("no_initial_transfer", "received_at_most_own_damages", "transfer_balance", "trade_balance", "cost_pool_balance",
                            "equal_mitigation_costs", "equal_total_costs", "per_cap_convergence", "rel_mitigation_costs_min_level"):
        return

    def tr(**k):
        try:
            return sc.traj(**dict({"regime": False, "config": free}, **k)).S
        except (Broken, ZeroDivisionError, OverflowError, ValueError, TypeError):
            return None

    def at(t0, f, r0=None):
        def wrap(base):
            def g(S, t, r):
                return f(base(S, t, r), S, t, r) if t == t0 and (r0 is None or r == r0) else base(S, t, r)
            return g
        return wrap

    def conf(**kv):
        return sc.config(dict(free.cfg, **{k.replace("__", " "): v for k, v in kv.items()}))

    ts = sorted({1, nt - 1, rng.randrange(1, nt)})
    late = [t for t in range(nt) if free.time[0] + t * free.time[2] >= 2100]
    if n == "relative_abatement_bounds":
        for t in ts:
            r0 = rng.choice(R)
            for x in (-0.2, 2.6):
                S = tr(abatement=at(t, lambda *a: x, r0))
                if S:
                    yield free, S
    elif n in ("cumulative_emissions_nonnegative",):
        S = tr(abatement=lambda base: (lambda S, t, r: 0.0 if t == 0 else 2.4))
        if S:
            yield free, S
    elif n == "carbonprice_initial":
        S = tr(abatement=at(0, lambda *a: 0.3, rng.choice(R)))
        if S:
            yield free, S
    elif n == "carbonprice_bounds":
        for t in ts:
            S = tr(abatement=at(t, lambda *a: 2.3, rng.choice(R)))
            if S:
                yield free, S
    elif n == "rel_mitigation_costs_min_level":
        for t in ts:
            r0 = rng.choice(R)
            S = tr()
            if not S:
                continue
            S2 = S
            lo = min(S2.v("rel_mitigation_costs", t, r) for r in R)
            others = [S2.v("rel_mitigation_costs", k, r) for k in range(1, nt) for r in R if k != t]
            if lo < 0 and lo < min(others) - 1e-3:
                yield conf(**{"economics.MAC.rel_mitigation_costs_min_level": (lo + min(others)) / 2
                              if min(others) < 0 else lo / 2}), S2
            if sc.mods[1] != "notrade":
                rr = list(R)
                ov = {("import_export_mitigation_cost_balance", t, r): (lambda x, q=(-0.6 if r == rr[0] else 0.6 / (len(rr) - 1)): q)
                      for r in rr}
                S3 = tr(override=ov)
                if S3:
                    yield conf(**{"economics.MAC.rel_mitigation_costs_min_level": 0.0}), S3
            else:
                ov = {("mitigation_costs", t, r0): lambda x: -0.5 * abs(x) - 0.1}
                S3 = tr(override=ov)
    elif n in ("carbon_budget", "temperature_target"):
        v, key = {"carbon_budget": ("cumulative_emissions", "emissions.carbonbudget"),
                  "temperature_target": ("temperature", "temperature.target")}[n]
        shapes = [lambda base: base, lambda base: (lambda S, t, r: 0.0 if S.year(t) > 2100 or t == 0 else 0.4),
                  lambda base: (lambda S, t, r: 1.6 if S.year(t) > 2100 else (0.3 if t else 0.0))]
        for k, t0 in enumerate(late[:4]):
            shapes.append(lambda base, t0=t0: (lambda S, t, r: 0.0 if t == 0 else (0.2 if t <= t0 else 1.7)))
        for sh in shapes:
            S = tr(abatement=sh)
            if not S or not late:
                continue
            vals = sorted(((S.v(v, t), t) for t in late), reverse=True)
            if len(vals) > 1 and vals[0][0] - vals[1][0] > 1e-3:
                yield conf(**{key: (vals[0][0] + vals[1][0]) / 2}), S
            elif len(vals) == 1:
                yield conf(**{key: vals[0][0] * 0.98 - 1e-3}), S
        S = tr(abatement=lambda base: (lambda S, t, r: 0.0 if t == 0 else 0.4))
        if S and late:      # a target of zero is a target
            yield conf(**{key: 0.0}), S
    elif n == "net_zero_after_budget_year":
        for t0 in late:
            S = tr(abatement=lambda base: (lambda S, t, r: 0.0 if t == 0 else (0.9 if t == t0 else (
                1.02 if S.year(t) >= 2100 else base(S, t, r)))))
            if S:
                b = max(S.v("cumulative_emissions", t) for t in late) * 1.01 + 1
                yield conf(**{"emissions.carbonbudget": b, "emissions.not positive after budget year": True}), S
    elif n == "non_increasing_after_2100":
        ok = [t for t in range(1, nt) if free.time[0] + (t - 1) * free.time[2] > 2100]
        for t0 in ok:
            r0 = rng.choice(R)
            S = tr(abatement=lambda base: (lambda S, t, r: 0.0 if t == 0 else (
                0.5 if S.year(t) <= 2100 else (0.5 + 0.08 * (t - ok[0] + 1) if not (t >= t0 and r == r0) else
                                               0.5 + 0.08 * (t - ok[0] + 1) - 0.35))))
            if S:
                yield conf(**{"emissions.non increasing emissions after 2100": True}), S
    elif n in ("global_inertia", "regional_inertia"):
        g = n == "global_inertia"
        key = "emissions.inertia." + ("global" if g else "regional")
        for t0 in ts:
            r0 = rng.choice(R)
            S = tr(abatement=lambda base: (lambda S, t, r: 0.0 if t == 0 else (0.1 if t < t0 or (not g and r != r0) else 0.6)))
            if not S:
                continue
            base = {r: S.data("emissions", 0, r) for r in R}
            if g:
                rate = [((S.v("global_emissions", t) - S.v("global_emissions", t - 1)) / (S.dt * sum(base.values())), t)
                        for t in range(1, nt)]
            else:
                rate = [((S.v("regional_emissions", t, r) - S.v("regional_emissions", t - 1, r)) / (S.dt * base[r]), t, r)
                        for t in range(1, nt) for r in R]
            rate.sort()
            lo = rate[0][0]
            if lo < 0:
                nxt = min(rate[1][0] if len(rate) > 1 else 0.0, 0.0)
                yield conf(**{key: (lo + nxt) / 2}), S
                yield conf(**{key: 0}), S
    elif n in ("global_min_level", "regional_min_level"):
        g = n == "global_min_level"
        key = "emissions." + ("global" if g else "regional") + " min level"
        for t0 in [0] + ts:
            r0 = rng.choice(R)
            S = tr(abatement=lambda base: (lambda S, t, r: 0.0 if t == 0 else (
                1.3 if t == t0 and (g or r == r0) else 0.3)))
            if not S:
                continue
            vals = sorted((S.v("global_emissions", t),) for t in range(nt)) if g else sorted(
                (S.v("regional_emissions", t, r),) for t in range(nt) for r in R)
            yield conf(**{key: (vals[0][0] + vals[1][0]) / 2}), S
            if vals[0][0] < 0 <= vals[1][0]:
                yield conf(**{key: 0}), S
    elif n == "slr_nonnegative":
        S = tr(override={("slr_cumgis", nt - 1): lambda x: -0.01})
        if S:
            yield free, S
    elif n == "damage_costs_slr_bounds":
        for s in (400.0, -400.0):
            c = dict(free.cfg, **{"economics.damages.scale factor": s / 10, "economics.damages.ignore damages": True})
            c = sc.config(c)
            S = tr(config=c, abatement=lambda base: (lambda S, t, r: 0.0), transfer=False)
            if S:
                yield c, S
    elif n in ("trade_balance", "cost_pool_balance"):
        for t in [0] + ts:
            for d in (0.2, 8e-4):
                S = tr(override={("import_export_mitigation_cost_balance", t, R[0]): lambda x: x + d})
                if S:
                    yield free, S
    elif n == "transfer_balance":
        for t in ts:
            for d in (0.2, 8e-4):
                S = tr(override={("financial_transfer", t, R[0]): lambda x: x + d})
                if S:
                    yield free, S
    elif n == "no_initial_transfer":
        S = tr(override={("financial_transfer", 0, R[0]): lambda x: 0.2,
                         ("financial_transfer", 0, R[1]): lambda x: -0.2})
        if S:
            yield free, S
        S = tr(override={("financial_transfer", 0, R[0]): lambda x: 0.2})
        if S:
            yield free, S
    elif n == "received_at_most_own_damages":
        for t in ts:
            S = tr(override={("financial_transfer", t, R[0]): lambda x: -3.0,
                             ("financial_transfer", t, R[1]): lambda x: 3.0,
                             **{("financial_transfer", t, r): lambda x: 0.0 for r in R[2:]}})
            if S:
                yield free, S
        c = sc.config(dict(free.cfg, **{"economics.damages.scale factor": -0.5}))
        S = tr(config=c, transfer=False)     # climate benefits: nothing may be received, something must be paid
        if S:
            yield c, S
    elif n in ("no_trade", "no_transfer"):
        names = (("import_export_mitigation_cost_balance", "import_export_emission_reduction_balance") if n == "no_trade"
                 else ("financial_transfer", "rel_financial_transfer"))
        for nm in names:
            for t in (0, nt - 1):
                S = tr(override={(nm, t, R[0]): lambda x: 0.3})
                if S:
                    yield free, S
    elif n in ("equal_mitigation_costs", "equal_total_costs", "per_cap_convergence"):
        if sc.mods[1] == "notrade" or (n == "per_cap_convergence" and sc.mods[1] != "emissiontrade"):
            return
        c = conf(**{"effort sharing.regime": n})
        for t0 in ts:
            def dev(k, t, t0=t0):
                d = [0.0] * k
                if t == t0:
                    d[0], d[1] = 3.0, -3.0
                return d
            if n == "equal_total_costs" and c.time[0] + t0 * c.time[2] > 2100:
                continue
            S = tr(regime=True, config=c, dev=dev)
            if S:
                yield c, S


def run_job(job):
    t0 = time.time()
    props = job["props"]
    seed = int(job.get("seed", 1))
    quick = job.get("tier", "quick") == "quick"
    rng = random.Random(seed)
    res = {"findings": [], "notes": [], "points": 0, "checked": 0, "scenarios": 0, "errors": []}
    limit = job.get("limit", 25 if quick else 400)
    scs = scenarios(rng, props, quick, [tuple(h) for h in job.get("hints", [])])
    for k, (mods, cfg, grid, shape, *opts) in enumerate(scs):
        if time.time() - t0 > limit:
            res["notes"].append(f"time limit after {k} scenarios")
            break
        try:
            opts = dict(opts[0]) if opts else {}
            lawful_only = opts.pop("lawful_only", False)
            sc = Scenario(mods, cfg, grid, shape, seed * 1000 + k, **opts)
        except Broken as e:
            res["notes"].append(str(e))
            continue
        except Exception as e:
            error(res, e, Config(mods, slack(cfg), grid))
            continue
        res["scenarios"] += 1
        try:
            run_lawful(sc, props, res)
        except Broken as e:
            res["notes"].append(f"lawful {mods} {grid}: {e}")
        except Exception as e:
            error(res, e, sc.free)
        if lawful_only:
            continue
        try:
            run_unlawful(sc, props, res, rng, max(1.0, min(limit / 3, limit - (time.time() - t0))))
        except Broken as e:
            res["notes"].append(f"unlawful {mods} {grid}: {e}")
        except Exception as e:
            error(res, e, sc.free)
        if len(res["findings"]) > 12:
            break
    res["wall"] = time.time() - t0
    return res


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    out = run_job(job)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f, indent=1, default=str)


if __name__ == "__main__":
    main()
