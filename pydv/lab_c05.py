"""C05 on the real code: the parameters of real models against an independent reading of template, tables and scenario files"""
import copy
import math

from reallab import lab, silent, load, REPO

TR = load("truth")
value_of = load("lab_c04").value_of

CONFIG = """
use_carbon_intensity_for_baseline = emissions.baseline carbon intensity
cumulative_emissions_trapz = emissions.cumulative_emissions_trapz
T0 = temperature.initial
TCRE = temperature.TCRE
temperature_target = temperature.target
perc_reversible_damages = economics.damages.percentage reversible
budget = emissions.carbonbudget
inertia_global = emissions.inertia.global
inertia_regional = emissions.inertia.regional
global_min_level = emissions.global min level
regional_min_level = emissions.regional min level
non_increasing_emissions_after_2100 = emissions.non increasing emissions after 2100
no_pos_emissions_after_budget_year = emissions.not positive after budget year
damage_scale_factor = economics.damages.scale factor
MAC_gamma = economics.MAC.gamma
MAC_beta = economics.MAC.beta
rel_mitigation_costs_min_level = economics.MAC.rel_mitigation_costs_min_level
LBD_rate = economics.MAC.LBD_rate
LBD_scaling = economics.MAC.LBD_scaling
LOT_rate = economics.MAC.LOT_rate
effort_sharing_regime = effort sharing.regime
percapconv_year = effort sharing.percapconv_year
alpha = economics.GDP.alpha
dk = economics.GDP.depreciation of capital
sr = economics.GDP.savings rate
ignore_damages = economics.damages.ignore damages
elasmu = economics.elasmu
PRTP = economics.PRTP
inequal_aversion = economics.inequal_aversion
min_rel_payment_level = economics.emission trade.min rel payment level
max_rel_payment_level = economics.emission trade.max rel payment level
"""
CONFIG = dict(tuple(x.strip() for x in ln.split("=", 1)) for ln in CONFIG.strip().splitlines())
ALWAYS = ["T0", "TCRE", "budget", "MAC_gamma", "MAC_beta", "alpha", "dk", "sr", "PRTP", "elasmu", "inertia_regional", "LOT_rate", "LBD_rate",
          "temperature_target", "global_min_level", "regional_min_level", "effort_sharing_regime", "ignore_damages"]
DATA = {"population": "population", "baseline_GDP": "GDP", "baseline_emissions": "emissions"}
MORT = [f"mortality_param_{a}_{x}" for a in ("oldest", "older", "young") for x in "abc"]


def put(d, path, v):
    ks = path.split(".")
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = v


def user_config(r, tpl, combined):
    """a random valid configuration"""
    u = {}
    put(u, "model.damage module", "COACCH" if combined is not None else "nodamage")
    put(u, "model.emissiontrade module", r.choice(["notrade", "emissiontrade", "globalcostpool"]))
    put(u, "model.financialtransfer module", r.choice(["notransfer", "globaldamagepool"]) if combined is not None else "notransfer")
    wm = r.choice(["welfare_loss_minimising", "cost_minimising", "inequal_aversion_general"])
    put(u, "model.welfare module", wm)
    put(u, "model.objective module", "globalcosts" if r.random() < 0.3 else "utility")
    put(u, "time", {"start": r.choice([2020, 2015, 2025]), "end": r.choice([2060, 2083, 2110]), "dt": r.choice([5, 10, 7.5, 20])})
    put(u, "SSP", r.choice(["SSP1", "SSP2", "SSP3", "SSP4", "SSP5"]))
    regs = r.sample(["USA", "CHN", "INDIA", "WEU", "RSAF", "BRA", "JAP"], 2)
    u["regions"] = {x: {} for x in regs}
    if r.random() < 0.6:
        u["regions"][regs[0]] = {"economics": {"init_capital_factor": round(r.uniform(1, 3), 3)}}
    if r.random() < 0.4:
        u["regions"][regs[1]] = {"COACCH": {"NoSLR_b1": round(r.uniform(0.1, 2), 3), "combined_b1_Ad-q0.5": 0.77},
                                 "MAC": {"kappa_rel_abatement_0.75_2050": round(r.uniform(0.3, 2), 3)}}
    for path, lo, hi in (("economics.PRTP", 0.001, 0.1), ("economics.elasmu", 1.1, 3), ("economics.inequal_aversion", 0.1, 0.9), ("economics.GDP.alpha", 0.1, 0.6),
                         ("economics.GDP.depreciation of capital", 0.01, 0.2), ("economics.GDP.savings rate", 0.05, 0.5),
                         ("economics.MAC.beta", 1.5, 5), ("economics.MAC.LBD_rate", 0.5, 0.95), ("economics.MAC.LOT_rate", 0.0, 0.05),
                         ("economics.damages.scale factor", 0.1, 3)):
        if r.random() < 0.6:
            put(u, path, round(r.uniform(lo, hi), 4))
    for path, unit, lo, hi in (("economics.MAC.gamma", "USD2005/tCO2", 500, 3000), ("economics.MAC.gamma", "USD2010/ktCO2", 5e5, 3e6),
                               ("temperature.initial", "delta_degC", 0.8, 1.5), ("temperature.TCRE", "delta_degC/TtCO2", 0.4, 0.9),
                               ("temperature.target", "delta_degC", 1.8, 3), ("emissions.carbonbudget", "GtCO2", 300, 1500),
                               ("emissions.carbonbudget", "MtCO2", 3e5, 1.5e6), ("emissions.global min level", "MtCO2/yr", -20000, -1000),
                               ("emissions.regional min level", "GtCO2/yr", -10, -1), ("economics.MAC.LBD_scaling", "GtCO2", 20, 60)):
        if r.random() < 0.45:
            put(u, path, f"{round(r.uniform(lo, hi), 2)} {unit}")
    for path in ("emissions.carbonbudget", "emissions.global min level", "emissions.regional min level", "temperature.target",
                 "emissions.inertia.global", "emissions.inertia.regional"):
        if r.random() < 0.2:
            put(u, path, False)
    for path in ("emissions.baseline carbon intensity", "emissions.cumulative_emissions_trapz", "economics.damages.ignore damages"):
        if r.random() < 0.4:
            put(u, path, r.random() < 0.5)
    if r.random() < 0.5:
        put(u, "economics.MAC.regional calibration factor", r.choice(tpl["economics"]["MAC"]["regional calibration factor"]["values"]))
    if r.random() < 0.7:
        put(u, "economics.damages.quantile", r.choice(tpl["economics"]["damages"]["quantile"]["values"]))
    if r.random() < 0.6:
        put(u, "economics.damages.coacch_slr_withadapt", r.random() < 0.5)
    if combined is not None:
        put(u, "economics.damages.coacch_combined_slr_nonslr_damages", combined)
    if u["model"]["emissiontrade module"] == "emissiontrade" and r.random() < 0.5:
        put(u, "effort sharing.regime", r.choice(tpl["effort sharing"]["regime"]["values"]))
    return u


def same(a, b):
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, bool) or isinstance(b, bool):
        return a == b
    try:
        if math.isnan(b):
            return math.isnan(a)
        return abs(a - b) <= 1e-7 * max(1e-9, abs(a), abs(b))
    except TypeError:
        return a == b


def wanted(t, u, over):
    """{parameter: {index: value}} (index None: scalar)"""
    w = {}
    for n, p in CONFIG.items():
        w[n] = {None: t.config(p)}
    regs = t.regions()
    st, end, dt = (t.raw(("time", k)) for k in ("start", "end", "dt"))
    N = math.ceil((end - st) / dt - 1e-9)
    for n, v in DATA.items():
        w[n] = {}
        for r in regs:
            for k, x in enumerate(t.data(v, r, [st + k * dt for k in range(N + 1)])):
                w[n][k, r] = x
    w["MAC_scaling_factor"] = {r: t.regional("MAC", t.config("economics.MAC.regional calibration factor"), r) for r in regs}
    w["init_capitalstock_factor"] = {r: t.regional("economics", "init_capital_factor", r) for r in regs}
    if t.config("model.damage module") == "COACCH":
        for n in MORT:
            w[n] = {r: t.regional("mortality", n[len("mortality_param_"):], r) for r in regs}
        q, ad = t.config("economics.damages.quantile"), t.config("economics.damages.coacch_slr_withadapt")
        if t.config("economics.damages.coacch_combined_slr_nonslr_damages"):
            for b in ("b1", "b2"):
                w[f"damage_noslr_{b}"] = {r: t.regional("COACCH", f"combined_{b}_{'Ad' if ad else 'NoAd'}-q{q}", r) for r in regs}
            w["damage_noslr_a"] = {r: 1 for r in regs}
        else:
            for kind, pre in (("noslr", "NoSLR"), ("slr", "SLR-Ad" if ad else "SLR-NoAd")):
                for x in ("form", "b1", "b2", "b3", "a"):
                    w[f"damage_{kind}_{x}"] = {r: t.regional("COACCH", f"{pre}_{x}" + (f" (q={q})" if x == "a" else ""), r) for r in regs}
    for n, v in over.items():
        w[n] = v
    return w


def show(v):
    return repr(v)[:160]


@lab("C05")
def built_models(job, res):
    with silent():
        import mimosa.mimosa as mm
        from pyomo.environ import Param

    class M(mm.MIMOSA):
        def preprocessing(self):
            pass
    r = res.rng
    tpl = TR.load_yaml(REPO + "/mimosa/inputdata/config/config_default.yaml")
    kinds = [False, True, None, False, True]
    n = 0
    seen = set()
    while res.left() > 0.4 and n < (24 if res.quick else 4000):
        n += 1
        u = user_config(r, tpl, kinds[n % len(kinds)])
        over = {}
        if n % 3 == 0:
            for k, v in (("PRTP", {None: 0.0123}), ("alpha", {None: 0.456}), ("init_capitalstock_factor", None), ("damage_noslr_b1", None),
                         ("baseline_GDP", None)):
                if r.random() < 0.5:
                    over[k] = v
        t = TR.Truth(REPO, u, value_of)
        regs = t.regions()
        N = math.ceil((u["time"]["end"] - u["time"]["start"]) / u["time"]["dt"] - 1e-9)
        for k in list(over):
            if over[k] is None:
                over[k] = {(i, x): 1.5 + i for i in range(N + 1) for x in regs} if k == "baseline_GDP" else {x: 0.321 + 0.1 * i for i, x in enumerate(regs)}
        if t.config("model.damage module") != "COACCH":
            over.pop("damage_noslr_b1", None)
        if over:
            put(u, "simulation.custom_mapping", copy.deepcopy(over))
        try:
            with silent():
                model = M(copy.deepcopy(u))
        except Exception as e:
            res.finding(f"a model of a valid configuration cannot be built: {type(e).__name__}: {str(e)[:300]}", config=u)
            continue
        m = model.concrete_model
        want = wanted(t, u, over)
        res.ran(1, {"time": u["time"], "SSP": u["SSP"], "regions": list(u["regions"])})
        for name, vals in want.items():
            c = m.component(name)
            if c is None:
                if name in ALWAYS or name in DATA:
                    res["notes"].append(f"{name} is not a parameter of the model")
                continue
            seen.add(name)
            got = {None: c.value} if not c.is_indexed() else {k: c[k] for k in c}
            if not all(any(same_key(k, x) for x in got) for k in vals):
                res.finding(f"parameter {name} has no value for {[k for k in vals if k not in got][:3]}", config=u)
                continue
            for k, v in vals.items():
                if not same(plain(got[k]), v):
                    res.finding(f"parameter {name}{'' if k is None else show(k)} is {show(plain(got[k]))}, the source gives {show(v)}"
                                + (" (override)" if name in over else ""), config=u)
                    break
        if t.config("model.damage module") == "COACCH" and t.config("economics.damages.coacch_combined_slr_nonslr_damages") and "damage_noslr_b1" not in over:
            from pyomo.environ import value
            for x in regs:
                if not isinstance(m.component("damage_slr_a"), Param):
                    break
                f, b1, b2 = (plain(m.component("damage_slr_" + z)[x]) for z in ("form", "b1", "b2"))
                if plain(m.damage_slr_a[x]) != 0 and not (b1 == 0 and (b2 == 0 or "Linear" in f)):
                    res.finding(f"combined damages: the sea-level part of {x} is not zero ({f}, {b1}, {b2}, a={m.damage_slr_a[x]})", config=u)
                if "Quadratic" not in plain(m.damage_noslr_form[x]):
                    res.finding(f"combined damages: form {plain(m.damage_noslr_form[x])!r} instead of quadratic", config=u)
    res["notes"].append(f"{len(seen)} parameters compared")


def same_key(a, b):
    return a == b


def plain(x):
    from pyomo.environ import value
    if isinstance(x, (str, bool)):
        return x
    try:
        return value(x)
    except Exception:
        return x
