"""C05: contract of InstantiatedModel.get_param_values.

For every parameter that the real abstract models declare (all 72 combinations) and an arbitrary configuration: its entry of the
instance data is the value at the source it declares (configuration, regional table, scenario data of that year and region), converted
to the declared unit when the source is a quantity; overrides win; combined damages replace the damage coefficients; the instance is
created from exactly these data.  The declared sources themselves are compared with the table of sources below."""
from . import terms as T
from . import engine as E
from . import mcheck as M
from . import laws as L
from .contract import Suite
from .inst import (IP, Instance, declared, summaries, scalar, is_ghost, for_all_regions, grid, HORIZON, START, END, DT, FakeParam)
from .symany import Ghost, SymStr, SymObj, slit, seq
from .c01 import leaves_of
from .terms import num, var, app, fn, And, Or, Not, Implies, TRUE, FALSE, Unsupported, lift, Term

# which configured value belongs to which parameter of the model
CONFIG = """
use_carbon_intensity_for_baseline = emissions.baseline carbon intensity
cumulative_emissions_trapz = emissions.cumulative_emissions_trapz
T0 = temperature.initial
TCRE = temperature.TCRE
temperature_target = temperature.target
perc_reversible_damages = economics.damages.percentage reversible
budget = emissions.carbonbudget
inertia_global = emissions.inertia.global
inertia_regional = emissions.inertia.regional
global_min_level = emissions.global min level
regional_min_level = emissions.regional min level
non_increasing_emissions_after_2100 = emissions.non increasing emissions after 2100
no_pos_emissions_after_budget_year = emissions.not positive after budget year
damage_scale_factor = economics.damages.scale factor
MAC_gamma = economics.MAC.gamma
MAC_beta = economics.MAC.beta
rel_mitigation_costs_min_level = economics.MAC.rel_mitigation_costs_min_level
LBD_rate = economics.MAC.LBD_rate
LBD_scaling = economics.MAC.LBD_scaling
LOT_rate = economics.MAC.LOT_rate
effort_sharing_regime = effort sharing.regime
percapconv_year = effort sharing.percapconv_year
alpha = economics.GDP.alpha
dk = economics.GDP.depreciation of capital
sr = economics.GDP.savings rate
ignore_damages = economics.damages.ignore damages
elasmu = economics.elasmu
PRTP = economics.PRTP
inequal_aversion = economics.inequal_aversion
min_rel_payment_level = economics.emission trade.min rel payment level
max_rel_payment_level = economics.emission trade.max rel payment level
"""
CONFIG = dict(tuple(x.strip() for x in ln.split("=", 1)) for ln in CONFIG.strip().splitlines())
DATA = {"population": "population", "baseline_GDP": "GDP", "baseline_emissions": "emissions"}


def regional_source(name, quantile, withadapt, calibration):
    if name == "MAC_scaling_factor":
        return ("MAC", calibration)
    if name == "init_capitalstock_factor":
        return ("economics", "init_capital_factor")
    if name.startswith("mortality_param_"):
        return ("mortality", name[len("mortality_param_"):])
    for kind, prefix in (("noslr", "NoSLR"), ("slr", "SLR-Ad" if withadapt else "SLR-NoAd")):
        if name.startswith(f"damage_{kind}_"):
            x = name[len(f"damage_{kind}_"):]
            return ("COACCH", f"{prefix}_{x}" + (f" (q={quantile})" if x == "a" else ""))
    return None


def run(repo=None):
    w, params = M.make_world(repo)
    s = Suite("C05", w)
    tpl = M.load_template(w.repo)
    summaries(w)
    docs = declared(w, L.all_mods())
    s.docs = docs
    s.section(main, w, tpl, docs)
    s.section(overrides, w, tpl, docs)
    s.section(combined, w, tpl, docs)
    s.section(synthetic, w, tpl)
    s.section(created, w, tpl, docs)
    w.summaries.clear()
    return s


def config_path(text):
    return tuple(text.split("."))


def node_at(tpl, path):
    for k in path:
        tpl = tpl[k]
    return tpl


def expected(tpl, inst, name, doc, N, setting):
    """(label, what the entry must be) from the declaration; None: no source"""
    d = doc(inst.params) if callable(doc) else doc
    if d is None:
        return None
    d = str(d)
    if d.startswith("::"):
        path = config_path(d[2:])
        node = node_at(tpl, path)
        val = inst.params
        for k in path:
            val = val[k]

        def ok(x):
            x = scalar(x)
            if node["type"] == "quantity":
                return is_ghost(x, "converted", val, Ghost("unit of", " - ".join(path)))
            return val.same(x) if isinstance(val, Ghost) else (T.B(x is val or type(x) is type(val) and x == val) if not isinstance(
                val, Term) else val == x)
        return ok
    if d.startswith("regional::"):
        cat, nm = d[len("regional::"):].split(".", 1)

        def ok(x):
            if isinstance(x, Ghost):
                return is_ghost(x, "regional", cat, nm)
            return for_all_regions(x, inst.regions, lambda r, v: is_ghost(v, "regional of", cat, nm, r))
        return ok
    if d.startswith("timeandregional::"):
        var_ = d[len("timeandregional::"):]

        def value(t, r, v):
            if not isinstance(v, Ghost) or len(v.key) != 4 or v.key[0] != "data":
                return FALSE
            return And(TRUE if v.key[3] == var_ else FALSE, r.same(v.key[2]), v.key[1] == START + t * DT)
        return lambda x: grid(x, inst.regions, N, value)
    return None


def flat(r, label):
    if isinstance(r, list):
        return [(f"{label} {a}", b) for a, b in r]
    return [(label, r)]


def settings(tpl):
    qs = tpl["economics"]["damages"]["quantile"]["values"]
    cal = tpl["economics"]["MAC"]["regional calibration factor"]["values"]
    for n, q in enumerate(qs):
        for ad in (True, False):
            yield q, ad, cal[n % len(cal)]
    for c in cal:
        yield qs[0], True, c


def over(q, ad, cal, comb, mod):
    return {("economics", "damages", "quantile"): q, ("economics", "damages", "coacch_slr_withadapt"): ad,
            ("economics", "MAC", "regional calibration factor"): cal, ("economics", "damages", "coacch_combined_slr_nonslr_damages"): comb,
            ("model", "damage module"): mod}


def entries(p, inst, tpl, docs, setting, skip=()):
    """every declared parameter's entry is what its declaration says"""
    out = []
    d = p.value.instance_data[None]
    N = scalar(d["tf"])
    for name, doc in docs.items():
        if name in skip:
            continue
        e = expected(tpl, inst, name, doc, N, setting)
        if e is None:
            if doc is None and name in d and name not in ("beginyear", "dt", "tf", "t", "year2100", "regions"):
                out.append((f"{name} has no source", FALSE))
            continue
        if name not in d:
            out.append((f"{name} has a value", FALSE))
            continue
        out += flat(e(d[name]), name)
    return out


def main(s, w, tpl, docs):
    for q, ad, cal in settings(tpl):
        inst = Instance(w, tpl, docs, over(q, ad, cal, False, "COACCH"))
        s.case(f"quantile {q}, {'with' if ad else 'no'} adaptation, {cal}", lambda: inst.go(w),
               lambda p: entries(p, inst, tpl, docs, (q, ad, cal)) if p.kind == "return" else FALSE, HORIZON)
        # the declared sources are the parameters' own
        for name, doc in docs.items():
            d = str(doc(inst.params) if callable(doc) else doc)
            if name in CONFIG:
                want = "::" + CONFIG[name]
            elif name in DATA:
                want = "timeandregional::" + DATA[name]
            else:
                r = regional_source(name, q, ad, cal)
                if r is None:
                    continue
                want = "regional::" + ".".join(r)
            s.add(f"source of {name} ({q}, {ad}, {cal})", "discharged" if d == want else "failed", "nf",
                  f"declares {d!r} instead of {want!r}")
    for comb in (True, False):      # other damage modules: the combined option has no effect
        inst = Instance(w, tpl, docs, over(0.5, True, "kappa_rel_abatement_0.75_2050", comb, "nodamage"))
        s.case(f"no damages, combined {comb}", lambda: inst.go(w),
               lambda p: entries(p, inst, tpl, docs, None) if p.kind == "return" else FALSE, HORIZON)


def overrides(s, w, tpl, docs):
    """overrides by parameter name win over every source, all others keep theirs"""
    names = list(docs) + ["some name"]
    own = ("t", "tf", "dt", "beginyear", "regions")
    groups = [[n] for n in ("PRTP", "population", "damage_noslr_b1", "damage_slr_a", "init_capitalstock_factor", "alpha", "some name", "year2100",
                            "TFP")] + [[n for n in names if n not in own]]
    for comb in (True, False):
        for g in groups:
            custom = {n: Ghost("override", n) for n in g}
            inst = Instance(w, tpl, docs, over(0.5, False, "kappa_rel_abatement_0.75_2050", comb, "COACCH"), custom)

            def post(p):
                if p.kind != "return":
                    return FALSE
                d = p.value.instance_data[None]
                out = [(f"override of {n}", custom[n].same(d.get(n))) for n in g]
                coacch = {n for n in docs if n.startswith("damage_noslr_") or n.startswith("damage_slr_")} if comb else set()
                return out + entries(p, inst, tpl, docs, None, set(g) | coacch)
            s.case(f"override of {g[0] if len(g) == 1 else 'everything'}{', combined damages' if comb else ''}", lambda: inst.go(w), post, HORIZON)


def combined(s, w, tpl, docs):
    qs = tpl["economics"]["damages"]["quantile"]["values"]
    for q in qs:
        for ad in (True, False):
            inst = Instance(w, tpl, docs, over(q, ad, "kappa_rel_abatement_0.75_2050", True, "COACCH"))
            pre = "Ad" if ad else "NoAd"

            def post(p):
                if p.kind != "return":
                    return FALSE
                d = p.value.instance_data[None]
                out = []
                for b in ("b1", "b2"):
                    x, col = d.get(f"damage_noslr_{b}"), f"combined_{b}_{pre}-q{q}"
                    out.append((f"combined {b}", is_ghost(x, "regional", "COACCH", col) if isinstance(x, Ghost) else for_all_regions(
                        x, inst.regions, lambda r, v: is_ghost(v, "regional of", "COACCH", col, r))))
                every = lambda n, f: for_all_regions(d.get(n), inst.regions, lambda r, v: f(v))   # noqa: E731
                out.append(("quadratic form", every("damage_noslr_form", lambda v: T.B(isinstance(v, str) and "Quadratic" in v))))
                out.append(("no scaling", every("damage_noslr_a", lambda v: isnum(v, 1))))
                zero = [every(f"damage_slr_{x}", lambda v: isnum(v, 0)) for x in ("b1", "b2", "b3")]
                out.append(("sea-level part is zero", Or(every("damage_slr_a", lambda v: isnum(v, 0)), And(*zero))))
                out.append(("a sea-level form is given", every("damage_slr_form", lambda v: T.B(isinstance(v, str)))))
                coacch = {n for n in docs if n.startswith("damage_noslr_") or n.startswith("damage_slr_")}
                return out + entries(p, inst, tpl, docs, None, coacch)
            s.case(f"combined damages, quantile {q}, {'with' if ad else 'no'} adaptation", lambda: inst.go(w), post, HORIZON)


def isnum(v, n):
    if isinstance(v, bool) or not isinstance(lift(v), Term):
        return FALSE
    return lift(v) == n


def synthetic(s, w, tpl):
    """every parameter of the template and unusual names as a declared source"""
    docs = {}
    for n, (path, node) in enumerate(leaves_of(tpl)):
        if path[0] in ("regions", "time") or any("." in str(k) for k in path):
            continue
        docs[f"c{n}"] = "::" + ".".join(path)
    for n, (c, x) in enumerate([("A", "b"), ("A", "b.c"), ("A b", "x_0.75"), ("COACCH", "NoSLR_a (q=0.5)")]):
        docs[f"r{n}"] = f"regional::{c}.{x}"
        docs[f"l{n}"] = (lambda y: lambda params: y)(f"regional::{c}.{x}")
    docs["d0"] = "timeandregional::some variable"
    docs["n0"] = None
    docs["n1"] = "just a description"
    inst = Instance(w, tpl, docs, {("model", "damage module"): "nodamage"})

    def post(p):
        if p.kind != "return":
            return FALSE
        d = p.value.instance_data[None]
        return entries(p, inst, tpl, docs, None) + [("no source, no value", T.B("n0" not in d and "n1" not in d))]
    s.case("every source", lambda: inst.go(w), post, HORIZON)


def created(s, w, tpl, docs):
    """the concrete model is made from these data, of this abstract model"""
    inst = Instance(w, tpl, docs, over(0.5, True, "kappa_rel_abatement_0.75_2050", False, "nodamage"))
    made = []

    def create(data=None, **k):
        made.append(data)
        return Ghost("the concrete model")
    inst.abstract.create_instance = create

    def thunk():
        made.clear()
        return inst.go(w, True)
    s.case("the concrete model is made from the instance data", thunk, lambda p: T.B(
        p.kind == "return" and len(made) == 1 and made[0] is p.value.instance_data and isinstance(p.value.concrete_model, Ghost)), HORIZON)
