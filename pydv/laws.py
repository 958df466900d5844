"""The specifications: laws every MIMOSA model must enforce, written once and read twice.

A law is a Python function over an abstract state `S`; with the symbolic state it yields the postcondition over the
constraint set (all periods, regions, parameters), with the numeric state it yields numbers for replay on the real
code.  The formulae are those of the documentation (docs/ and the component docstrings), config values are named by
their path in the configuration template.

index kinds: 'G0' global at t=0, 'G' global at a period t>=1, 'R0'/'R' the same per region.
"""


class Law:
    def __init__(self, prop, name, kinds, fn, var=None, when=None, tags=()):
        self.prop, self.name, self.kinds, self.fn, self.var, self.when = prop, name, kinds, fn, var, when
        self.tags = tags

    def applies(self, mods):
        return self.when is None or self.when(mods)

    def __repr__(self):
        return f"<{self.prop}:{self.name}>"


LAWS = []


class Mods:
    """module choice"""

    def __init__(self, damage, trade, transfer, welfare, objective):
        self.damage, self.trade, self.transfer, self.welfare, self.objective = damage, trade, transfer, welfare, objective

    def key(self):
        return (self.damage, self.trade, self.transfer, self.welfare, self.objective)

    def args(self):
        return self.key()

    def __repr__(self):
        return "/".join(self.key())


DAMAGE = ("COACCH", "nodamage")
TRADE = ("notrade", "emissiontrade", "globalcostpool")
TRANSFER = ("notransfer", "globaldamagepool")
WELFARE = ("welfare_loss_minimising", "cost_minimising", "inequal_aversion_general")
OBJECTIVE = ("utility", "globalcosts")


def all_mods(trade=TRADE):
    import itertools
    return [Mods(*c) for c in itertools.product(DAMAGE, trade, TRANSFER, WELFARE, OBJECTIVE)]


def eq(prop, var, kinds, when=None, name=None, tags=()):
    """law  var[index] == f(S, index);  f returns None where there is no such law"""
    def deco(f):
        def rel(S, *i):
            e = f(S, *i)
            if e is None:
                return []
            return [S.eq(S.v(var, *i), e)]
        law = Law(prop, name or var, kinds, rel, var, when, tags)
        law.expr = f
        LAWS.append(law)
        return f
    return deco


def rel(prop, name, kinds, when=None, tags=()):
    """law: a list of relations (inequalities, or equalities without a determined variable)"""
    def deco(f):
        law = Law(prop, name, kinds, lambda S, *i: f(S, *i) or [], None, when, tags)
        law.expr = None
        LAWS.append(law)
        return f
    return deco


def par(prop, name, kinds, when=None, tags=()):
    """definition of a derived parameter"""
    def deco(f):
        law = Law(prop, name, kinds, lambda S, *i: [S.eq(S.p(name, *i), f(S, *i))], None, when, tags)
        law.expr, law.param = f, name
        LAWS.append(law)
        return f
    return deco


Law.param = None


# ----------------------------------------------------------------------------- smoothing functions (common/pyomo_utils)
def soft_switch(S, x, scale=1.0):
    a = 25.0 / scale
    return S.atan(a * x) / S.pi + 0.5


def soft_min(S, x, scale=1.0):
    a = 25.0 / scale
    return soft_switch(S, x, scale) * x + 1 / (a * S.pi)


def soft_max(S, x, maxval, scale=1.0):
    return maxval - soft_min(S, maxval - x, scale)


def is0(S, t):
    return S.is0(t)


# ----------------------------------------------------------------------------- M02 / M01 emissions
CI = "emissions.baseline carbon intensity"


@par("M02", "cumulative_baseline_emissions", ("R0", "R"))
def _(S, t, r):
    return S.sum_t(t, lambda k: S.dt * (S.data("emissions", k, r) + S.data("emissions", k + 1, r)) / 2)


@par("M02", "cumulative_global_baseline_emissions", ("G0", "G"))
def _(S, t):
    return S.sum(lambda r: S.p("cumulative_baseline_emissions", t, r))


@eq("M02", "baseline", ("R0", "R"))
def _(S, t, r):
    if S.flag(CI):
        return S.data("emissions", t, r) / S.data("GDP", t, r) * S.v("GDP_net", t, r)
    return S.data("emissions", t, r)


@eq("M01", "regional_emissions", ("R0", "R"))
def _(S, t, r):
    if S.is0(t):
        return S.data("emissions", t, r)
    b = S.v("baseline", t, r) if S.flag(CI) else S.data("emissions", t, r)
    return (1 - S.v("relative_abatement", t, r)) * b


@eq("M01", "regional_emission_reduction", ("R0", "R"))
def _(S, t, r):
    return S.v("baseline", t, r) - S.v("regional_emissions", t, r)


@eq("M01", "global_emissions", ("G0", "G"))
def _(S, t):
    return S.sum(lambda r: S.v("regional_emissions", t, r))


@eq("M01", "cumulative_emissions", ("G0", "G"))
def _(S, t):
    if S.is0(t):
        return 0
    g, p = S.v("global_emissions", t), S.v("global_emissions", t - 1)
    inc = (g + p) / 2 if S.flag("emissions.cumulative_emissions_trapz") else g
    return S.v("cumulative_emissions", t - 1) + S.dt * inc


@eq("M01", "emission_relative_cumulative", ("G0", "G"))
def _(S, t):
    if S.is0(t):
        return 1
    return S.v("cumulative_emissions", t) / S.p("cumulative_global_baseline_emissions", t)


@rel("M01", "relative_abatement_bounds", ("R0", "R"))
def _(S, t, r):
    a = S.v("relative_abatement", t, r)
    return [S.le(0, a), S.le(a, 2.5)]


@rel("M01", "cumulative_emissions_nonnegative", ("G0", "G"))
def _(S, t):
    return [S.le(0, S.v("cumulative_emissions", t))]


# ----------------------------------------------------------------------------- M03 temperature
@eq("M03", "temperature", ("G0", "G"))
def _(S, t):
    return S.cfg("temperature.initial") + S.cfg("temperature.TCRE") * S.v("cumulative_emissions", t)


# ----------------------------------------------------------------------------- M04 targets
@rel("M04", "carbon_budget", ("G0", "G"), tags=("policy",))
def _(S, t):
    if S.year(t) >= 2100 and S.on("emissions.carbonbudget"):
        return [S.le(S.v("cumulative_emissions", t), S.cfg("emissions.carbonbudget"))]


@rel("M04", "temperature_target", ("G0", "G"), tags=("policy",))
def _(S, t):
    if S.year(t) >= 2100 and S.on("temperature.target"):
        return [S.le(S.v("temperature", t), S.cfg("temperature.target"))]


@rel("M04", "net_zero_after_budget_year", ("G0", "G"), tags=("policy",))
def _(S, t):
    if S.year(t) >= 2100 and S.on("emissions.carbonbudget") and S.flag("emissions.not positive after budget year"):
        return [S.le(S.v("global_emissions", t), 0)]


@rel("M04", "non_increasing_after_2100", ("R0", "R"), tags=("policy",))
def _(S, t, r):
    if S.year(t - 1) > 2100 and S.flag("emissions.non increasing emissions after 2100"):
        return [S.le(S.v("regional_emissions", t, r), S.v("regional_emissions", t - 1, r))]


# ----------------------------------------------------------------------------- M05 inertia and minimum levels
@rel("M05", "global_inertia", ("G0", "G"), tags=("policy",))
def _(S, t):
    if not S.is0(t) and S.on("emissions.inertia.global"):
        base = S.sum(lambda r: S.data("emissions", S.zero, r))
        return [S.le(S.dt * S.cfg("emissions.inertia.global") * base,
                     S.v("global_emissions", t) - S.v("global_emissions", t - 1))]


@rel("M05", "regional_inertia", ("R0", "R"), tags=("policy",))
def _(S, t, r):
    if not S.is0(t) and S.on("emissions.inertia.regional"):
        return [S.le(S.dt * S.cfg("emissions.inertia.regional") * S.data("emissions", S.zero, r),
                     S.v("regional_emissions", t, r) - S.v("regional_emissions", t - 1, r))]


@rel("M05", "global_min_level", ("G0", "G"), tags=("policy",))
def _(S, t):
    if S.on("emissions.global min level"):
        return [S.le(S.cfg("emissions.global min level"), S.v("global_emissions", t))]


@rel("M05", "regional_min_level", ("R0", "R"), tags=("policy",))
def _(S, t, r):
    if S.on("emissions.regional min level"):
        return [S.le(S.cfg("emissions.regional min level"), S.v("regional_emissions", t, r))]


# ----------------------------------------------------------------------------- M06 sea-level rise
A_TH, EQ_TH, INIT_TH = 0.024076141150722, 0.5, 0.0920666936642


@eq("M06", "slr_thermal", ("G0", "G"))
def _(S, t):
    if S.is0(t):
        return INIT_TH + A_TH * (S.cfg("temperature.initial") * EQ_TH - INIT_TH)
    return (1 - S.num(A_TH)) ** (S.dt / 10) * S.v("slr_thermal", t - 1) + A_TH * (S.dt / 10) * (
        S.v("temperature", t - 1) * EQ_TH)


@eq("M06", "slr_cumgsic", ("G0", "G"))
def _(S, t):
    if S.is0(t):
        return 0.015
    g = S.v("slr_cumgsic", t - 1)
    return g + 0.0008 * S.dt * (0.26 - g) / 0.26 * (S.v("temperature", t - 1) - (-1))


@eq("M06", "slr_cumgis", ("G0", "G"))
def _(S, t):
    if S.is0(t):
        return 0.006
    g = S.v("slr_cumgis", t - 1)
    return g + S.dt / 10 * (1 / 100) * (1.11860082 * S.v("temperature", t - 1) + 0.6) * (1 - g / 7.3)


@eq("M06", "total_SLR", ("G0", "G"))
def _(S, t):
    return S.v("slr_thermal", t) + S.v("slr_cumgsic", t) + S.v("slr_cumgis", t)


@rel("M06", "slr_nonnegative", ("G0", "G"))
def _(S, t):
    return [S.le(0, S.v(x, t)) for x in ("slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR")]


# ----------------------------------------------------------------------------- M07 damages
def coacch(m):
    return m.damage == "COACCH"


def _form(S, x, r, cat):
    """a * D(x) / 100 with the region's functional form"""
    ad = "SLR-Ad" if S.flag_c("economics.damages.coacch_slr_withadapt") else "SLR-NoAd"
    pre = ad if cat == "slr" else "NoSLR"
    q = S.text("economics.damages.quantile")
    a = S.reg("COACCH", f"{pre}_a (q={q})", r)
    b1, b2, b3 = (S.reg("COACCH", f"{pre}_b{i}", r) for i in (1, 2, 3))
    form = f"{pre}_form"
    if S.contains("COACCH", form, r, "Linear"):
        return a * (b1 * x) / 100
    if S.contains("COACCH", form, r, "Quadratic"):
        return a * (b1 * x + b2 * x ** 2) / 100
    if S.contains("COACCH", form, r, "Logistic"):
        e = S.exp(soft_max(S, -b3 * x, 10, 0.1))
        return a * (b1 / (1 + b2 * e) - b1 / (1 + b2)) / 100
    return S.excluded()


@eq("M07", "damage_costs_non_slr", ("R0", "R"), when=coacch)
def _(S, t, r):
    x, x0 = S.v("temperature", t) - 0.6, S.cfg("temperature.initial") - 0.6
    return S.cfg("economics.damages.scale factor") * (_form(S, x, r, "noslr") - _form(S, x0, r, "noslr"))


@eq("M07", "damage_costs_slr", ("R0", "R"), when=coacch)
def _(S, t, r):
    return S.cfg("economics.damages.scale factor") * (
        _form(S, S.v("total_SLR", t), r, "slr") - _form(S, S.v("total_SLR", S.zero), r, "slr"))


@eq("M07", "damage_costs", ("R0", "R"), when=coacch)
def _(S, t, r):
    return S.v("damage_costs_non_slr", t, r) + S.v("damage_costs_slr", t, r)


@rel("M07", "damage_costs_slr_bounds", ("R0", "R"), when=coacch)
def _(S, t, r):
    d = S.v("damage_costs_slr", t, r)
    return [S.le(-0.5, d), S.le(d, 0.7)]


def _mort(age):
    @eq("M07", f"mortality_{age}", ("R0", "R"), when=coacch)
    def f(S, t, r):
        T = S.v("temperature", t)
        a, b, c = (S.reg("mortality", f"{age}_{i}", r) for i in "abc")
        return a + b * T + c * T ** 2


for _age in ("oldest", "older", "young"):
    _mort(_age)


@eq("M07", "mortality_cost_oldest", ("R0", "R"), when=coacch)
def _(S, t, r):
    return S.v("mortality_oldest", t, r) * S.data("population", t, r) * 1e4 * 1.3


@eq("M07", "damage_costs", ("R0", "R"), when=lambda m: m.damage == "nodamage", name="no_damage_costs")
def _(S, t, r):
    return 0


# ----------------------------------------------------------------------------- M10 learning
@eq("M10", "LBD_factor", ("G0", "G"))
def _(S, t):
    x = (S.p("cumulative_global_baseline_emissions", t) - S.v("cumulative_emissions", t)) / S.cfg(
        "economics.MAC.LBD_scaling") + 1
    return soft_min(S, x) ** (S.log(S.cfg("economics.MAC.LBD_rate")) / S.log(S.num(2)))


@eq("M10", "LOT_factor", ("G0", "G"))
def _(S, t):
    return 1 / (1 + S.cfg("economics.MAC.LOT_rate")) ** t


@eq("M10", "learning_factor", ("G0", "G"))
def _(S, t):
    return S.v("LBD_factor", t) * S.v("LOT_factor", t)


# ----------------------------------------------------------------------------- M08 carbon price
def _kappa(S, r):
    return S.reg("MAC", S.text("economics.MAC.regional calibration factor"), r)


@eq("M08", "carbonprice", ("R0", "R"))
def _(S, t, r):
    return S.v("learning_factor", t) * _kappa(S, r) * S.cfg("economics.MAC.gamma") * S.v(
        "relative_abatement", t, r) ** S.cfg("economics.MAC.beta")


@rel("M08", "carbonprice_initial", ("R0",))
def _(S, t, r):
    return [S.eq(S.v("carbonprice", t, r), 0)]


@rel("M08", "carbonprice_bounds", ("R0", "R"))
def _(S, t, r):
    p = S.v("carbonprice", t, r)
    return [S.le(0, p), S.le(p, 2 * S.cfg("economics.MAC.gamma"))]


# ----------------------------------------------------------------------------- M09 mitigation costs
@eq("M09", "area_under_MAC", ("R0", "R"))
def _(S, t, r):
    b = S.cfg("economics.MAC.beta")
    ac = S.v("learning_factor", t) * _kappa(S, r) * S.cfg("economics.MAC.gamma") * S.v(
        "relative_abatement", t, r) ** (b + 1) / (b + 1)
    return ac * S.v("baseline", t, r)


@eq("M09", "mitigation_costs", ("R0", "R"))
def _(S, t, r):
    b = S.cfg("economics.MAC.beta")
    ac = S.v("learning_factor", t) * _kappa(S, r) * S.cfg("economics.MAC.gamma") * S.v(
        "relative_abatement", t, r) ** (b + 1) / (b + 1)
    return ac * S.v("baseline", t, r) + S.vp("import_export_mitigation_cost_balance", t, r)


@eq("M09", "rel_mitigation_costs", ("R0", "R"))
def _(S, t, r):
    return S.v("mitigation_costs", t, r) / S.v("GDP_gross", t, r)


@rel("M09", "rel_mitigation_costs_min_level", ("R0", "R"), tags=("policy",))
def _(S, t, r):
    lo = 0 if S.is0(t) else S.cfg("economics.MAC.rel_mitigation_costs_min_level")
    return [S.le(lo, S.v("rel_mitigation_costs", t, r))]


@eq("M09", "global_rel_mitigation_costs", ("G0", "G"))
def _(S, t):
    return S.sum(lambda r: S.v("mitigation_costs", t, r)) / S.sum(lambda r: S.v("GDP_gross", t, r))


@eq("M09", "global_emission_reduction_per_cost_unit", ("G",))
def _(S, t):
    return S.sum(lambda r: S.v("regional_emission_reduction", t, r)) / soft_min(
        S, S.sum(lambda r: S.v("mitigation_costs", t, r)))


@eq("M09", "global_cost_per_emission_reduction_unit", ("G",))
def _(S, t):
    return S.sum(lambda r: S.v("mitigation_costs", t, r)) / soft_min(
        S, S.sum(lambda r: S.v("regional_emission_reduction", t, r)))


# ----------------------------------------------------------------------------- M11 emission trading
def trading(m):
    return m.trade == "emissiontrade"


@eq("M11", "global_carbonprice", ("G0", "G"), when=trading)
def _(S, t):
    return S.sum(lambda r: S.v("carbonprice", t, r) * S.data("population", t, r)) / S.sum(
        lambda r: S.data("population", t, r))


@rel("M11", "trade_balance", ("G0", "G"), when=trading)
def _(S, t):
    return [S.eq(S.sum(lambda r: S.v("import_export_mitigation_cost_balance", t, r)), 0)]


@eq("M11", "import_export_emission_reduction_balance", ("R",), when=trading)
def _(S, t, r):
    return S.v("import_export_mitigation_cost_balance", t, r) / soft_min(S, S.v("global_carbonprice", t))


@eq("M11", "paid_for_emission_reductions", ("R",), when=trading)
def _(S, t, r):
    return S.v("regional_emission_reduction", t, r) + S.v("import_export_emission_reduction_balance", t, r)


@eq("M11", "regional_emission_allowances", ("R",), when=trading)
def _(S, t, r):
    return S.v("baseline", t, r) - S.v("paid_for_emission_reductions", t, r)


def costpool(m):
    return m.trade == "globalcostpool"


@rel("M11", "cost_pool_balance", ("G0", "G"), when=costpool)
def _(S, t):
    return [S.eq(S.sum(lambda r: S.v("import_export_mitigation_cost_balance", t, r)), 0)]


@eq("M11", "paid_for_emission_reductions", ("R",), when=costpool, name="pool_paid_for_emission_reductions")
def _(S, t, r):
    return S.v("mitigation_costs", t, r) * S.v("global_emission_reduction_per_cost_unit", t)


@eq("M11", "import_export_emission_reduction_balance", ("R",), when=costpool, name="pool_emission_reduction_balance")
def _(S, t, r):
    return S.v("paid_for_emission_reductions", t, r) - S.v("regional_emission_reduction", t, r)


@rel("M11", "no_trade", ("R0", "R"), when=lambda m: m.trade == "notrade")
def _(S, t, r):
    return [S.eq(S.vp("import_export_mitigation_cost_balance", t, r), 0),
            S.eq(S.vp("import_export_emission_reduction_balance", t, r), 0)]


# ----------------------------------------------------------------------------- M12 financial transfers
def pool(m):
    return m.transfer == "globaldamagepool"


@rel("M12", "transfer_balance", ("G",), when=pool)
def _(S, t):
    return [S.eq(S.sum(lambda r: S.v("financial_transfer", t, r)), 0)]


@rel("M12", "no_initial_transfer", ("R0",), when=pool)
def _(S, t, r):
    return [S.eq(S.v("financial_transfer", t, r), 0)]


@rel("M12", "received_at_most_own_damages", ("R0", "R"), when=pool)
def _(S, t, r):
    return [S.le(-S.v("damage_costs", t, r) * S.v("GDP_gross", t, r), S.v("financial_transfer", t, r))]


@eq("M12", "rel_financial_transfer", ("R0", "R"), when=pool)
def _(S, t, r):
    return S.v("financial_transfer", t, r) / S.v("GDP_gross", t, r)


@rel("M12", "no_transfer", ("R0", "R"), when=lambda m: m.transfer == "notransfer")
def _(S, t, r):
    return [S.eq(S.vp("financial_transfer", t, r), 0), S.eq(S.vp("rel_financial_transfer", t, r), 0)]


# ----------------------------------------------------------------------------- M13 effort sharing
REGIME = "effort sharing.regime"
PCY = "effort sharing.percapconv_year"


@rel("M13", "equal_mitigation_costs", ("R0", "R"), tags=("policy",))
def _(S, t, r):
    if S.is_(REGIME, "equal_mitigation_costs"):
        x, c = S.v("rel_mitigation_costs", t, r), S.v("effort_sharing_common_level", t)
        return [S.le(x, (1 + 0.005) * c), S.le((1 - 0.005) * c, x)]


@rel("M13", "equal_total_costs", ("R0", "R"), tags=("policy",))
def _(S, t, r):
    if S.is_(REGIME, "equal_total_costs") and S.year(t) <= 2100:
        x = S.v("rel_mitigation_costs", t, r) + S.v("damage_costs", t, r) + S.vp("rel_financial_transfer", t, r)
        c = S.v("effort_sharing_common_level", t)
        return [S.le(x, (1 + 0.005) * c), S.le((1 - 0.005) * c, x)]


@par("M13", "percapconv_share", ("R0", "R"))
def _(S, t, r):
    init = S.data("emissions", S.zero, r) / S.sum(lambda s: S.data("emissions", S.zero, s))
    pop = S.data("population", t, r) / S.sum(lambda s: S.data("population", t, s))
    if not S.on(PCY):
        return init
    y0, yt, yc = S.year(S.zero), S.year(t), S.cfg(PCY)
    if yc <= y0:
        return pop
    if yt >= yc:
        return pop
    x = (yt - y0) / (yc - y0)
    return x * pop + (1 - x) * init


@rel("M13", "per_cap_convergence", ("R",), when=trading, tags=("policy",))
def _(S, t, r):
    if S.is_(REGIME, "per_cap_convergence"):
        d = S.p("percapconv_share", t, r) * S.v("global_emissions", t) - S.v("regional_emission_allowances", t, r)
        return [S.le(d, 0.001), S.le(-d, 0.001)]


# ----------------------------------------------------------------------------- M14 economy
ALPHA, DK, SR = "economics.GDP.alpha", "economics.GDP.depreciation of capital", "economics.GDP.savings rate"


@par("M14", "TFP", ("R0", "R"))
def _(S, t, r):
    al = S.cfg(ALPHA)
    return S.data("GDP", t, r) / (S.data("population", t, r) ** (1 - al) * S.kcal(t, r) ** al)


def kcal_init(S, r):
    """capital stock the scenario GDP accumulates: start"""
    return S.reg("economics", "init_capital_factor", r) * S.data("GDP", S.zero, r)


def kcal_step(S, k, r, prev):
    """... and its step from period k-1 to period k"""
    return prev + S.dt * (((1 - S.cfg(DK)) ** S.dt - 1) / S.dt * prev + S.cfg(SR) * S.data("GDP", k - 1, r))


@eq("M14", "GDP_gross", ("R0", "R"))
def _(S, t, r):
    if S.is0(t):
        return S.data("GDP", t, r)
    al = S.cfg(ALPHA)
    return S.p("TFP", t, r) * S.data("population", t, r) ** (1 - al) * soft_min(
        S, S.v("capital_stock", t, r), 10) ** al


@eq("M14", "GDP_net", ("R0", "R"))
def _(S, t, r):
    d = 0 if S.flag("economics.damages.ignore damages") else S.v("damage_costs", t, r)
    return S.v("GDP_gross", t, r) * (1 - d) - S.v("mitigation_costs", t, r) - S.vp("financial_transfer", t, r)


@eq("M14", "investments", ("R0", "R"))
def _(S, t, r):
    return S.cfg(SR) * S.v("GDP_net", t, r)


@eq("M14", "consumption", ("R0", "R"))
def _(S, t, r):
    return (1 - S.cfg(SR)) * S.v("GDP_net", t, r)


@eq("M14", "capital_stock", ("R0", "R"), tags=("implicit",))
def _(S, t, r):
    if S.is0(t):
        return S.reg("economics", "init_capital_factor", r) * S.data("GDP", t, r)
    K = S.v("capital_stock", t, r)
    return S.v("capital_stock", t - 1, r) + S.dt * (((1 - S.cfg(DK)) ** S.dt - 1) / S.dt * K + S.v("investments", t, r))


# ----------------------------------------------------------------------------- M15 welfare
MU, IA = "economics.elasmu", "economics.inequal_aversion"


def util(S, C, L):
    e = S.cfg(MU)
    return (soft_min(S, C / L) ** (1 - e) - 1) / (1 - e)


@eq("M15", "utility", ("R0", "R"), when=lambda m: m.welfare == "welfare_loss_minimising")
def _(S, t, r):
    return util(S, S.v("consumption", t, r), S.data("population", t, r))


@eq("M15", "yearly_welfare", ("G0", "G"), when=lambda m: m.welfare == "welfare_loss_minimising")
def _(S, t):
    return S.sum(lambda r: S.data("population", t, r) * S.v("utility", t, r))


@eq("M15", "utility", ("R0", "R"), when=lambda m: m.welfare == "cost_minimising")
def _(S, t, r):
    return S.v("consumption", t, r) / S.data("population", t, r)


@eq("M15", "yearly_welfare", ("G0", "G"), when=lambda m: m.welfare == "cost_minimising")
def _(S, t):
    L = S.sum(lambda r: S.data("population", t, r))
    return L * util(S, S.sum(lambda r: S.v("consumption", t, r)), L)


@eq("M15", "utility", ("R0", "R"), when=lambda m: m.welfare == "inequal_aversion_general")
def _(S, t, r):
    L = S.data("population", t, r)
    return L * soft_min(S, S.v("consumption", t, r) / L) ** (1 - S.cfg(IA))


@eq("M15", "yearly_welfare", ("G0", "G"), when=lambda m: m.welfare == "inequal_aversion_general")
def _(S, t):
    L, e, ia = S.sum(lambda r: S.data("population", t, r)), S.cfg(MU), S.cfg(IA)
    return L * (soft_min(S, S.sum(lambda r: S.v("utility", t, r)) / L) ** ((1 - e) / (1 - ia)) / (1 - e))


# ----------------------------------------------------------------------------- M16 objective
@eq("M16", "NPV", ("G0", "G"))
def _(S, t):
    if S.is0(t):
        return 0
    if S.mods.objective == "utility":
        w = S.v("yearly_welfare", t)
    else:
        w = S.sum(lambda r: S.v("mitigation_costs", t, r)) + S.sum(
            lambda r: S.v("damage_costs", t, r) * S.v("GDP_gross", t, r))
    return S.v("NPV", t - 1) + S.dt * S.exp(-S.cfg("economics.PRTP") * (S.year(t) - S.year(S.zero))) * w


# owner of a decision variable (an extra restriction on it violates the owner's property)
OWNER = {l.var: l.prop for l in LAWS if l.var}
OWNER.update({"relative_abatement": "M01", "import_export_mitigation_cost_balance": "M11",
              "import_export_emission_reduction_balance": "M11", "paid_for_emission_reductions": "M11",
              "regional_emission_allowances": "M11", "financial_transfer": "M12", "rel_financial_transfer": "M12",
              "effort_sharing_common_level": "M13"})
ORDER = ["M02", "M01", "M03", "M06", "M07", "M10", "M08", "M09", "M11", "M12", "M14", "M13", "M15", "M16"]
