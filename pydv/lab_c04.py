"""C04 on the real code: random magnitudes, spellings of units and targets against an independent table of units"""
from fractions import Fraction

from reallab import lab, silent, load

UX = load("unitexpr")
PRE = {"": 0, "k": 3, "M": 6, "G": 9, "T": 12, "kilo": 3, "mega": 6, "giga": 9, "tera": 12}
NUMS = {"trillion": 10 ** 12, "billion": 10 ** 9, "million": 10 ** 6, "thousand": 10 ** 3}
BASE = {"USD2005": (1, "USD2005"), "USD": (1, "USD2005"), "USD2010": (Fraction(111, 100), "USD2005"), "people": (1, "people"), "yr": (1, "yr"),
        "m": (1, "m"), "km": (1000, "m"), "cm": (Fraction(1, 100), "m"), "mm": (Fraction(1, 1000), "m"), "delta_degC": (1, "K"), "kelvin": (1, "K"),
        "K": (1, "K"), "dimensionless": (1, None), "fraction_of_GDP": (1, None), "percent": (Fraction(1, 100), None)}
for p, e in PRE.items():
    if len(p) <= 1:
        BASE[p + "tCO2"] = (10 ** e, "tCO2")
GROUPS = [["tCO2", "ktCO2", "MtCO2", "GtCO2", "TtCO2", "emissions_unit", "t CO2"],
          ["USD2005", "USD", "USD2010", "US$", "US$2005"],
          ["people"], ["yr", "year"], ["delta_degC", "kelvin", "temperature_unit"], ["m", "km", "cm"]]


def value_of(text, aliases):
    """factor and dimensions of a unit text"""
    f, us = UX.units_of(text.replace("US$", "USD").replace("t CO2", "tCO2"), aliases)
    dims = {}
    for u, e in us.items():
        if u in NUMS:
            f *= Fraction(NUMS[u]) ** e
            continue
        g, d = BASE[u]
        f *= Fraction(g) ** e
        if d is not None:
            dims[d] = dims.get(d, 0) + e
    return f, {k: e for k, e in dims.items() if e}


def spell(r, dims, alias, source):
    """a random unit text of these dimensions"""
    groups = {"tCO2": 0, "USD2005": 1, "people": 2, "yr": 3, "K": 4, "m": 5}
    top, bot = [], []
    for d, e in dims.items():
        g = [x for x in GROUPS[groups[d]] if not (source and x.endswith("_unit"))]
        for _ in range(abs(e)):
            (top if e > 0 else bot).append(r.choice(g))
    if r.random() < 0.4:
        (top if top else bot).insert(0, r.choice(list(NUMS)))
    if not top:
        text = "1"
    else:
        text = r.choice(["*", " * "]).join(top)
    for b in bot:
        text += r.choice(["/", " / "]) + (f"({b})" if r.random() < 0.3 else b)
    return text


COMPOUND = ["currency_unit", "emissionsrate_unit", "emissions_unit", "temperature_unit", "population_unit", "currency_unit/emissionsrate_unit",
            "currency_unit/emissions_unit", "(temperature_unit)/(emissions_unit)", "emissionsrate_unit / currency_unit", "currency_unit / emissionsrate_unit",
            "emissionsrate_unit/population_unit", "1/emissions_unit", "1/currency_unit/emissions_unit", "m/emissionsrate_unit", "USD/(emissionsrate_unit*yr)",
            "emissionsrate_unit*yr", "emissions_unit**2", "m/currency_unit", "temperature_unit/emissions_unit/emissionsrate_unit", "dimensionless", "USD2005/yr"]


@lab("C04")
def conversions(job, res):
    import warnings
    with silent():
        import numpy as np
        from mimosa.common import quant
        aliases = {k: str(v) for k, v in quant.default_units.items()}
    r = res.rng
    n = 0

    def call(*a, **k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return ("ok", quant(*a, **k))
        except Exception as e:
            return ("error", type(e).__name__ + ": " + str(e)[:120])

    def close(a, b):
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    while n < (4000 if res.quick else 60000) and res.left() > 0.5:
        n += 1
        target = r.choice(COMPOUND) if r.random() < 0.7 else None
        dims = value_of(target, aliases)[1] if target else {d: r.choice([1, 1, -1, 2]) for d in r.sample(["tCO2", "USD2005", "people", "yr", "K", "m"], 2)}
        target = target or spell(r, dims, aliases, False)
        src = spell(r, dims, aliases, True)
        v = r.choice([0, 1, -3, 20, 2601, 0.62, 1.5e-7, -2.25, 1e6, r.uniform(-1e3, 1e3)])
        fs, ft = value_of(src, aliases), value_of(target, aliases)
        if "K" in dims and any(x in src for x in ("delta_degC",)) and len(dims) > 1 and False:
            continue
        want = float(Fraction(v) * fs[0] / ft[0])
        mode = r.random()
        if fs[1] != ft[1]:
            continue
        if mode < 0.45:
            if src == "1" or src.startswith("1/") or src.startswith("1 "):
                text = f"{v}{src[1:]}"
            else:
                text = f"{v} {src}"
            if dims == {}:
                text = str(v)
                want = float(v) / float(ft[0])
            args = (text, target)
            got = call(*args)
        elif mode < 0.7:
            args = (v, src, target)
            got = call(*args)
        elif mode < 0.85:
            arr = np.array([v, 2.0 * v, 0.0, v - 1.0])
            args = (arr, src, target)
            got = call(*args)
            res.ran()
            ws = [float(Fraction(float(x)) * fs[0] / ft[0]) for x in arr]
            if got[0] != "ok" or np.shape(got[1]) != (4,) or not all(close(float(a), b) for a, b in zip(got[1], ws)):
                res.finding(f"quant({arr!r}, {src!r}, {target!r}) = {got[1]!r}, expected {ws}", args=repr(args))
            if arr[0] != v:
                res.finding(f"quant changes the array it is given ({src!r} to {target!r})")
            continue
        else:
            args = (v, src, target)
            got = call(*args, only_magnitude=False)
            res.ran()
            ok = got[0] == "ok" and hasattr(got[1], "units")
            if ok:
                try:
                    m = got[1].magnitude
                    back = quant(m, str(got[1].units), target)
                    ok = close(float(m), want) and close(float(back), want)
                except Exception:
                    ok = close(float(got[1].magnitude), want)
            if not ok:
                res.finding(f"quant{args!r} with its unit is {got[1]!r}, expected magnitude {want}", args=repr(args))
            continue
        res.ran(1, {"args": repr(args)[:120]})
        if got[0] != "ok" or not close(float(got[1]), want):
            res.finding(f"quant{args!r} = {got[1]!r}, expected {want}", args=repr(args))
        # a unit of another dimension
        if n % 4 == 0:
            bad = {**dims, "m": dims.get("m", 0) + 3}
            f = spell(r, {k: e for k, e in bad.items() if e}, aliases, True)
            for args in ((f"2 {f}" if not f.startswith("1") else f, target), (2.0, f, target)):
                got = call(*args)
                res.ran()
                if got[0] == "ok":
                    res.finding(f"quant{args!r} = {got[1]!r} although the dimensions differ", args=repr(args))
    for t in COMPOUND:
        for args in ((False, t), (False, "m", t)):
            got = call(*args)
            res.ran()
            if got != ("ok", False):
                res.finding(f"quant{args!r} = {got[1]!r}: a quantity that is switched off must stay off", args=repr(args))
        for z in (0, 0.0):
            got = call(z, "dimensionless" if t == "dimensionless" else spell(r, value_of(t, aliases)[1], aliases, True), t)
            if got[0] != "ok" or got[1] is False or float(got[1]) != 0.0:
                res.finding(f"zero in {t} becomes {got[1]!r}")
        got = call(False, t, can_be_false=False)
        if got[0] == "ok" and got[1] is False:
            res.finding(f"quant(False, {t!r}, can_be_false=False) is switched off")


@lab("C04")
def unit_objects(job, res):
    with silent():
        from mimosa.common import quant
        aliases = {k: str(v) for k, v in quant.default_units.items()}
        reg = quant._pint_registry
    for t in COMPOUND:
        want = value_of(t, aliases)
        for k in ({}, {"pyomo": False}):
            try:
                with silent():
                    x = quant.unit(t, **k)
                    x = x if k else x._get_pint_unit()
                    q = reg.Quantity(1.0, x).to_root_units()
                    ref = reg.Quantity(1.0, "dimensionless")
                    for d, e in want[1].items():
                        ref = ref * reg.Quantity(1.0, {"K": "delta_degC"}.get(d, d)) ** e
                    ratio = (q / ref.to_root_units()).to("dimensionless").magnitude
            except Exception as e:
                if "pyomo" in k and k["pyomo"] is False or "unit" in type(e).__name__.lower():
                    res.finding(f"quant.unit({t!r}) fails: {type(e).__name__}: {e}", unit=t)
                continue
            res.ran()
            if abs(ratio - float(want[0])) > 1e-9 * abs(ratio):
                res.finding(f"quant.unit({t!r}) is {ratio} of its base units instead of {float(want[0])}", unit=t)
