"""C06 on the real code: the periods of real models of random horizons"""
import math
from fractions import Fraction

from reallab import lab, silent


@lab("C06")
def grids(job, res):
    with silent():
        import mimosa.mimosa as mm
        from pyomo.environ import value

    class M(mm.MIMOSA):
        def preprocessing(self):
            pass
    r = res.rng
    fixed = [(2020, 2150, 5), (2020, 2101, 5), (2020, 2099, 20), (2020, 2021, 20), (2015, 2300, 20), (2020, 2023, 0.5), (2030, 2030, 5), (2020, 2100, 7.5),
             (2020, 2119.0, 9), (2100, 2101, 1), (2010, 2300, 17), (2020, 2260, 10), (2019, 2207, 4.25), (2020, 2209, 10), (2020, 2201, 13), (2090, 2300, 15)]
    n = 0
    while res.left() > 0.4 and n < (40 if res.quick else 4000):
        if n < len(fixed):
            st, end, dt = fixed[n]
        else:
            st = r.choice([2010, 2015, 2020, 2020, 2033, 2050, 2099, 2100])
            dt = r.choice([0.5, 1, 2, 2.5, 3, 5, 6, 7, 8.75, 10, 12, 15, 20, round(r.uniform(0.5, 20), 3)])
            hi = min(2300, st + 40 * dt)
            end = r.randint(min(st + 1, 2299), int(max(hi, st + 2)))
        n += 1
        regions = ["USA"] if n % 3 else ["INDIA", "USA"]
        u = {"time": {"start": st, "end": int(end), "dt": dt}, "regions": {x: {} for x in regions},
             "model": {"damage module": "nodamage" if n % 4 else "COACCH"}}
        try:
            with silent():
                m = M(u).concrete_model
        except Exception as e:
            res.finding(f"a model from {st} to {end} in steps of {dt} cannot be built: {type(e).__name__}: {str(e)[:300]}", config=u)
            continue
        res.ran(1, u["time"])
        q = (Fraction(int(end)) - st) / Fraction(dt)
        k = math.ceil(q)
        allowed = {k} | {x for x in (k - 1, k + 1) if x >= 0 and abs(q - min(x, k)) < Fraction(1, 10 ** 9)}
        ts = list(m.t)
        what = f"{st} to {end} in steps of {dt}"
        N = len(ts) - 1
        if ts != list(range(N + 1)) or N not in allowed:
            res.finding(f"{what}: the periods are {ts[:3]}..{ts[-1:]} ({len(ts)} of them), expected 0..{k}", config=u)
            continue
        if value(m.tf) != N:
            res.finding(f"{what}: the final period is {value(m.tf)}, expected {N}", config=u)
        if abs(value(m.beginyear) - st) > 1e-9 or abs(value(m.dt) - dt) > 1e-12:
            res.finding(f"{what}: first year {value(m.beginyear)}, step {value(m.dt)}", config=u)
        for t in ts:
            if abs(value(m.year(t)) - (st + t * dt)) > 1e-6:
                res.finding(f"{what}: period {t} is in year {value(m.year(t))}, expected {st + t * dt}", config=u)
                break
        if sorted(m.regions) != sorted(regions):
            res.finding(f"{what}: regions {list(m.regions)}, expected {regions}", config=u)
        for name in ("population", "baseline_GDP", "baseline_emissions"):
            c = m.component(name)
            if c is None:
                continue
            bad = [(t, x) for t in ts for x in regions if (t, x) not in c or c[t, x] is None or not math.isfinite(value(c[t, x]))]
            if bad:
                res.finding(f"{what}: {name} has no value for {bad[:3]}", config=u)
