"""M17 on the real code: sampled arguments, scales and caps, and argument types"""
import math

from reallab import lab, silent


@lab("M17")
def smooth(job, res):
    with silent():
        import numpy as np
        import pandas as pd
        import pyomo.environ as pe
        from mimosa.common import pyomo_utils as pu
    rng = res.rng
    scales = [1e-3, 0.01, 0.1, 1.0, 2.5, 10.0, 1e3, 1e5]
    base = [0.0] + [sg * 10 ** k for k in range(-6, 7) for sg in (-1, 1)] + [0.5, -0.5, 2, -3, 1500.0, -1500.0]
    pts = [(x, s) for s in scales for x in base]
    for h in job.get("hints", []):
        try:
            pts.insert(0, (float(h["x"]), float(h["scale"])))
        except Exception:
            pass
    pts += [(rng.uniform(-5, 5) * s, s) for s in scales for _ in range(40)]
    m = pe.ConcreteModel()
    m.v = pe.Var()
    m.w = pe.Var([1, 2])

    def get(f, *a):
        try:
            with silent():
                v = f(*a)
            return v
        except Exception as e:
            return e

    for x, s in pts:
        if res.left() < 0:
            break
        res.ran(1, {"x": x, "scale": s})
        a = 25.0 / s
        sw, mn = get(pu.soft_switch, x, s), get(pu.soft_min, x, s)
        for n, v in (("soft_switch", sw), ("soft_min", mn)):
            if isinstance(v, Exception) or v != v:
                res.finding(f"{n}({x!r}, {s!r}) gives {v!r}", x=x, scale=s)
                return
        err = s / (25 * math.pi)
        tol = 1e-9 * max(abs(x), s)
        true_sw = math.atan(a * x) / math.pi + 0.5
        if not (-1e-12 <= sw <= 1 + 1e-12) or (abs(a * x) < 1e6 and not 0 < sw < 1):
            res.finding(f"soft_switch({x!r}, {s!r}) = {sw!r} is not strictly between 0 and 1", x=x, scale=s)
        if x == 0 and abs(sw - 0.5) > 1e-12:
            res.finding(f"soft_switch(0, {s!r}) = {sw!r} is not 1/2", x=x, scale=s)
        up = 1 / (math.pi * abs(a * x)) if x else 0.5
        if x > 0 and 1 - sw > up + 1e-9 or x < 0 and sw > up + 1e-9:
            res.finding(f"soft_switch({x!r}, {s!r}) = {sw!r} is too far from the step", x=x, scale=s)
        d = mn - max(x, 0)
        if d < -tol or d > err + tol or (abs(a * x) < 1e3 and mn <= 0):
            res.finding(f"soft_min({x!r}, {s!r}) = {mn!r}: not positive or not within scale/(25 pi) above max(x, 0)", x=x, scale=s)
        if abs(a * x) > 1e-3 and d > err / (1 + (a * x) ** 2) + tol:
            res.finding(f"soft_min({x!r}, {s!r}) = {mn!r} does not approach max(x, 0)", x=x, scale=s)
        c = rng.choice([0.0, 0.7, 3.0, -2.0, 100.0])
        mx = get(pu.soft_max, x, c, s)
        want = get(pu.soft_min, c - x, s)
        if isinstance(mx, Exception) or isinstance(want, Exception) or abs(mx - (c - want)) > 1e-9 * (1 + abs(x) + abs(c) + s):
            res.finding(f"soft_max({x!r}, {c!r}, {s!r}) = {mx!r}, expected {c!r} - soft_min = {want!r}", x=x, scale=s, cap=c)
        # other types
        for n, f, ref in (("soft_switch", lambda z: pu.soft_switch(z, s), sw), ("soft_min", lambda z: pu.soft_min(z, s), mn),
                          ("soft_max", lambda z: pu.soft_max(z, c, s), mx)):
            if isinstance(ref, Exception):
                continue
            for tn, z, out in (("array", np.array([x, x]), lambda r: float(r[1])), ("Series", pd.Series([x, x]), lambda r: float(r[1])),
                               ("DataFrame", pd.DataFrame({"a": [x, x]}), lambda r: float(r["a"][1])),
                               ("float64", np.float64(x), float),
                               ("variable", m.v, pe.value), ("expression", 2 * m.v - m.v, pe.value),
                               ("indexed variable", m.w[1], pe.value)) + ((
                               ("int", int(x), float), ("integer array", np.array([int(x), int(x)]), lambda r: float(r[1])),
                               ("matrix", np.array([[x, 1.0], [x, x]]), lambda r: float(r[1][0])),
                               ("integer Series", pd.Series([int(x), int(x)]), lambda r: float(r[1]))) if x == int(x) else ()):
                m.v.set_value(x)
                m.w[1].set_value(x)
                r = get(f, z)
                try:
                    r = out(r)
                except Exception as e:
                    r = e if not isinstance(r, Exception) else r
                if isinstance(r, Exception) or abs(r - ref) > 1e-9 * (1 + abs(ref)):
                    res.finding(f"{n} of the {tn} {x!r} (scale {s!r}) is {r!r}, of the number {ref!r}", x=x, scale=s)
                    return
    for s in scales:
        xs = sorted(rng.uniform(-20, 20) * s / 25 for _ in range(60)) + [30 * s, 300 * s]
        for n, f in (("soft_switch", pu.soft_switch), ("soft_min", pu.soft_min)):
            v = [f(x, s) for x in xs]
            res.ran(len(xs))
            for i in range(1, len(v)):
                if v[i] < v[i - 1] - 1e-12 * (1 + abs(v[i])):
                    res.finding(f"{n} decreases from {xs[i-1]!r} to {xs[i]!r} at scale {s!r}", x=xs[i], scale=s)
                    break
        if pu.soft_min(0.3) != pu.soft_min(0.3, 1.0) or pu.soft_switch(0.3) != pu.soft_switch(0.3, 1.0) or \
                pu.soft_max(0.3, 0.5) != pu.soft_max(0.3, 0.5, 1.0):
            res.finding("the default scale is not 1")
