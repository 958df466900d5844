"""What the parameters of a model ought to be, computed from the documents alone (template, tables, scenario files, unit definitions):
an independent reading used by the bounded runs of C05 to C08.  Never imports the package under test."""
import csv
import math
import os
from fractions import Fraction

import yaml

_yaml, _csv = {}, {}


def load_yaml(path):
    if path not in _yaml:
        with open(path) as f:
            _yaml[path] = yaml.safe_load(f)
    return _yaml[path]


def read_csv(path):
    if path not in _csv:
        with open(path, newline="", encoding="utf-8-sig") as f:
            _csv[path] = list(csv.DictReader(f))
    return _csv[path]


def number(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def spline(xs, ys):
    """cubic spline with not-a-knot ends: second derivatives by Gaussian elimination"""
    n = len(xs)
    h = [xs[i + 1] - xs[i] for i in range(n - 1)]
    A = [[0.0] * n for _ in range(n)]
    b = [0.0] * n
    for i in range(1, n - 1):
        A[i][i - 1], A[i][i], A[i][i + 1] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
        b[i] = 6 * ((ys[i + 1] - ys[i]) / h[i] - (ys[i] - ys[i - 1]) / h[i - 1])
    A[0][0], A[0][1], A[0][2] = h[1], -(h[0] + h[1]), h[0]
    A[-1][-3], A[-1][-2], A[-1][-1] = h[-1], -(h[-2] + h[-1]), h[-2]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(A[r][i]))
        A[i], A[p], b[i], b[p] = A[p], A[i], b[p], b[i]
        for r in range(i + 1, n):
            f = A[r][i] / A[i][i]
            if f:
                for c in range(i, n):
                    A[r][c] -= f * A[i][c]
                b[r] -= f * b[i]
    m = [0.0] * n
    for i in range(n - 1, -1, -1):
        m[i] = (b[i] - sum(A[i][c] * m[c] for c in range(i + 1, n))) / A[i][i]

    def f(x):
        i = max(0, min(n - 2, next((k for k in range(n - 1) if x <= xs[k + 1]), n - 2)))
        t, d = x - xs[i], xs[i + 1] - x
        return (m[i] * d ** 3 + m[i + 1] * t ** 3) / (6 * h[i]) + (ys[i] / h[i] - m[i] * h[i] / 6) * d + (ys[i + 1] / h[i] - m[i + 1] * h[i] / 6) * t
    return f


class Truth:
    def __init__(self, repo, user, value_of):
        """user: configuration with values only; value_of(unit text, aliases) -> (factor, dimensions)"""
        self.repo, self.user, self.value_of = repo, user, value_of
        self.template = load_yaml(os.path.join(repo, "mimosa/inputdata/config/config_default.yaml"))
        self.aliases = load_yaml(os.path.join(repo, "mimosa/inputdata/config/default_units.yaml"))

    # configuration -----------------------------------------------------------------------------------------------
    def node(self, path):
        n = self.template
        for k in path:
            n = n[k]
        return n

    def raw(self, path):
        v = self.user
        for k in path:
            if not isinstance(v, dict) or k not in v:
                return self.node(path)["default"]
            v = v[k]
        return v

    def config(self, text):
        """value of the parameter a.b.c in the model's units"""
        path = tuple(text.split("."))
        node, v = self.node(path), self.raw(path)
        if node["type"] == "quantity" and v is not False:
            return self.quantity(str(v), node["unit"])
        return v

    def quantity(self, text, target):
        num, _, unit = text.partition(" ")
        unit = unit.strip()
        fs = self.value_of(unit, self.aliases)[0] if unit else 1
        return float(Fraction(num) * fs / self.value_of(target, self.aliases)[0])

    def regions(self):
        return list(self.raw(("regions",)))

    # regional tables ----------------------------------------------------------------------------------------------
    def file(self, name):
        return name if os.path.isabs(name) else os.path.join(self.repo, "mimosa", name)

    def table(self, category):
        """{region: {column: text}} of the category's file, and whether each column is numeric"""
        info = self.raw(("regional_parameter_files",))[category]
        rows = read_csv(self.file(info["filename"]))
        cols = [c for c in rows[0] if c != "region"]
        numeric = {c: all(r[c] in ("", None) or number(r[c]) is not None for r in rows) for c in cols}
        return info["regionstype"], rows, numeric

    def regional(self, category, name, region):
        own = (self.raw(("regions",)).get(region) or {})
        own = own.get(category) if isinstance(own, dict) else None
        if isinstance(own, dict) and name in own:
            return own[name]
        kind, rows, numeric = self.table(category)
        want = self.raw(("regionstype",))
        if kind == want:
            hits = [r[name] for r in rows if r["region"] == region]
            x = hits[0]
            return number(x) if number(x) is not None else (math.nan if x == "" else x)
        for m in self.raw(("regionsmappings",)):
            if {m["regionstype1"], m["regionstype2"]} == {kind, want}:
                mp = read_csv(self.file(m["conversiontable"]))
                src = [r[kind] for r in mp if r[want] == region]
        xs = [r[name] for s in src for r in rows if r["region"] == s and r[name] not in ("", None)]
        if not xs:
            return math.nan
        if numeric[name]:
            return sum(float(x) for x in xs) / len(xs)
        return xs[0]

    # scenario data ------------------------------------------------------------------------------------------------
    def source(self, variable):
        d = dict(self.template["input"]["variables"][variable]["default"])
        d.update(((self.user.get("input") or {}).get("variables") or {}).get(variable) or {})
        ssp = self.raw(("SSP",))
        return {k: v.replace("{SSP}", ssp) if isinstance(v, str) else v for k, v in d.items()}

    def series(self, variable, region):
        """years and values of the file in the model's unit"""
        d = self.source(variable)
        reg = region[:-1] if region.endswith("#") else region
        low = [{k.lower(): v for k, v in r.items()} for r in read_csv(self.file(d["file"]))]
        rows = [r for r in low if r["model"] == d["model"] and r["scenario"] == d["scenario"] and r["region"] == reg
                and r["variable"] == d["variable"]]
        if len(rows) != 1:
            raise LookupError(f"{len(rows)} rows")
        (r,) = rows
        years = sorted(int(k) for k in r if k.isdigit() and int(k) >= 2010)
        f = Fraction(1)
        if "unit" in d:
            f = Fraction(self.value_of(r["unit"], self.aliases)[0]) / Fraction(self.value_of(d["unit"], self.aliases)[0])
        return years, [float(Fraction(float(r[str(y)])) * f) for y in years]

    def extended(self, variable, region, last):
        """with the growth per year fading linearly to zero fifty years after 2100, in steps of ten years"""
        ys, vs = self.series(variable, region)
        g = (vs[-1] - vs[-2]) / (ys[-1] - ys[-2])
        ys, vs = list(map(float, ys)), list(vs)
        t = 2110
        while t < max(2260, last + 10):
            vs.append(vs[-1] + g * max(0.0, 1 - (ys[-1] - 2100) / 50) * (t - ys[-1]))
            ys.append(float(t))
            t += 10
        return ys, vs

    def data(self, variable, region, years):
        """values in these years"""
        tm = [self.raw(("time", k)) for k in ("start", "end", "dt")]
        n = math.ceil((tm[1] + 50 - tm[0]) / tm[2]) - 1
        f = spline(*self.extended(variable, region, tm[0] + n * tm[2]))
        return [f(y) for y in years]
