"""C01 on the real code: every parameter of the shipped template and random declarations against values of every kind"""
import copy
import math

from reallab import lab, silent

INF = float("inf")
FALSY = (False, "False", "false", "no")


class Odd:
    def __repr__(self):
        return "Odd()"


ODD = Odd()
POOL = [None, True, False, 0, 1, -1, 2, 5, 2020, 2100, 2101, 10 ** 6, 0.0, -0.0, 0.5, 1.0, 1.5, 0.3, 19.999, 20.0, 20.001, -0.001, 1e-9,
        1e308, float("nan"), INF, -INF, "", " ", "0", "1", "0.5", "1e3", " 3 ", "nan", "inf", "-inf", "-Infinity", "3,5", "1_0",
        "False", "false", "no", "FALSE", "True", "true", "yes", "None", "none", "off", "abc", "SSP1", "SSP2", "ssp2", "SSP9", [],
        {}, [1], ["a", 2], {"a": 1}, {"x": {"y": 2}}, [[1], [2]], (1, 2), ODD, b"1", 3 + 0j,
        "20 GtCO2", "1000 MtCO2", "5 US$/tCO2", "1 %", "3 %/yr", "1.5 delta_degC", "0.5 degC", "600 GtCO2", "10 parsecfoo", "10 /", "* 3"]


def conv(f, v):
    try:
        return ("ok", f(v))
    except Exception:
        return ("error",)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or a == b


def falsy(v):
    return isinstance(v, (bool, str)) and v in FALSY


def oracle(node, v, quant):
    ty = node["type"]
    if node.get("can_be_false", False) and falsy(v):
        return ("ok", False)
    if ty in ("float", "int"):
        r = conv(float if ty == "float" else int, v)
        if r[0] == "ok" and not (node.get("min", -INF) <= r[1] <= node.get("max", INF)):
            return ("error",)
        return r
    if ty in ("str", "filepath"):
        return ("ok", str(v))
    if ty == "str_or_plain_dict":
        return ("ok", v if isinstance(v, dict) else str(v))
    if ty == "bool":
        try:
            if v in (1, "True", "true", "yes"):
                return ("ok", True)
            if v in (0, "False", "false", "no"):
                return ("ok", False)
        except Exception:
            pass
        return ("error",)
    if ty == "enum":
        return ("ok", v) if any(v == x for x in node["values"]) else ("error",)
    if ty == "quantity":
        r = conv(lambda x: quant(str(x), node["unit"]), v)
        return ("ok", v) if r[0] == "ok" else r
    if ty == "list":
        if v is None:
            return ("ok", [])
        if not isinstance(v, list):
            return ("error",)
        out = [oracle(node["values"], x, quant) if "values" in node else ("ok", x) for x in v]
        return ("error",) if any(x[0] != "ok" for x in out) else ("ok", [x[1] for x in out])
    if ty in ("dict", "datasource"):
        if v is None and ty == "dict":
            return ("ok", {})
        if not isinstance(v, dict):
            return ("error",)
        out = {}
        for k, x in v.items():
            a = oracle(node["keys"], k, quant) if "keys" in node else ("ok", k)
            b = oracle(node["values"], x, quant) if "values" in node else ("ok", x)
            if a[0] != "ok" or b[0] != "ok":
                return ("error",)
            try:
                out[a[1]] = b[1]
            except TypeError:
                return ("error",)
        if ty == "datasource" and any(k not in out for k in ("variable", "unit", "scenario", "model", "file")):
            return ("error",)
        return ("ok", out)
    return None


def leaves(tpl, path=()):
    for k, n in tpl.items():
        if not isinstance(n, dict) or "type" in n:
            yield path + (k,), n
        else:
            yield from leaves(n, path + (k,))


def nest(path, v):
    for k in reversed(path):
        v = {k: v}
    return v


def dig(d, path):
    for k in path:
        d = d[k]
    return d


def judge(res, node, v, got, where):
    quantv = oracle(node, v, judge.quant)
    if quantv is None:
        return
    res.ran(1, {"declaration": str(node)[:120], "value": repr(v)[:60]})
    if got[0] == "ok" and quantv[0] != "ok":
        res.finding(f"{where}: value {v!r} is accepted (as {got[1]!r}) although its declaration {short(node)} does not allow it",
                    node=str(node), value=repr(v))
    elif got[0] != "ok" and quantv[0] == "ok":
        res.finding(f"{where}: value {v!r} is rejected ({got[1]}) although its declaration {short(node)} allows it",
                    node=str(node), value=repr(v))
    elif got[0] == "ok" and not same(got[1], quantv[1]):
        res.finding(f"{where}: value {v!r} becomes {got[1]!r} instead of {quantv[1]!r} ({short(node)})", node=str(node), value=repr(v))


def short(node):
    return {k: v for k, v in node.items() if k != "descr"}


def call(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("error", f"{type(e).__name__}: {str(e).strip()[:120]}")


def setup():
    with silent():
        from mimosa.common.config import parseconfig as pc
        from mimosa.common.config.utils import PARSER_FACTORY
        from mimosa.common import quant
    ureg = quant._pint_registry
    aliases = dict(quant.default_units)

    def q(text, unit):
        """independent conversion by the unit registry"""
        for a, b in aliases.items():
            unit = unit.replace(a, f"({b})")
        fix = lambda x: x.replace("US$", "USD").replace("t CO2", "tCO2")   # noqa: E731
        return ureg.Quantity(fix(text)).to(fix(unit).replace("year", "yr")).magnitude
    judge.quant = q
    return pc, PARSER_FACTORY, quant


@lab("C01")
def template(job, res):
    pc, F, quant = setup()
    tpl = pc.load_default_yaml()
    ls = list(leaves(tpl))
    base = call(lambda: pc.check_params({}))
    if base[0] != "ok":
        res.finding(f"the shipped defaults are rejected: {base[1]}")
        return
    for path, node in ls:
        r = call(lambda: dig(base[1], path))
        judge(res, node, node.get("default"), r, f"default of {' - '.join(path)}")
    # every declaration against every value, through the parser made from the declaration
    for path, node in ls:
        p = call(lambda: F.create_parser(node, quant))
        if p[0] != "ok":
            res.finding(f"no parser for {' - '.join(path)}: {p[1]}")
            continue
        pool = list(POOL) + special(node)
        for v in pool:
            v = copy.deepcopy(v) if isinstance(v, (dict, list)) else v
            judge(res, node, v, call(lambda: p[1].parse(v)), " - ".join(path))
        if res.left() < 1.5:
            res["notes"].append("time limit in the template")
            break
    # a sample through check_params: the value lands at its own path, everything else keeps its default
    with silent():
        for n in range(30 if res.quick else 400):
            if res.left() < 0.5:
                break
            path, node = res.rng.choice(ls)
            v = res.rng.choice(POOL + special(node))
            if isinstance(v, Odd):
                continue
            if isinstance(v, dict) and node["type"] not in ("dict", "datasource"):
                continue            # nested keys: C02
            user = nest(path, v)
            got = call(lambda: pc.check_params(copy.deepcopy(user)))
            judge(res, node, v, ("ok", dig(got[1], path)) if got[0] == "ok" else got, "check_params " + " - ".join(path))
            if got[0] == "ok":
                for p2, n2 in ls:
                    if p2 != path and not same(dig(got[1], p2), dig(base[1], p2)):
                        res.finding(f"setting {path} changes {p2} to {dig(got[1], p2)!r}")


def special(node):
    out = []
    for k in ("min", "max"):
        if isinstance(node.get(k), (int, float)):
            b = node[k]
            out += [b, float(b), str(b), math.nextafter(b, INF), math.nextafter(b, -INF), b + 1, b - 1]
    if "values" in node and isinstance(node["values"], list):
        out += [x for x in node["values"]] + [str(x) for x in node["values"]] + [str(x) + " " for x in node["values"][:2]]
    d = node.get("default")
    out.append(d)
    if isinstance(d, dict):
        for k in list(d)[:6]:
            e = dict(d)
            e.pop(k)
            out.append(e)
        out.append(dict(d, extra=1))
    if isinstance(d, list):
        out += [d + d[:1], d[:1], d + [None]]
    if node["type"] == "quantity":
        out += [str(d).replace(" ", "  "), f"{d}", f"-{d}", str(d) + " m", str(d).split(" ")[0], f"1e-3 {node['unit']}",
                f"2 * {node['unit']}", f"7 {node['unit']}/s"]
    return out


@lab("C01")
def declarations(job, res):
    """random declarations of every type, with and without bounds, switch and element parsers"""
    pc, F, quant = setup()
    r = res.rng
    n = 0
    while n < (2500 if res.quick else 40000) and res.left() > 0.2:
        n += 1
        node = declaration(r, 0)
        p = call(lambda: F.create_parser(node, quant))
        if p[0] != "ok":
            res.finding(f"no parser for {short(node)}: {p[1]}")
            continue
        for v in r.sample(POOL, 6) + [value_for(r, node)]:
            v = copy.deepcopy(v) if isinstance(v, (dict, list)) else v
            judge(res, node, v, call(lambda: p[1].parse(v)), "declaration")
        if r.random() < 0.3:
            keys = [r.choice("abc") for _ in range(r.randint(1, 3))]
            v = r.choice([x for x in POOL if not isinstance(x, dict)])
            user, present = {}, r.random() < 0.6
            if present:
                user = nest(keys, v)
            elif len(keys) > 1 and r.random() < 0.5:
                user = nest(keys[:-1], {"other": 1})
            node["default"] = r.choice([1, "x", None, 0, "2"]) if node["type"] != "enum" else node["default"]
            p = call(lambda: F.create_parser(node, quant))
            if p[0] == "ok":
                judge(res, node, v if present else node["default"], call(lambda: p[1].get(user, keys)), "get " + ("user value" if present else "default"))


def declaration(r, depth):
    ty = r.choice(["float", "int", "bool", "str", "enum", "quantity", "list", "dict", "datasource", "filepath", "str_or_plain_dict"])
    node = {"type": ty, "descr": "d"}
    if r.random() < 0.5:
        node["can_be_false"] = r.random() < 0.7
    if ty in ("float", "int"):
        a, b = sorted([r.choice([-1, 0, 1, 0.5, 2020, 1e6]), r.choice([-1, 0, 1, 1.5, 2100, 1e7])])
        if r.random() < 0.7:
            node["min"] = a
        if r.random() < 0.7:
            node["max"] = b
    if ty == "enum":
        node["values"] = r.sample(["SSP1", "SSP2", 1, 0.5, "x", True, "false", "no"], 3)
        node["default"] = node["values"][0]
    if ty == "quantity":
        node["unit"] = r.choice(["emissions_unit", "currency_unit/emissions_unit", "temperature_unit", "1/yr", "GtCO2/yr", "dimensionless"])
    if ty in ("list", "dict", "datasource") and depth < 2:
        if r.random() < 0.8:
            node["values"] = declaration(r, depth + 1)
        if ty != "list" and r.random() < 0.6:
            node["keys"] = {"type": r.choice(["str", "int", "float"])}
    return node


def value_for(r, node):
    ty = node["type"]
    if ty in ("float", "int"):
        b = r.choice([node.get("min", -5), node.get("max", 7)])
        return r.choice([b, str(b), b + 1, b - 1, math.nextafter(b, INF), math.nextafter(b, -INF)])
    if ty == "enum":
        return r.choice(node["values"])
    if ty == "quantity":
        return r.choice(["3 GtCO2", "5 MtCO2/yr", "1 US$/t CO2", "2 delta_degC", "4 %/yr", "3", "4.5"])
    if ty == "list":
        return [r.choice([1, "2", "x", None, 0.5, "SSP1", False]) for _ in range(r.randint(0, 4))]
    if ty == "dict":
        return {r.choice(["a", "1", 2, "x y"]): r.choice([1, "2", "x", None, 0.5]) for _ in range(r.randint(0, 4))}
    if ty == "datasource":
        ks = ["variable", "unit", "scenario", "model", "file"]
        if r.random() < 0.4:
            ks.remove(r.choice(ks))
        gone = [k for k in ("variable", "unit", "scenario", "model", "file") if k not in ks]
        near = [f(k) for k in gone for f in (str.upper, str.title, lambda x: x + "s", lambda x: x + "name", lambda x: " " + x, lambda x: x[:-1])]
        more = ["z"] if r.random() < 0.3 else r.sample(near, 1) if near and r.random() < 0.6 else []
        return {k: r.choice([1, "2", "x"]) for k in ks + more}
    return r.choice(POOL)
