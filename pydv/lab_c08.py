"""C08 on the real code: regional parameters of real stores on random tables and mappings, and of models with custom tables"""
import csv
import math
import os
import tempfile

from reallab import lab, silent, load, REPO

TR = load("truth")
VALUES = [0, 0.0, 1.5, -2, "0", "text", "1e-3", False, True, 7]


def write(path, rows):
    with open(path, "w", newline="") as f:
        csv.writer(f).writerows(rows)
    return path


def expected(u, cat, name, region, tables):
    """set of acceptable values, or None for an error"""
    own = u["regions"].get(region)
    if isinstance(own, dict) and isinstance(own.get(cat), dict) and name in own[cat]:
        return [own[cat][name]]
    if cat not in tables:
        return None
    typ, head, rows = tables[cat]
    if name not in head:
        return None
    j = head.index(name)
    if typ == u["regionstype"]:
        hits = [r[j] for r in rows if r[0] == region]
        return [conv(hits[0])] if hits else None
    mp = None
    for m in u["regionsmappings"]:
        if {m["regionstype1"], m["regionstype2"]} == {typ, u["regionstype"]}:
            mp = TR.read_csv(m["conversiontable"])
    if mp is None:
        return None
    src = [r[typ] for r in mp if r[u["regionstype"]] == region]
    hits = [r for r in rows if r[0] in src]
    if not hits:
        return None
    if all(isinstance(r[j], (int, float)) for r in rows):
        return [sum(float(r[j]) for r in hits) / len(hits)]
    # "first": in the order of the table, of the mapping, or of the names
    by_map = [r for s in src for r in hits if r[0] == s]
    by_name = sorted(hits, key=lambda r: r[0])
    return [conv(x[0][j]) for x in (hits, by_map, by_name)]


def conv(x):
    try:
        return float(x)
    except ValueError:
        return x


def agrees(g, want):
    for x in want:
        if type(g) is type(x) and g == x:
            return True
        if isinstance(x, (int, float)) and not isinstance(x, bool) and isinstance(g, (int, float)) and not isinstance(g, bool):
            try:
                if abs(g - x) <= 1e-9 * max(1, abs(x)):
                    return True
            except TypeError:
                pass
    return False


@lab("C08")
def stores(job, res):
    try:
        with silent():
            from mimosa.common.regional_params import RegionalParamStore
    except ImportError:
        res["notes"].append("no RegionalParamStore")
        return
    r = res.rng
    tmp = tempfile.mkdtemp(prefix="c08", dir=os.getcwd())
    n = 0
    while res.left() > 2.5 and n < (60 if res.quick else 4000):
        n += 1
        types = r.sample(["IMAGE26", "COACCH", "ADRICE2010", "World", "own"], 3)
        want, t1, t2 = types
        model = [f"M{i}" for i in range(r.randint(1, 5))]
        maps = []
        regs = {}
        for k, t in ((1, t1), (2, t2)):
            regs[t] = [f"{'zyxwv'[i]}{k}" for i in range(r.randint(1, 5))]
            if r.random() < 0.9:
                rows = []
                for m in model:
                    for x in r.sample(regs[t], r.randint(1, min(3, len(regs[t])))) if r.random() < 0.9 else []:
                        rows.append([m, x])
                r.shuffle(rows)
                cols = [want, t]
                if r.random() < 0.5:
                    cols, rows = cols[::-1], [q[::-1] for q in rows]
                rows = [[r.choice("ab")] + q for q in rows]
                path = write(os.path.join(tmp, f"map{n}{k}.csv"), [["extra"] + cols] + rows)
                a, b = (want, t) if r.random() < 0.5 else (t, want)
                maps.append({"regionstype1": a, "regionstype2": b, "conversiontable": path})
        tables, files = {}, {}
        for cat in ("economics", "MAC", "damage"):
            typ = r.choice([want, want, t1, t2])
            rs = list(model if typ == want else regs[typ])
            if len(rs) > 1 and r.random() < 0.25:
                rs.remove(r.choice(rs))
            r.shuffle(rs)
            head = ["region", "num", "int", "text", "mixed"]
            rows = [[x, round(r.uniform(-5, 5), 4), r.randint(0, 9), r.choice(["Logistic", "Quadratic", "Linear"]) + x, r.choice(["1.5", "abc", "2"])] for x in rs]
            if rows and all(isinstance(conv(q[4]), float) for q in rows):
                rows[0][4] = "abc"
            order = [0] + r.sample([1, 2, 3, 4], 4)
            head, rows = [head[i] for i in order], [[q[i] for i in order] for q in rows]
            files[cat] = {"filename": write(os.path.join(tmp, f"tab{n}{cat}.csv"), [head] + rows), "regionstype": typ}
            tables[cat] = (typ, head, rows)
        if n % 7 == 3:
            model = model + [r.choice([f"{model[0]}#", model[0].lower(), f" {model[0]}", f"{model[0]}0"])]     # not in any table
        entries = {}
        for m in model:
            z = r.random()
            v = r.choice(VALUES)
            entries[m] = (None if z < 0.1 else {} if z < 0.3 else {"MAC": {}} if z < 0.4 else {"MAC": {"num": v}} if z < 0.6 else
                          {"MAC": None, "damage": {"text": v, "num": 3}} if z < 0.8 else {"economics": {"new": v}, "damage": {"other": 1}})
        u = {"regions": entries, "regionstype": want, "regional_parameter_files": files, "regionsmappings": maps}
        needs = {t for t, _, _ in tables.values() if t != want}
        have = {x for m in maps for x in (m["regionstype1"], m["regionstype2"])}
        complete = needs <= have
        try:
            with silent():
                st = RegionalParamStore(u, None)
        except Exception as e:   # noqa: BLE001
            res.ran(1)
            if complete:
                res.finding(f"regional parameters of valid tables cannot be read: {type(e).__name__}: {str(e)[:200]}", config=u)
            continue
        res.ran(1, {"types": types, "tables": {c: t[0] for c, t in tables.items()}})
        for cat in list(tables) + ["nothing"]:
            for name in ("num", "int", "text", "mixed", "new", "other", "none"):
                if cat in tables and tables[cat][0] in needs - have:
                    wants = {m: expected(u, cat, name, m, {k: v for k, v in tables.items() if k != cat}) for m in model}
                else:
                    wants = {m: expected(u, cat, name, m, tables) for m in model}
                for m, x in wants.items():
                    what = f"{cat} - {name} of {m} (table {files.get(cat, {}).get('filename', '')!r} by {files.get(cat, {}).get('regionstype')}, model by {want})"
                    try:
                        with silent():
                            g = st.getregional(cat, name, m)
                    except Exception as e:   # noqa: BLE001
                        if x is not None:
                            res.finding(f"{what} raises {type(e).__name__}, expected {x[0]!r}", config=u, table=tables.get(cat))
                        continue
                    if x is None:
                        res.finding(f"{what} is {g!r} though it is missing", config=u, table=tables.get(cat))
                    elif not agrees(g, x):
                        res.finding(f"{what} is {g!r}, expected {x[0]!r}", config=u, table=tables.get(cat))
                if all(x is not None for x in wants.values()):
                    try:
                        with silent():
                            d = st.get(cat, name)
                    except Exception as e:   # noqa: BLE001
                        res.finding(f"{cat} - {name} of all regions raises {type(e).__name__}: {e}", config=u)
                        continue
                    if sorted(d) != sorted(model) or not all(agrees(d[m], x) for m, x in wants.items()):
                        res.finding(f"{cat} - {name} of all regions is {d}, expected { {m: x[0] for m, x in wants.items()} }", config=u)


@lab("C08")
def models(job, res):
    """models with tables that lack rows, columns or mappings"""
    with silent():
        import mimosa.mimosa as mm

    class M(mm.MIMOSA):
        def preprocessing(self):
            pass
    tmp = tempfile.mkdtemp(prefix="c08m", dir=os.getcwd())
    base = os.path.join(REPO, "mimosa", "inputdata")
    tpl = TR.load_yaml(base + "/config/config_default.yaml")
    files = dict(tpl["regional_parameter_files"]["default"])
    maps = list(tpl["regionsmappings"]["default"])

    def table(name, keep=lambda row: True, drop=()):
        with open(f"{base}/regionalparams/{name}.csv", newline="") as f:
            rows = [q for q in csv.reader(f)]
        j = [i for i, h in enumerate(rows[0]) if h not in drop]
        return write(os.path.join(tmp, f"{name}{len(os.listdir(tmp))}.csv"), [[q[i] for i in j] for n, q in enumerate(rows) if n == 0 or keep(q)])

    def go(what, files=files, maps=maps, ok=False, regions=("USA", "INDIA"), dm="COACCH"):
        if res.left() < 0.3:
            return
        u = {"model": {"damage module": dm}, "regions": {x: {} for x in regions}, "regional_parameter_files": files, "regionsmappings": maps,
             "time": {"start": 2020, "end": 2040, "dt": 10}}
        res.ran(1, what)
        try:
            with silent():
                M(u)
        except Exception as e:   # noqa: BLE001
            if ok:
                res.finding(f"{what}: a model of valid tables cannot be built: {type(e).__name__}: {str(e)[:200]}", config=u)
            return
        if not ok:
            res.finding(f"{what}: the model is built without an error", config=u)

    go("shipped tables", ok=True)
    go("unknown region", regions=("USA", "NOWHERE"))
    go("COACCH table without I_USA", dict(files, COACCH=dict(files["COACCH"], filename=table("COACCH", lambda q: q[0] != "I_USA"))))
    go("MAC table without INDIA", dict(files, MAC=dict(files["MAC"], filename=table("mac", lambda q: q[0] != "INDIA"))))
    go("economics table without its column", dict(files, economics=dict(files["economics"], filename=table("economics", drop=("init_capital_factor",)))))
    go("COACCH table without NoSLR_b1", dict(files, COACCH=dict(files["COACCH"], filename=table("COACCH", drop=("NoSLR_b1",)))))
    go("no mapping of COACCH", maps=[m for m in maps if m["regionstype2"] != "COACCH"])
    go("no MAC table", {k: v for k, v in files.items() if k != "MAC"})


@lab("C08")
def tables(job, res):
    """tables with blank cells"""
    try:
        with silent():
            from mimosa.common.regional_params import RegionalParamStore
    except ImportError:
        return
    r = res.rng
    tmp = tempfile.mkdtemp(prefix="c08t", dir=os.getcwd())
    u = {"regions": {"A": {}, "B": {}, "C": None}, "regionstype": "own", "regionsmappings": []}

    def read(cat, name, m):
        st = RegionalParamStore(u, None)
        return st.getregional(cat, name, m)
    for n in range(4):
        x = {m: [r.randint(1, 9), "" if m == "AB"[n % 2] else round(r.uniform(1, 9), 3), r.choice(["one", "two"]) if m != "B" else ""] for m in "ABC"}
        path = os.path.join(tmp, f"table{n}.csv")
        u["regional_parameter_files"] = {c: {"filename": path, "regionstype": "own"} for c in ("economics", "MAC", "damage")}
        write(path, [["region", "i", "f", "s"]] + [[m] + x[m] for m in "ABC"])
        for j, name in enumerate(("i", "f", "s")):
            for m in "ABC":
                res.ran(1)
                try:
                    with silent():
                        g = read("MAC", name, m)
                except Exception as e:   # noqa: BLE001
                    if x[m][j] != "":
                        res.finding(f"{name} of {m} raises {type(e).__name__}, the table gives {x[m][j]!r}", table=x)
                        return
                    continue
                if x[m][j] == "":
                    if not (isinstance(g, float) and g != g):
                        res.finding(f"{name} of {m} is {g!r} though its cell is blank", table=x)
                        return
                elif not agrees(g, [conv(x[m][j])]):
                    res.finding(f"{name} of {m} is {g!r}, the table gives {x[m][j]!r}", table=x)
                    return
