"""C03 on the real code: random parameter trees with references through parse_param_values and MIMOSA.__init__"""
import copy
import string

from reallab import lab, silent

NAMES = ["SSP", "time", "start", "a", "b c", "x-y", "carbonbudget", "rel_min level", "1", "filename", "é", "type", "default", "unit", "values"]


def tree(r, depth, paths, path=()):
    d = {}
    # (keys of dictionary parameters need not be text)
    for k in r.sample(NAMES, r.randint(1, 4)) + (r.sample([2020, 2050, 0, 2.5, True, None], r.randint(1, 2)) if depth < 3 and r.random() < 0.1 else []):
        if depth and r.random() < 0.45:
            d[k] = tree(r, depth - 1, paths, path + (k,))
        else:
            d[k] = r.choice([1, 0, -3, 2.5, 1e-7, True, False, None, "SSP2", "", "plain text", "a|b c", [1, "x"], [], 2020, "20 GtCO2/yr",
                             "back\\1slash", "\\g<0>", "$1 {", "} x", "1e3"])
            paths.append((path + (k,), d[k]))
    return d


def substitute(text, paths, sections):
    """independent reading of the property: scan for {name}"""
    out, i = "", 0
    while i < len(text):
        j = text.find("}", i)
        if text[i] == "{" and j > 0:
            name = text[i + 1:j]
            keys = tuple(name.split(" - "))
            if "{" not in name and keys in paths and paths[keys] is not None:
                out += str(paths[keys])
                i = j + 1
                continue
        out += text[i]
        i += 1
    return out


def put(d, path, v):
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = v


def walk(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            if not v:
                yield path + (k,), v
            yield from walk(v, path + (k,))
        else:
            yield path + (k,), v


def same(a, b):
    return type(a) is type(b) and a == b


@lab("C03")
def trees(job, res):
    with silent():
        from mimosa.common.config.parseconfig import parse_param_values
    r = res.rng
    n = 0
    while n < (4000 if res.quick else 100000) and res.left() > 1.5:
        n += 1
        leaves = []
        t = tree(r, r.randint(0, 3), leaves)
        vals = dict(leaves)
        hosts = r.sample(leaves, min(len(leaves), r.randint(1, 3)))
        hp = {p for p, _ in hosts}
        # targets hold no references themselves: the order of substitution does not matter
        targets = {p: v for p, v in vals.items() if all(isinstance(k, str) for k in p) and p not in hp and not (isinstance(v, str) and "{" in v)}
        secs = sections_of(t)
        want = dict(walk(t))
        for p, _ in hosts:
            text = ""
            for _ in range(r.randint(0, 4)):
                text += r.choice(["", "x", "|", " - ", "file_", ".csv", "{}", "{ }", "{zzz}", "{a - zzz}", "{zzz - a}", "$", "\\1"])
                pick = r.random()
                if targets and pick < 0.65:
                    text += "{" + " - ".join(r.choice(list(targets))) + "}"
                elif secs and pick < 0.75:
                    text += "{" + " - ".join(r.choice(secs)) + "}"
                elif targets and pick < 0.82:
                    text += "{" + " - ".join(r.choice(list(targets))) + " - more}"
                elif targets and pick < 0.86:
                    text += "{" + "-".join(r.choice(list(targets))) + " }"
            put(t, p, text)
            want[p] = None
        # names that would mean another host are left out of the comparison
        cur = dict(walk(t))
        skip = False
        for p in hp:
            if any("{" + " - ".join(map(str, q)) + "}" in cur[p] for q in hp) or any(
                    isinstance(v, str) and "{" in v and "{" + " - ".join(map(str, q)) + "}" in cur[p] for q, v in vals.items()):
                skip = True
            want[p] = substitute(cur[p], {**targets}, secs)
        if skip:
            continue
        for q, v in cur.items():
            if q not in hp and isinstance(v, str):
                want[q] = substitute(v, targets, secs)
        orig = copy.deepcopy(t)
        try:
            with silent():
                got = parse_param_values(copy.deepcopy(t))
        except Exception as e:
            res.finding(f"parse_param_values({orig!r}) raises {type(e).__name__}: {e}", params=repr(orig))
            continue
        res.ran(1, {"params": repr(orig)[:200]})
        g = dict(walk(got)) if isinstance(got, dict) else {}
        for p in want:
            if p not in g or not same(g[p], want[p]):
                res.finding(f"in {orig!r} the text {cur[p]!r} of {' - '.join(map(str, p))} becomes {g.get(p, 'missing')!r} instead of {want[p]!r}",
                            params=repr(orig))
                break
        if len(g) != len(want):
            res.finding(f"substitution changes the set of parameters of {orig!r}", params=repr(orig))


def sections_of(t, path=()):
    out = []
    for k, v in t.items():
        if isinstance(v, dict):
            if all(isinstance(x, str) for x in path + (k,)):
                out.append(path + (k,))
            out += sections_of(v, path + (k,))
    return out


@lab("C03")
def built(job, res):
    """the parameters a model is built with"""
    with silent():
        import mimosa.mimosa as mm
    seen = {}

    class M(mm.MIMOSA):
        def get_abstract_model(self):
            seen["abstract"] = copy.deepcopy(self.params)

        def create_instance(self):
            seen["instance"] = copy.deepcopy(self.params)

        def preprocessing(self):
            pass
    base = None
    cases = [
        ({}, {}),
        ({"SSP": "SSP3"}, {("input", "variables", "GDP", "scenario"): None}),
        ({"SSP": "SSP1", "input": {"variables": {"GDP": {"variable": "v", "unit": "u", "scenario": "{SSP}-{time - start}", "model": "M {SSP}{SSP}",
                                                         "file": "{time - end}/{economics - MAC - beta}.csv"}}}},
         {("input", "variables", "GDP", "scenario"): "SSP1-2020", ("input", "variables", "GDP", "model"): "M SSP1SSP1",
          ("input", "variables", "GDP", "file"): "2150/3.0.csv"}),
        ({"regional_parameter_files": {"a": {"b": {"filename": "x_{regionstype}_{SSP}"}}}},
         {("regional_parameter_files", "a", "b", "filename"): "x_IMAGE26_SSP2"}),
        ({"simulation": {"custom_mapping": {"A": "{emissions - carbonbudget}|{nothing}|{emissions}", "B": "{SSP} {model - damage module}"}}},
         {("simulation", "custom_mapping", "A"): "False|{nothing}|{emissions}", ("simulation", "custom_mapping", "B"): "SSP2 COACCH"}),
    ]
    for user, expect in cases:
        try:
            with silent():
                m = M(copy.deepcopy(user))
        except Exception as e:
            res.finding(f"MIMOSA({user!r}) raises {type(e).__name__}: {str(e)[:200]}", user=repr(user))
            continue
        res.ran(1, {"user": repr(user)[:200]})
        for which, p in (("params", m.params), ("abstract", seen["abstract"]), ("instance", seen["instance"])):
            for path, want in expect.items():
                got = p
                for k in path:
                    got = got[k]
                if want is not None and got != want:
                    res.finding(f"MIMOSA({user!r}): {' - '.join(path)} is {got!r} ({which}), expected {want!r}", user=repr(user))
            for path, v in walk(p):
                if isinstance(v, str) and "{SSP}" in v:
                    res.finding(f"MIMOSA({user!r}): the reference in {' - '.join(path)} = {v!r} is not substituted ({which})", user=repr(user))
