"""C02 on the real code: user configurations with known and unknown keys at all depths through check_params / load_params"""
import copy

from reallab import lab, silent


def leaves(tpl, path=()):
    for k, n in tpl.items():
        if not isinstance(n, dict) or "type" in n:
            yield path + (k,), n
        else:
            yield from leaves(n, path + (k,))


def sections(tpl, path=()):
    yield path, tpl
    for k, v in tpl.items():
        if isinstance(v, dict) and "type" not in v:
            yield from sections(v, path + (k,))


def put(d, path, v):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = v


def call(f):
    try:
        with silent():
            return ("ok", f())
    except Exception as e:
        return ("error", f"{type(e).__name__}: {str(e).strip()[:150]}")


def valid_value(node, default, r):
    """a value the declaration allows, with free contents where contents are free"""
    if node["type"] == "dict" and "values" not in node and "keys" not in node:
        return r.choice([default, {}, {"anything": 1}, {"a": {"b": {"c": 2}}}, {"time": {"start": 5}}])
    if node["type"] == "datasource":
        return r.choice([default, dict(default, extra="x")]) if isinstance(default, dict) else default
    if node.get("can_be_false") and r.random() < 0.3:
        return False
    return default


def misspell(k, r):
    k = str(k)
    return r.choice([k + "s", k[:-1], k.upper() if k.upper() != k else k.lower(), " " + k, k + " ", k.replace(" ", "_") + "_", k.swapcase(),
                     k[1:], k + k, "x " + k])


@lab("C02")
def keys(job, res):
    with silent():
        from mimosa.common.config import parseconfig as pc
    tpl = pc.load_default_yaml()
    ls, secs = list(leaves(tpl)), list(sections(tpl))
    r = res.rng
    base = call(lambda: pc.check_params({}))
    if base[0] != "ok":
        res.finding(f"the empty configuration is rejected: {base[1]}")
        return
    raw = tpl
    pc.load_default_yaml = lambda: copy.deepcopy(raw)     # the file is read once
    allkeys = sorted({k for p, _ in ls for k in p}, key=str)

    def dflt(path):
        d = base[1]
        for k in path:
            d = d[k]
        return copy.deepcopy(d)

    def judge(user, known, what):
        res.ran(1, {"user": repr(user)[:160], "known": known})
        got = call(lambda: pc.check_params(copy.deepcopy(user)))
        if known and got[0] != "ok":
            res.finding(f"{what}: configuration {user!r} holds only keys of the template but is rejected: {got[1]}", user=repr(user))
        if not known and got[0] == "ok":
            res.finding(f"{what}: configuration {user!r} holds a key that the template does not have but is accepted", user=repr(user))

    def unknown_values():
        return [1, None, "x", False, [], {}, {"a": 1}, {"a": {"b": {}}}, {"a": {}}, [1, {"a": 2}]]
    # one unknown key per section, with every kind of contents, alone and with company
    for path, sec in secs:
        for k in ["unknown", misspell(next(iter(sec)), r), " - ".join([str(next(iter(sec)))] * 2), 3, ""]:
            if k in sec:
                continue
            for v in unknown_values() if k == "unknown" else [r.choice(unknown_values())]:
                u = {}
                put(u, path + (k,), v)
                judge(u, False, "unknown key")
                if r.random() < 0.3:
                    p2, _ = r.choice(ls)
                    put(u, p2, dflt(p2))
                    judge(u, False, "unknown key beside a known one")
            if res.left() < 1:
                break
    # joined spellings of nested paths at the top and elsewhere
    for path, node in r.sample(ls, min(len(ls), 25 if res.quick else len(ls))):
        if len(path) > 1:
            judge({" - ".join(path): dflt(path)}, False, "joined key")
            judge({".".join(path): dflt(path)}, False, "joined key")
            u = {}
            put(u, path[:-1] + (misspell(path[-1], r),), dflt(path))
            if not any(path[:-1] + (k,) == path for k in u):
                if not exists(tpl, u):
                    judge(u, False, "misspelled key")
            if not at(tpl, path[-1:]):
                judge({path[-1]: dflt(path)}, False, "misplaced key")
        if node["type"] not in ("dict", "datasource", "str_or_plain_dict"):
            u = {}
            put(u, path + ("below",), 1)
            judge(u, False, "key below a parameter")
            u = {}
            put(u, path + ("below", "it"), {})
            judge(u, False, "key below a parameter")
    # random configurations
    n = 0
    while n < (120 if res.quick else 3000) and res.left() > 0.5:
        n += 1
        u = {}
        for path, node in r.sample(ls, r.randint(0, 8)):
            put(u, path, valid_value(node, dflt(path), r))
        for path, _ in r.sample(secs, 2):
            if path and at(u, path) is None:
                try:
                    put(u, path, {})
                except (TypeError, AttributeError):
                    pass
        judge(u, True, "known keys")
        w = copy.deepcopy(u)
        path, sec = r.choice(secs)
        k = r.choice([misspell(r.choice(allkeys), r), r.choice(allkeys)])
        if k in sec:
            continue
        try:
            put(w, path + (k,), r.choice(unknown_values()))
        except (TypeError, AttributeError):
            continue
        judge(w, False, "one unknown key among known ones")
    # files and default
    r1 = call(lambda: pc.load_params())
    if r1[0] != "ok":
        res.finding(f"load_params() rejects the shipped defaults: {r1[1]}")


def at(d, path):
    for k in path:
        if not isinstance(d, dict) or k not in d:
            return None
        d = d[k]
    return d


def exists(tpl, u):
    """every path of u (down to its non-dictionaries) is in the template"""
    for k, v in u.items():
        if k not in tpl:
            return False
        if isinstance(v, dict) and isinstance(tpl[k], dict) and "type" not in tpl[k] and not exists(tpl[k], v):
            return False
    return True
