"""Mutation campaign over the whole package: small random edits of the source; those that survive the unit tests are run
through the checks (those anchored in the file first) until one reports a violation.

    python3-vt tools/mutate/run.py [-n N] [-j J] [--seed S] [--files substr,..] [--out FILE]
Prints one line per mutant: killed-by-tests / caught by ID / SURVIVED, with the edit."""
import argparse, ast, concurrent.futures as cf, json, os, pathlib, random, shutil, subprocess, sys, tempfile, threading
VERIF = pathlib.Path(__file__).resolve().parent.parent.parent
REPO = pathlib.Path("/repo")
SKIP = ("scc.py", "simulation_mode/utils.py")


def sites(path):
    src = path.read_text()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    data = src.encode()
    pos = lambda ln, co: off[ln - 1] + co      # noqa: E731
    seg = lambda n: data[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()   # noqa: E731
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    infstr = {id(c) for n in ast.walk(tree) if isinstance(n, ast.JoinedStr) for c in ast.walk(n)}

    def rep(n, new, kind):
        out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new, kind, n.lineno))

    def between(a, b, old, new, kind, ln):
        s, e = pos(a.end_lineno, a.end_col_offset), pos(b.lineno, b.col_offset)
        t = data[s:e].decode()
        if t.count(old) == 1:
            i = s + len(t[:t.index(old)].encode())
            out.append((i, i + len(old), new, kind, ln))
    for n in ast.walk(tree):
        if id(n) in infstr:
            continue
        if isinstance(n, ast.BinOp):
            table = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/", "+"]), ast.Div: ("/", ["*"]), ast.Pow: ("**", ["*"])}
            if type(n.op) in table:
                o, ns = table[type(n.op)]
                for x in ns:
                    between(n.left, n.right, o, x, "binop", n.lineno)
            rep(n, "(" + seg(n.left) + ")", "left operand only")
            rep(n, "(" + seg(n.right) + ")", "right operand only")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            table = {ast.Lt: ("<", ["<=", ">"]), ast.LtE: ("<=", ["<", "=="]), ast.Gt: (">", [">=", "<"]), ast.GtE: (">=", [">", "=="]),
                     ast.Eq: ("==", ["!=", "<="]), ast.NotEq: ("!=", ["=="]), ast.In: (" in ", [" not in "]), ast.NotIn: (" not in ", [" in "]),
                     ast.Is: (" is ", [" is not "]), ast.IsNot: (" is not ", [" is "])}
            o, ns = table[type(n.ops[0])]
            for x in ns:
                between(n.left, n.comparators[0], o, x, "compare", n.lineno)
        elif isinstance(n, ast.BoolOp):
            o, x = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], o, x, "boolop", n.lineno)
        elif isinstance(n, ast.UnaryOp):
            rep(n, "(" + seg(n.operand) + ")", "unary dropped")
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "bool")
            elif isinstance(v, (int, float)):
                for x in {v + 1, v - 1 if v else 2, v * 2 if v else -1, v * 1.01}:
                    rep(n, f"({x})" if x < 0 else str(x), "number")
            elif v is None:
                rep(n, "0", "None")
            elif isinstance(v, str) and len(v) > 1:
                rep(n, repr(v[:-1]), "string")
        elif isinstance(n, ast.If):
            rep(n.test, "not (" + seg(n.test) + ")", "if negated")
            rep(n.test, "True", "if True")
            rep(n.test, "False", "if False")
        elif isinstance(n, ast.IfExp):
            rep(n.test, "not (" + seg(n.test) + ")", "ifexp negated")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                i = random.Random(n.lineno * 1000 + n.col_offset).randrange(len(n.args) - 1)
                a, b = n.args[i], n.args[i + 1]
                s, e = pos(a.lineno, a.col_offset), pos(b.end_lineno, b.end_col_offset)
                m = data[pos(a.end_lineno, a.end_col_offset):pos(b.lineno, b.col_offset)].decode()
                out.append((s, e, seg(b) + m + seg(a), "arguments swapped", n.lineno))
            for kw in n.keywords:
                if kw.arg:
                    s, e = pos(kw.lineno, kw.col_offset), pos(kw.end_lineno, kw.end_col_offset)
                    rest = data[e:e + 200].decode(errors="ignore")
                    j = len(rest) - len(rest.lstrip())
                    if rest[j:j + 1] == ",":
                        e += j + 1
                    out.append((s, e, "", "keyword dropped", n.lineno))
            f = seg(n.func)
            if f in ("max", "min"):
                rep(n.func, "min" if f == "max" else "max", "min/max")
            if f in ("np.ceil", "np.floor"):
                rep(n.func, "np.floor" if f == "np.ceil" else "np.ceil", "ceil/floor")
            if len(n.args) == 1 and not n.keywords and f not in ("super",):
                rep(n, "(" + seg(n.args[0]) + ")", "call dropped")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and id(n) not in docs:
            if isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr) or isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                rep(n, "pass", "statement dropped")
        elif isinstance(n, ast.Continue):
            rep(n, "break", "continue")
        elif isinstance(n, ast.Break):
            rep(n, "continue", "break")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and isinstance(n.ctx, ast.Load):
            a, b = n.slice.elts
            if isinstance(a, ast.Name) and a.id == "t":
                rep(a, "m.t.first()", "first period")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ("t", "r"):
            pass
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "m" and isinstance(n.ctx, ast.Load):
            attrs = sorted({x.attr for x in ast.walk(tree) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
                            and x.value.id == "m"} - {n.attr})
            near = [x for x in attrs if x.split("_")[0] == n.attr.split("_")[0]]
            for x in (near or [])[:3]:
                rep(n, "m." + x, "other attribute")
    uniq = {}
    for s, e, new, kind, ln in out:
        if data[s:e].decode() != new:
            uniq[(s, e, new)] = (s, e, new, kind, ln)
    return data, list(uniq.values())


ap = argparse.ArgumentParser()
ap.add_argument("-n", type=int, default=100)
ap.add_argument("-j", type=int, default=6)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--files")
ap.add_argument("--out", default="/tmp/mutants.log")
a = ap.parse_args()
rnd = random.Random(a.seed)
ORDER = {}
IDS = []
for line in (VERIF / "properties.jsonl").read_text().splitlines():
    d = json.loads(line)
    IDS.append(d["id"])
    for f in d["anchors"]["files"]:
        ORDER.setdefault(f, []).append(d["id"])
EXTRA = {"mimosa/abstract_model.py": ["M18", "C05", "S01"], "mimosa/common/units.py": ["C04"], "mimosa/common/utils.py": ["C05", "C08", "M18", "C02"]}


def order(f):
    first = [i for k, v in ORDER.items() if f == k or f.startswith(k.rstrip("/") + "/") for i in v if k.endswith(".py")] + EXTRA.get(f, [])
    second = [i for k, v in ORDER.items() if f.startswith(k.rstrip("/") + "/") for i in v]
    out = []
    for i in first + second + IDS:
        if i not in out:
            out.append(i)
    return out


pool = []
for p in sorted((REPO / "mimosa").rglob("*.py")):
    f = str(p.relative_to(REPO))
    if any(f.endswith(x) for x in SKIP) or p.name == "__init__.py" and p.stat().st_size < 800 or a.files and not any(x in f for x in a.files.split(",")):
        continue
    data, ss = sites(p)
    pool += [(f, s) for s in ss]
print(len(pool), "possible mutants", flush=True)
# one per line and kind of edit at most, files weighted by the square root of their size
by = {}
for f, s in pool:
    by.setdefault(f, []).append(s)
chosen = []
files = list(by)
w = [len(by[f]) ** 0.6 for f in files]
seen = set()
while len(chosen) < a.n and len(seen) < len(pool):
    f = rnd.choices(files, w)[0]
    s = rnd.choice(by[f])
    if (f, s) in seen:
        continue
    seen.add((f, s))
    chosen.append((f, s))
local = threading.local()
made = []
BUILD = """import sys; sys.path.insert(0, '.')
from mimosa import MIMOSA, load_params
p = load_params(); p['time']['end'] = 2030
MIMOSA(p)"""


def place():
    if not hasattr(local, "d"):
        local.d = pathlib.Path(tempfile.mkdtemp(prefix="mutant.", dir="/tmp"))
        made.append(local.d)
        subprocess.run(["cp", "-a", "/repo", str(local.d / "repo")], check=True)
        (local.d / "verif").mkdir()
        for n in ("pydv", "check.py", "properties.jsonl", "KNOWN_FINDINGS.txt", "MANIFEST.json"):
            subprocess.run(["cp", "-a", str(VERIF / n), str(local.d / "verif" / n)], check=True)
        (local.d / "verif/evidence").mkdir()
    return local.d


def one(f, s):
    d = place()
    p = d / "repo" / f
    orig = p.read_bytes()
    b, e, new, kind, ln = s
    mut = orig[:b] + new.encode() + orig[e:]
    try:
        compile(mut, f, "exec")
    except SyntaxError:
        return "syntax", ""
    try:
        p.write_bytes(mut)
        t = subprocess.run(["timeout", "300", "/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests/unittests"],
                           cwd=d / "repo", capture_output=True, text=True)
        if t.returncode:
            return "killed-by-tests", ""
        t = subprocess.run(["timeout", "200", "/opt/venv/bin/python", "-B", "-c", BUILD], cwd=d / "repo", capture_output=True, text=True)
        if t.returncode:
            return "does-not-build", t.stderr.strip().splitlines()[-1][:200] if t.stderr.strip() else ""
        info = []
        for i in order(f):
            env = dict(os.environ, MIMOSA_REPO=str(d / "repo"), VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run(["timeout", "600", "python3-vt", "check.py", i], cwd=d / "verif", env=env, capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")][0]
                return f"caught {i}", ("no-input " if "no-failing-input" in v else "") + " ".join(info)
            if r.returncode:
                info.append(f"{i}:exit{r.returncode}")
        return "SURVIVED", " ".join(info)
    finally:
        p.write_bytes(orig)


with open(a.out, "a") as fh, cf.ThreadPoolExecutor(a.j) as ex:
    fus = {ex.submit(one, f, s): (f, s) for f, s in chosen}
    from collections import Counter
    n = Counter()
    for fu in cf.as_completed(fus):
        f, (b, e, new, kind, ln) = fus[fu]
        try:
            st, info = fu.result()
        except Exception as x:   # noqa: BLE001
            st, info = "ERROR", repr(x)[:200]
        n[st.split()[0]] += 1
        old = (REPO / f).read_bytes()[b:e].decode()
        line = f"{st} | {f}:{ln} | {kind} | {old!r} -> {new!r} | {info}"
        fh.write(line + "\n"); fh.flush()
        if not st.startswith(("killed", "syntax")):
            print(line, flush=True)
    print(dict(n), flush=True)
for d in made:
    shutil.rmtree(d, ignore_errors=True)
