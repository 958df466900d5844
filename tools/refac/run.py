"""Runs checks on copies of /repo with an edit that changes no behaviour.

    python3-vt tools/refac/run.py [-j N] [--ids M01,C02] [--specs name,name] [--out FILE]

For each edit: copy /repo, apply, run the unit tests, run every check with MIMOSA_REPO set
to the copy, report the checks that do not exit with 0 (alarm) or whose evidence is less
than a full discharge (weaker)."""
import argparse, concurrent.futures as cf, importlib, json, os, pathlib, shutil, subprocess, sys, tempfile
HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent.parent
sys.path.insert(0, str(HERE))


def specs():
    out = {}
    for p in sorted(HERE.glob("specs*.py")):
        out.update(importlib.import_module(p.stem).SPECS)
    return out


def one(name, edits, ids):
    d = pathlib.Path(tempfile.mkdtemp(prefix="refac.", dir="/tmp"))
    try:
        subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
        subprocess.run(["cp", "-a", str(VERIF), str(d / "verif")], check=True)
        for f, old, new in edits:
            p = d / "repo" / f
            s = p.read_text()
            if s.count(old) < 1:
                return name, "NOT-APPLICABLE " + f + ": " + old[:60], []
            p.write_text(s.replace(old, new, 1))
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests/unittests"],
                           cwd=d / "repo", capture_output=True, text=True)
        if t.returncode:
            return name, "TESTS-FAIL " + t.stdout[-300:], []
        b = subprocess.run(["/opt/venv/bin/python", "-c",
                            "import sys; sys.path.insert(0,'.')\nfrom mimosa import MIMOSA, load_params\np=load_params(); p['time']['end']=2030\nMIMOSA(p)"],
                           cwd=d / "repo", capture_output=True, text=True)
        if b.returncode:
            return name, "BUILD-FAIL " + b.stderr[-600:], []
        res = []
        for i in ids:
            env = dict(os.environ, MIMOSA_REPO=str(d / "repo"), VERIF_SEED="1", VERIF_TIER="quick")
            try:
                r = subprocess.run(["python3-vt", "check.py", i], cwd=d / "verif", env=env,
                                   capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res.append((i, "TIMEOUT", "")); continue
            ev = {}
            try:
                ev = json.loads((d / "verif/evidence" / (i + ".json")).read_text())
            except Exception:
                pass
            if r.returncode:
                res.append((i, "ALARM", (r.stdout + r.stderr)[-1500:]))
            else:
                line = [l for l in r.stdout.splitlines() if l.strip()][-1:]
                lv = ev.get("level")
                if lv != BASE.get(i):
                    res.append((i, "weaker", f"{lv} (was {BASE.get(i)}) " + r.stdout[-700:]))
        return name, "ok", res
    finally:
        shutil.rmtree(d, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=5)
ap.add_argument("--ids")
ap.add_argument("--specs")
ap.add_argument("--out", default="/tmp/refac.log")
a = ap.parse_args()
ALL = [c["property"] for c in json.load(open(VERIF / "MANIFEST.json"))["checks"]]
BASE = {i: json.loads((VERIF / "evidence" / (i + ".json")).read_text()).get("level") for i in ALL}
ids = a.ids.split(",") if a.ids else ALL
S = specs()
names = a.specs.split(",") if a.specs else list(S)
with open(a.out, "w") as fh, cf.ThreadPoolExecutor(a.j) as ex:
    for fu in cf.as_completed([ex.submit(one, n, S[n], ids) for n in names]):
        n, st, res = fu.result()
        alarms = [r for r in res if r[1] != "weaker"]
        weak = [r for r in res if r[1] == "weaker"]
        print(f"{n}: {st} alarms={[r[0] for r in alarms]} weaker={[r[0] for r in weak]}", flush=True)
        fh.write(f"##### {n}: {st}\n")
        for r in res:
            fh.write(f"--- {r[0]} {r[1]}\n{r[2]}\n")
        fh.flush()
