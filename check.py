#!/usr/bin/env python3
"""check.py ID [--thorough] [--replay FILE]

Decides one property: discharges the obligations generated from $MIMOSA_REPO (default /repo), replays failed ones on the
real code, writes evidence/ID.json; exit 0 / 1.
"""
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REPO = os.environ.get("MIMOSA_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
sys.setrecursionlimit(20000)

from pydv.report import Report, known_findings  # noqa: E402


class time_limit:
    """the symbolic run as a whole: what is not decided by then stays open (never a violation)"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        from pydv.engine import Deadline

        def late(*_):
            raise Deadline(f"the symbolic run took more than {self.s} s")
        signal.signal(signal.SIGALRM, late)
        signal.alarm(self.s)

    def __exit__(self, *_):
        signal.alarm(0)


class Lab:
    """a bounded run of the real code in its own process"""

    def __init__(self, job, script, wall):
        self.dir = tempfile.mkdtemp(prefix="vclab")
        self.job, self.wall = job, wall
        with open(os.path.join(self.dir, "job.json"), "w") as f:
            json.dump(job, f, default=str)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MIMOSA_REPO=REPO, OMP_NUM_THREADS="1", HOME=self.dir,
                   PYTHONHASHSEED="0", TMPDIR=self.dir)
        self.log = open(os.path.join(self.dir, "log"), "w")
        self.p = subprocess.Popen([PY, "-B", os.path.join(ROOT, "pydv", script), "job.json", "out.json"], cwd=self.dir, env=env,
                                  stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True)
        self.t0 = time.time()

    def result(self):
        """(result or None, text of the log)"""
        try:
            self.p.wait(max(1.0, self.wall - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()
        self.log.close()
        out, log = None, ""
        try:
            with open(os.path.join(self.dir, "log"), errors="replace") as f:
                log = f.read()[-1500:]
            with open(os.path.join(self.dir, "out.json")) as f:
                out = json.load(f)
        except (OSError, ValueError):
            pass
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
        return out, log


# --------------------------------------------------------------------------------------------------- M properties
M_TRUST = [
    "CPython 3.12 executing the mechanically rewritten source (pydv/engine.py: loops, comprehensions, identity tests, "
    "subscripts, f-strings become runtime calls; docstrings and annotations aside nothing is dropped)",
    "assumed contract of pyomo's modelling layer (pydv/pyostub.py): a rule is evaluated once per index; Skip imposes nothing; "
    "value(), exp(), atan() denote the mathematical functions; indexing outside the index set raises KeyError",
    "assumed contract of numpy functions used on numbers (pydv/pyostub.py)",
    "polynomial normal form of pydv/terms.py; z3 4.x and cvc5 answers",
]
M_ASSUME = [
    "floating point arithmetic is treated as real arithmetic; constants compare up to 12 digits",
    "DT in (0, 20], start year 1900..2100, at least one period after the first, any number of regions",
    "economics.damages.percentage reversible = 1 (the branch below 1 cannot be built, known finding of M04)",
    "per-capita convergence is combined with emission trading only (documented requirement)",
    "every region's damage function names exactly one functional form",
    "table columns chosen by documentation callables (quantile, adaptation, kappa) are taken at their default choice here; the "
    "choice itself is decided by C05",
]


def mods_of(o):
    return o.mods.key() if o.mods is not None else None


def hints_from(obls):
    """scenario hints (module combination, configuration, grid, shape) for the numeric replay"""
    from pydv import terms as T
    out, seen = [], set()
    for o in obls:
        cfg = {}
        for c in o.cond or ():
            neg = c.op == "not"
            a = c.args[0] if neg else c
            if getattr(a, "op", None) != "app":
                continue
            n = a.args[0]
            if n.startswith("flag["):
                cfg[n[5:-1]] = not neg
            elif n.startswith("off["):
                if not neg:
                    cfg[n[4:-1]] = False
            elif n.startswith("is[") and not neg:
                k, v = n[3:-1].split("=", 1)
                cfg[k] = v
        grid = None
        m = o.model
        if m is not None:
            try:
                d = {str(k): m[k] for k in m.decls()}
                def num(x):
                    return float(x.as_fraction()) if hasattr(x, "as_fraction") else float(str(x))
                dt, t0 = num(d["DT"]), int(num(d["T0YEAR"]))
                if 0.4 <= dt <= 40 and 1990 <= t0 <= 2100:
                    grid = (t0, int(t0 + max(2, min(8, num(d.get("TF", 6)))) * dt), round(dt, 3))
            except Exception:   # noqa: BLE001
                grid = None
        key = (mods_of(o), tuple(sorted(cfg.items())), grid)
        if o.mods is None or key in seen or len(out) > 24:
            continue
        seen.add(key)
        for g, sh in (((2020, 2140, 20), "smooth"), ((2020, 2150, 10), "netzero"), (grid or (2025, 2125, 5), "constant")):
            out.append([list(o.mods.key()), cfg, list(g), sh])
    return out


def check_m(rep):
    from pydv import mcheck, smt
    prop = rep.prop
    quick = rep.tier == "quick"
    base = {"props": [prop], "seed": rep.seed, "tier": rep.tier}
    lab = Lab(dict(base, limit=20 if quick else 240), "numlab.py", 100 if quick else 420)
    obls, crashed = [], None
    try:
        with time_limit(240 if quick else 1500):
            ck = mcheck.run({prop})
        obls = ck.obls
        rep.functions |= {q for q in ck.world.executed if "<lambda>" not in q}
    except BaseException as e:   # noqa: BLE001  an error of the engine is never a violation
        if isinstance(e, KeyboardInterrupt):
            raise
        crashed = f"{type(e).__name__}: {str(e)[:300]}"
        rep.note("symbolic run stopped: " + crashed + " " + traceback.format_exc()[-800:])
        rep.add(f"{prop}: symbolic execution", "unsupported", "", crashed)
    for o in obls:
        rep.add(o.id, o.status, o.how or "nf", o.detail or "")
    rep.samples = [{"obligation": o.id, "kind": o.kind, "status": o.status, "by": o.how} for o in obls[:: max(1, len(obls) // 6)]]
    rep.solver = dict(smt.STATS)
    out, log = lab.result()
    bad = [o for o in obls if o.status != "discharged"]
    absorb_m(rep, out, log)
    if (bad or crashed) and not rep.findings:
        hints = hints_from(bad)
        deep = [Lab(dict(base, seed=rep.seed + k, tier="thorough", hints=hints, limit=60 if quick else 300), "numlab.py", 150 if quick else 600)
                for k in (1, 2, 3)]
        for lab in deep:
            absorb_m(rep, *lab.result())
    rep.trusted, rep.assumptions = list(M_TRUST), list(M_ASSUME)
    if prop == "M04":
        rep.known = known_findings("M04")
    # an unknown helper variable between law and constraint: refutation over the known ones proves nothing
    if any(o.status == "failed" for o in obls) and not rep.findings and crashed is None:
        known = mcheck.KNOWN_VARS
        helpers = set()
        try:
            from pydv import pyostub
            for m in pyostub.MODEL_ENV.get("models", [])[-1:]:
                helpers = {n for n, c in m._comps.items() if isinstance(c, pyostub.SVar)} - known
        except Exception:   # noqa: BLE001
            pass
        helpers -= BASE_HELPERS
        if helpers:
            rep.note(f"helper variables {sorted(helpers)}: failed obligations are left open")
            rep.obls = [(i, "open" if s == "failed" else s, h, d) for i, s, h, d in rep.obls]


BASE_HELPERS = set()


def absorb_m(rep, out, log):
    prop = rep.prop
    if out is None:
        rep.note("bounded run gave no result: " + log[-500:])
        return
    b = rep.bounded
    b["what"] = ("BOUNDED (not counted as proved): concrete models built by MIMOSA with 3 regions on sampled configurations; points "
                 "that satisfy every law must satisfy all constraints, points that break a law of the property must not")
    for k in ("points", "checked", "scenarios"):
        b[k] = b.get(k, 0) + out.get(k, 0)
    b["evaluations"] = b["points"]
    b.setdefault("notes", []).extend(out.get("notes", [])[:8])
    for f in out["findings"]:
        if f["property"] == prop:
            rep.finding(f["what"], **{k: v for k, v in f.items() if k != "what"})
    from pydv.mcheck import anchored
    for e in out["errors"]:
        rep.note(f"error in the bounded run: {e.get('error')} {e.get('files')}")
        if e.get("files") and anchored(prop, e["files"]):
            rep.finding(f"the model cannot be built or evaluated: {e['error']}", kind="error", config=e.get("config"),
                        params=e.get("params"), files=e["files"])


# --------------------------------------------------------------------------------------------- other properties
def check_lab(rep, symbolic, modules, trust, assume, what, limit=8, hint=None):
    """obligations from `symbolic()` plus a bounded run of the real code"""
    from pydv import smt
    quick = rep.tier == "quick"
    # the quick run ends after a number of experiments; the limit is for a busy machine
    job = {"property": rep.prop, "modules": modules, "seed": rep.seed, "tier": rep.tier, "limit": 4 * limit if quick else 200}
    lab = Lab(job, "reallab.py", 150 if quick else 500)
    obls, crashed = [], False
    try:
        with time_limit(240 if quick else 1500):
            ck = symbolic()
        obls = ck.obls
        if getattr(ck, "world", None) is not None:
            rep.functions |= {q for q in ck.world.executed if "<lambda>" not in q}
        rep.functions |= set(getattr(ck, "functions", ()))
    except BaseException as e:   # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        rep.note(f"symbolic run stopped: {type(e).__name__}: {str(e)[:300]} " + traceback.format_exc()[-800:])
        rep.add(f"{rep.prop}: symbolic execution", "unsupported", "", str(e)[:300])
        crashed = True
    for o in obls:
        rep.add(o.id, o.status, o.how or "nf", o.detail or "")
    rep.samples = [{"obligation": o.id, "kind": o.kind, "status": o.status, "by": o.how} for o in obls[:: max(1, len(obls) // 6)]]
    rep.solver = dict(smt.STATS)
    rep.trusted, rep.assumptions = list(trust), list(assume)
    rep.bounded["what"] = "BOUNDED (not counted as proved): " + what
    absorb_lab(rep, *lab.result())
    bad = [o for o in obls if o.status != "discharged"]
    if (bad or crashed) and not rep.findings:
        hints = [h for h in (hint(o) for o in bad) if h] if hint else []
        deep = [Lab(dict(job, seed=rep.seed + k, tier="thorough", hints=hints, limit=50 if quick else 200), "reallab.py", 150 if quick else 500)
                for k in (1, 2, 3)]
        for lab in deep:
            absorb_lab(rep, *lab.result())


def absorb_lab(rep, out, log):
    if out is None:
        rep.note("bounded run gave no result: " + log[-500:])
        return
    rep.bounded["evaluations"] = rep.bounded.get("evaluations", 0) + out["evaluations"]
    rep.bounded.setdefault("samples", []).extend(out["samples"][:4])
    for n in out["notes"] + out["errors"]:
        rep.note(n)
    for f in out["findings"]:
        rep.finding(f["what"], **{k: v for k, v in f.items() if k != "what"})


def check_m17(rep):
    from pydv import m17

    def hint(o):
        if o.model is None:
            return None
        d = {str(k): o.model[k] for k in o.model.decls()}
        def num(n):
            z = d.get(n)
            return float(z.as_fraction()) if hasattr(z, "as_fraction") else None
        s = num("scale") or 1.0
        x = num("x") if "x" in d else (num("y") or 0.0) * s / 25
        return {"x": x, "scale": s}
    check_lab(rep, m17.run, ["lab_m17"], M_TRUST[:1] + M_TRUST[2:] + [
        "atan axioms: oddness, u/(1+u^2) < atan u < u and atan u + atan 1/u = pi/2 for u > 0",
        "mean value theorem: a positive derivative means increasing; derivatives of polynomials and atan (pydv/m17.py: diff)",
        "numpy, pandas and pyomo arctan/exp are the mathematical functions, element by element"],
        ["floating point arithmetic is treated as real arithmetic", "scale > 0"],
        "sampled arguments, scales, caps and argument types on the real functions", hint=hint, limit=6)


def check_m18(rep):
    from pydv import m18
    check_lab(rep, m18.run, ["lab_m18"], M_TRUST[:2], ["the model instance is created by pyomo from the abstract model unchanged"],
              "all 72 abstract models of the real code, declared against contained constraints, and unknown module names", limit=14)


DATA_TRUST = [M_TRUST[0],
              "assumed contracts of Python's built-in operations on symbolic strings, lists and dictionaries (pydv/symany.py); any "
              "operation not modelled leaves the obligation open",
              "z3 4.x answers (linear arithmetic, strings, uninterpreted functions)"]


def check_c01(rep):
    from pydv import c01
    check_lab(rep, c01.run, ["lab_c01"], DATA_TRUST + [
        "float() and int() of a text are uninterpreted (converts or not, to which number), evaluated for the literal switch words",
        "contract of Quantity.__call__ for the quantity parser: converts or raises one of pint's errors (decided by C04)"],
        ["an element of a list or dictionary is accepted or rejected by its own parser (recursion over the nesting depth)",
         "a user value is None, a boolean, a number, a text, a list, a dictionary or some other object that is not a number"],
        "every declaration of the shipped template and random declarations of every type against a pool of values of every kind",
        limit=6)


def check_c02(rep):
    from pydv import c02
    check_lab(rep, c02.run, ["lab_c02"], DATA_TRUST, [
        "the traversal of nested dictionaries is covered by induction on the depth: one generic level per path length 0 to 5, the "
        "recursive call replaced by that contract",
        "keys of a symbolic dictionary are pairwise different (Python dictionaries)"],
        "real check_params on configurations with unknown, misspelled, misplaced and joined keys at all depths and on random "
        "configurations of known keys", limit=6)


def check_c03(rep):
    from pydv import c03
    check_lab(rep, c03.run, ["lab_c03"], DATA_TRUST + [
        "assumed contract of the re module on a text made of fixed parts and arbitrary parts without braces: the matches are those of the "
        "fixed parts, the callback is called per match (pydv/c03.py: Pattern)"], [
        "the traversal is covered by induction on the depth: one generic level per path length 0 to 5",
        "parts of a text outside the references hold no braces; a referenced text holds no references itself",
        "a parameter whose value is not set (null) is not a value to substitute"],
        "random parameter trees through the real parse_param_values, and user configurations through MIMOSA.__init__", limit=6)


def check_c04(rep):
    from pydv import c04
    check_lab(rep, c04.run, ["lab_c04"], DATA_TRUST + [
        "assumed contract of pint: Quantity(text), Quantity(value, unit), .to(unit), .magnitude give the exact ratio or raise "
        "UndefinedUnitError / DimensionalityError; element by element for arrays",
        "the definitions in extra_units.txt (compared with an independent table in the bounded run only)"], [
        "the arbitrary parts of a unit text do not contain the alias names, 'year', 'US$' or 't CO2' and are set off from them by operators",
        "floating point arithmetic is treated as real arithmetic"],
        "real quant on random magnitudes, arrays, unit spellings and targets against an independent table of units", limit=6)


INST_TRUST = DATA_TRUST + [
    "assumed contract of pyomo's modelling layer (pydv/pyostub.py) for collecting the declared parameters of the abstract models",
    "contracts of DataStore.interp_data, RegionalParamStore.get/getregional (decided by C07, C08) and Quantity.__call__ (C04)",
]


def check_c05(rep):
    from pydv import c05
    check_lab(rep, c05.run, ["lab_c05"], INST_TRUST, [
        "the horizon is the template's range with end >= start; floating point arithmetic is treated as real arithmetic",
        "pyomo's create_instance stores the instance data it is given (bounded run only)"],
        "parameters of real models of random configurations (2 regions) against an independent reading of template, tables, scenario files "
        "and unit definitions (pydv/truth.py)", limit=6)


def check_c06(rep):
    from pydv import c06
    check_lab(rep, c06.run, ["lab_c06"], INST_TRUST, [
        "end >= start; floating point arithmetic is treated as real arithmetic (a step like 0.7, whose double lies just below the decimal, "
        "may need one period more)", "pyomo's create_instance stores the instance data it is given (bounded run only)"],
        "periods, years and data coverage of real models on fixed and random horizons", limit=6)


def check_c07(rep):
    from pydv import c07
    check_lab(rep, c07.run, ["lab_c07"], DATA_TRUST + [
        "assumed contracts of pandas (read_csv, str.lower, boolean selection, loc/iloc, len), scipy interp1d and numpy concatenate, interp, "
        "arange, maximum/minimum (pydv/ghostdata.py); a cubic interpolant passes through its points",
        "contract of Quantity.__call__ (decided by C04)"], [
        "the years of a file increase, end in 2100 and are at least four; a file does not change while it is in use",
        "one arbitrary earlier store stands for every history: entries are written from the writer's own request only",
        "floating point arithmetic is treated as real arithmetic"],
        "parameters and stores of real models on the shipped and on random scenario files against an independent reading, earlier stores "
        "asked again after later ones", limit=7)


def check_c08(rep):
    from pydv import c08
    check_lab(rep, c08.run, ["lab_c08"], DATA_TRUST + [
        "assumed contracts of pandas for the tables (pydv/c08.py): read_csv, merge, drop, groupby/agg, set_index, loc raise KeyError for a "
        "missing row or column and aggregate the joined rows by the named method"], [
        "a table has one row per region; tables are rectangular: the asked column and one arbitrary other column stand for every column",
        "the fully symbolic case has one mapping; two mappings are run under fixed type names",
        "column names differ from region types; empty cells of a table are not missing entries"],
        "real stores on random tables, mappings and user entries, and models with tables lacking rows, columns or mappings, against an "
        "independent reading", limit=6)


def check_s01(rep):
    from pydv import s01
    check_lab(rep, s01.run, ["lab_s01"], M_TRUST + [
        "assumed contracts of pandas (DataFrame of a dictionary of years, read_csv, boolean selection, drop, set_index, iterrows) and of "
        "scipy's interpolants: through every given point (pydv/s01.py)",
        "contract of extrapolate: keeps the supplied values and appends further years (decided by C07)"], [
        "supplied years increase and are at least four; one label per row; a file does not change while it is in use",
        "deactivation lists are thirds of all constraints of each model, pairs and repetitions: membership is decided per name",
        "what a path says between the supplied years is left to the interpolant"],
        "real models in simulation mode with random paths, files and deactivation lists: active constraints against what was asked", limit=6)


def check_s02(rep):
    from pydv import s02
    check_lab(rep, s02.run, ["lab_s02"], [M_TRUST[0], M_TRUST[3],
        "assumed contract of pyomo's solvers and transformations (pydv/s02.py): a solver fails to run or returns results with one of the five "
        "states and one of the termination conditions; update_variables of the aggregation restores the aggregated variables",
        "contracts of check_params, parse_param_values (C01-C03), get_abstract_model and create_instance (M18, S01) in MIMOSA.__init__"], [
        "earlier attempts leave an arbitrary status behind and the model as preprocessed"],
        "real preprocessed models, local and remote stand-in solvers returning every status and failing, in sequences: outcome, stored status and "
        "tied variables", limit=6)


def check_s03(rep):
    from pydv import s03
    check_lab(rep, s03.run, ["lab_s03"], M_TRUST + [
        "assumed contracts of pandas (a table made of rows and columns; to_csv with a number format), json, hashlib, os.makedirs and open (pydv/s03.py): "
        "what is written is exactly what was passed",
        "pyomo's units are behind get_unit, whose rewriting of the text is decided on a list of unit texts only"], [
        "model variables whose name starts with an underscore (the aggregation's own) are not results",
        "the model has values (saving a model without values raises)"],
        "real models with random values saved under several names and folders in a scratch directory, files read back", limit=6)


def check_s04(rep):
    from pydv import s04
    check_lab(rep, s04.run, ["lab_s04"], DATA_TRUST + [
        "assumed contracts (no effect on the program's own state or on arguments): pandas, numpy, scipy, yaml, json, os, pyomo component constructors, unit "
        "conversion, regional parameter tables in the building sessions, extrapolation, pyomo's create_instance, preprocessing (property S02)",
        "module state is what a walk over the loaded modules' names, classes, defaults, closures and function attributes reaches (pydv/state.py)"], [
        "DataStore's class attributes are the one legitimate cache: an arbitrary request after an arbitrary other one is decided separately",
        "the sessions run a list of configurations (every kind of parameter value, every module option, rejected ones); every operation leaves the modules' state as it "
        "was, so every sequence of these operations is covered by induction"],
        "random sessions of loads, builds, edits and saves on the real code, each model compared with the one a fresh process builds", limit=9)


CHECKS = {f"M{i:02d}": check_m for i in range(1, 17)}
CHECKS.update(M17=check_m17, M18=check_m18, C01=check_c01, C02=check_c02, C03=check_c03, C04=check_c04, C05=check_c05, C06=check_c06, C07=check_c07, C08=check_c08,
              S01=check_s01, S02=check_s02, S03=check_s03, S04=check_s04)


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    print(json.dumps(d, indent=1, default=str)[:6000])
    print("re-running the check that produced it")


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    if "--replay" in sys.argv:
        replay(prop, args[-1])
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    rep = Report(prop, tier, seed)
    try:
        CHECKS[prop](rep)
    except Exception as e:   # noqa: BLE001
        rep.note(f"check stopped: {type(e).__name__}: {e} " + traceback.format_exc()[-1200:])
        rep.add(f"{prop}: check ran to its end", "unsupported", "", str(e)[:300])
    sys.exit(rep.finish())


if __name__ == "__main__":
    main()
