"""C06: contract of the time grid: InstantiatedModel._set_instance_data_main and DataStore._create_data_years on a symbolic horizon"""
from . import terms as T
from . import engine as E
from . import mcheck as M
from . import laws as L
from .contract import Suite
from .inst import Instance, declared, summaries, scalar, grid, HORIZON, START, END, DT
from .c05 import over, DATA
from .symany import SymDict, Ghost
from .terms import num, var, And, Or, Implies, TRUE, FALSE, Unsupported, lift, Term


def run(repo=None):
    w, params = M.make_world(repo)
    s = Suite("C06", w)
    tpl = M.load_template(w.repo)
    summaries(w)
    docs = declared(w, L.all_mods())
    s.section(horizon, w, tpl, docs)
    s.section(years_of_data, w)
    w.summaries.clear()
    return s


def year2100(repo=None):
    """the parameter year2100, for the models whose constraints look at it"""
    w, params = M.make_world(repo)
    s = Suite("C06", w)
    tpl = M.load_template(w.repo)
    summaries(w)
    docs = declared(w, L.all_mods()[:1])

    def case(s):
        inst = Instance(w, tpl, docs, over(0.5, True, "kappa_rel_abatement_0.75_2050", False, "COACCH"))

        def post(p):
            if p.kind != "return":
                return FALSE
            y = lift(scalar(p.value.instance_data[None]["year2100"]))
            left = num(2100) - START
            return [("year2100 is a whole number of steps, zero or more", And(y >= 0, T.B(y.sort == "I"))),
                    ("year2100 is the last period up to 2100", And(y * DT <= left, left < (y + 1) * DT))]
        s.case("year2100", lambda: inst.go(w), post, HORIZON, want=("return",))
    s.section(case)
    w.summaries.clear()
    return s


def as_range(x):
    """numbers 0..n-1 -> condition builder"""
    if isinstance(x, E.SymIter) and not x.conds and isinstance(x.domain, tuple) and x.domain[0] == "range":
        lo, hi = x.domain[1], x.domain[2]
        j = var("anyindex", "I")
        return lambda n: And(hi - lo == n, Implies(And(lo <= j, j < hi), E.subst_any(lift(x.elem), {x.bv.id: j}) == j - lo))
    raise Unsupported(f"periods {x!r}")


def same_regions(x, regions):
    """the keys of the configured regions, in any container"""
    if x is regions:
        return TRUE
    if isinstance(x, E.SymIter) and not x.conds and isinstance(x.domain, tuple) and x.domain[0] == "range":
        i = var("anyregion", "I")
        k = E.subst_any(x.elem, {x.bv.id: i})
        return And(x.domain[1] == 0, x.domain[2] == regions.n, Implies(And(num(0) <= i, i < regions.n), regions.key(i).same(k)))
    raise Unsupported(f"regions {x!r}")


def horizon(s, w, tpl, docs):
    for damage in ("COACCH", "nodamage"):
        for comb in (True, False):
            inst = Instance(w, tpl, docs, over(0.5, True, "kappa_rel_abatement_0.75_2050", comb, damage))

            def post(p):
                if p.kind != "return":
                    return FALSE
                d = p.value.instance_data[None]
                N = lift(scalar(d["tf"]))
                t = var("t", "I")
                out = [("the number of steps is a whole number, zero or more", And(N >= 0, T.B(N.sort == "I"))),
                       ("the last period reaches the end", START + N * DT >= END),
                       ("no period lies a full step beyond the end", START + (N - 1) * DT < END),
                       ("the periods are 0 to N", as_range(scalar(d["t"]))(N + 1)),
                       ("the first year", lift(scalar(d["beginyear"])) == START),
                       ("the step", lift(scalar(d["dt"])) == DT),
                       ("the regions", same_regions(scalar(d["regions"]), inst.regions))]
                year = inst.abstract.year
                if year is None:
                    raise Unsupported("where the model's year is kept")
                out.append(("the year of a period", lift(year(t)) == START + t * DT))
                for n, v in DATA.items():
                    if n not in d:
                        out.append((f"{n} has data", FALSE))
                        continue
                    g = grid(d[n], inst.regions, N, lambda t, r, x: TRUE)
                    out += [(f"{n} {a}", b) for a, b in (g if isinstance(g, list) else [("", g)])]
                return out
            s.case(f"{damage}, combined {comb}", lambda: inst.go(w), post, HORIZON, want=("return",))
    s.holds("the horizons are not empty (cover)", [], T.B(True))


def years_of_data(s, w):
    """the years of the data cover all years of the model"""
    params = {"time": {"start": START, "end": END, "dt": DT}, "input": {"variables": {}}, "regions": SymDict("regions"), "SSP": Ghost("SSP")}

    def post(p):
        if p.kind != "return":
            return FALSE
        y = p.value.data_years
        if not (isinstance(y, E.SymIter) and not y.conds and isinstance(y.domain, tuple) and y.domain[0] == "range"):
            raise Unsupported(f"years of the data {y!r}")
        N, i, k = var("N", "I"), var("i", "I"), var("k", "I")
        hyps = And(N >= 0, START + (N - 1) * DT < END)
        lo, hi = y.domain[1], y.domain[2]
        at = lambda j: lift(E.subst_any(y.elem, {y.bv.id: lo + j}))     # noqa: E731
        return [("start in the first year", And(lo < hi, at(num(0)) == START)),
                ("go on beyond the last period", Implies(And(hyps, (hi - lo - 1) == k), at(k) >= START + N * DT)),
                ("have the model's step", Implies(And(num(0) <= i, i < hi - lo), at(i) == START + i * DT))]
    s.case("years of the data", lambda: w["mimosa.common.data.datastore"].DataStore(params), post, HORIZON)
