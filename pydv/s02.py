"""S02: contracts of MIMOSA.__init__, preprocessing, solve and postprocessing against an arbitrary solver.

The real methods run with a solver that may return any status and termination condition or fail itself; the model is a ghost
whose effects (transformations, solves, restorations, reads of results) are recorded in order."""
import enum
import logging

from . import terms as T
from . import engine as E
from . import pyostub as P
from . import ghostdata as G
from .contract import Suite
from .symany import Base, Ghost, SymStr, slit
from .terms import num, var, app, And, Or, Not, Implies, TRUE, FALSE, Unsupported

MM = "mimosa.mimosa"
AGG = "contrib.aggregate_vars"


class SolverStatus(str, enum.Enum):
    """pyomo's solver states"""
    ok = "ok"
    warning = "warning"
    error = "error"
    aborted = "aborted"
    unknown = "unknown"

    def __str__(self):
        return self.value


class TerminationCondition(str, enum.Enum):
    optimal = "optimal"
    feasible = "feasible"
    globallyOptimal = "globallyOptimal"
    locallyOptimal = "locallyOptimal"
    maxTimeLimit = "maxTimeLimit"
    maxIterations = "maxIterations"
    maxEvaluations = "maxEvaluations"
    minFunctionValue = "minFunctionValue"
    minStepLength = "minStepLength"
    unbounded = "unbounded"
    infeasible = "infeasible"
    infeasibleOrUnbounded = "infeasibleOrUnbounded"
    invalidProblem = "invalidProblem"
    intermediateNonInteger = "intermediateNonInteger"
    noSolution = "noSolution"
    solverFailure = "solverFailure"
    internalSolverError = "internalSolverError"
    error = "error"
    userInterrupt = "userInterrupt"
    resourceInterrupt = "resourceInterrupt"
    licensingProblems = "licensingProblems"
    other = "other"
    unknown = "unknown"
    convergenceCriteriaSatisfied = "convergenceCriteriaSatisfied"

    def __str__(self):
        return self.value


class ApplicationError(Exception):
    """what pyomo raises when a solver cannot be run"""


def pick(name, options):
    """one of the options, any of them"""
    options = list(options)
    for o in options[:-1]:
        if T.decide(app(f"{name} is {o}", sort="B")):
            return o
    return options[-1]


class Trace:
    def __init__(self):
        self.events = []
        self.solves = 0

    def add(self, what, *data):
        self.events.append((what,) + data)


class Part(Base):
    """a piece of the model's results"""
    PY = object

    def __init__(self, model, what):
        self.model, self.what = model, what

    def __repr__(self):
        return f"{self.what} of the model"

    def __vc_getitem__(self, k):
        return Part(self.model, f"{self.what}[..]")

    def read(self):
        self.model.trace.add("read", self.model, self.what)
        return T.fresh("result", "R")

    def __call__(self, *a, **k):
        return self.read()

    @property
    def value(self):
        return self.read()


class Model(Base):
    PY = object

    def __init__(self, trace):
        object.__setattr__(self, "trace", trace)

    def __repr__(self):
        return "the model"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Part(self, n)

    def __setattr__(self, n, v):
        raise Unsupported(f"setting {n} of the model")


class Solver(Base):
    PY = object

    def __init__(self, state, kind, name):
        self.__dict__.update(state=state, kind=kind, name=name, options=Options(), config=Options())

    def __repr__(self):
        return f"{self.kind} solver"

    def available(self, *a, **k):
        return T.decide(app(f"{self.kind} is available", sort="B"))

    def solve(self, model, *a, **k):
        st = self.state
        tr = st["trace"]
        if not isinstance(model, Model):
            raise Unsupported("what is solved")
        tr.solves += 1
        n = tr.solves
        if T.decide(app(f"solver {n} fails to run", sort="B")):
            tr.add("no solve", model)
            raise ApplicationError("No executable found for solver")
        tr.add("solve", model)
        r = Results(n)
        st["results"] = r
        return r


class Options(dict):
    __symbolic__ = True

    def __vc_setitem__(self, k, v):
        dict.__setitem__(self, str(k), v)


class SolverInfo(Base):
    PY = object

    def __init__(self, n):
        self.__dict__.update(n=n, memo={})

    def _get(self, what, opts):
        if what not in self.memo:
            self.memo[what] = pick(f"{what} {self.n}", opts)
        return self.memo[what]

    @property
    def status(self):
        return self._get("status", SolverStatus)

    @property
    def termination_condition(self):
        return self._get("termination condition", TerminationCondition)

    @property
    def message(self):
        return "message of the solver"

    time = wallclock_time = 1.5


class Results(Base):
    PY = object

    def __init__(self, n):
        self.__dict__.update(n=n, solver=SolverInfo(n))

    def __vc_getitem__(self, k):
        if k == "Solver":
            return [{"Status": self.solver.status, "Termination condition": self.solver.termination_condition}]
        raise Unsupported(f"{k} of the results")


class Transformation(Base):
    PY = object

    def __init__(self, state, name):
        self.__dict__.update(state=state, name=name)

    def apply_to(self, model, **k):
        if not isinstance(model, Model):
            raise Unsupported("what is transformed")
        self.state["trace"].add("apply", model, self.name)

    def update_variables(self, model):
        if not isinstance(model, Model) or self.name != AGG:
            raise Unsupported("what is restored")
        self.state["trace"].add("restore", model)


class Regions(Base):
    """any positive number of regions"""
    PY = dict

    def __vc_len__(self):
        return var("nregions", "I")

    def __bool__(self):
        return True

    def __repr__(self):
        return "regions"


class Factory(Base):
    PY = object

    def __init__(self, f):
        self.f = f

    def __call__(self, name, *a, **k):
        if not isinstance(name, str) or a or k:
            raise Unsupported("use of a factory")
        return self.f(name)


def make_world(repo=None):
    P.VAR_APPS.clear()
    P._hv.clear()
    E.Explorer.guard = None
    st, log, pd = G.stubs()
    state = {"trace": Trace()}
    env = st["pyomo.environ"]

    def solver(kind):
        def f(name):
            if name not in ("ipopt", "conopt", "neos", "asl:ipopt", "appsi_ipopt"):
                raise Unsupported(f"solver {name}")
            return Solver(state, kind, name)
        return f

    def val(x, *a, **k):
        if isinstance(x, Part):
            return x.read()
        return x

    def optimal(r):
        tc = TerminationCondition
        return r.solver.status == SolverStatus.ok and r.solver.termination_condition in (
            tc.feasible, tc.optimal, tc.locallyOptimal, tc.globallyOptimal, tc.convergenceCriteriaSatisfied)

    def check_optimal(r):
        if not optimal(r):
            raise RuntimeError("Solver failed to return an optimal solution.")
    env.__dict__.update(SolverStatus=SolverStatus, TerminationCondition=TerminationCondition, SolverFactory=Factory(solver("local")),
                        SolverManagerFactory=Factory(solver("remote")), TransformationFactory=Factory(lambda n: Transformation(state, n)),
                        value=val, check_optimal_termination=optimal, assert_optimal_termination=check_optimal)
    opt = P.Namespace("pyomo.opt", SolverStatus=SolverStatus, TerminationCondition=TerminationCondition,
                      check_optimal_termination=optimal, assert_optimal_termination=check_optimal)
    opt.base = P.Namespace("pyomo.opt.base", solvers=st["pyomo.opt.base.solvers"])
    st["pyomo.opt"], st["pyomo.opt.base"] = opt, opt.base
    st["pyomo.common.errors"] = P.Namespace("pyomo.common.errors", ApplicationError=ApplicationError)
    st["os"].environ = Options()
    w = E.World(st, repo)
    w.loop_specs, w.loop_proofs = [], []
    w.state = state
    return w


def fresh(w):
    """a MIMOSA object made by the real __init__ and preprocessing, creation of the model by contract"""
    tr = w.state["trace"] = Trace()
    w.state["results"] = None
    params = {"regions": Regions()}
    model = Model(tr)
    w.summaries["mimosa.common.config.parseconfig.check_params"] = lambda p, *a, **k: (params, Ghost("tree"))
    w.summaries["mimosa.common.config.parseconfig.parse_param_values"] = lambda p: p
    w.summaries[MM + ".MIMOSA.get_abstract_model"] = lambda self: Ghost("abstract model")

    def create(self):
        tr.add("create", model)
        return model
    w.summaries[MM + ".MIMOSA.create_instance"] = create
    o = w[MM].MIMOSA({"regions": {}})
    return o, tr, model


NREG = [num(1) <= var("nregions", "I")]


class Old(Ghost):
    """the status left by earlier attempts"""


def attempt(w, kw, before=None):
    """one solve, possibly after an earlier one"""
    o, tr, model = fresh(w)
    pre = list(tr.events)
    old = None
    if before is not None:
        old = before(o, tr)
    k0 = len(tr.events)
    w.state["results"] = None
    err = None
    had = dict(o.__dict__)
    try:
        o.solve(**kw())
    except (Unsupported, E.PathLimit):
        raise
    except Exception as e:   # noqa: BLE001
        err = e
    w.state.setdefault("changed", set()).update(k for k, x in o.__dict__.items() if k not in had or had[k] is not x)
    return o, model, pre, tr.events[k0:], err, old, w.state["results"], o.__dict__.get("status", "missing")


def clauses(v):
    o, model, pre, ev, err, old, res, status = v
    if o.concrete_model is not model:
        raise Unsupported("another model")
    out = []
    solves = [i for i, e in enumerate(ev) if e[0] == "solve"]
    tried = [i for i, e in enumerate(ev) if e[0] in ("solve", "no solve")]
    aggregated = any(e[0] == "apply" and e[2] == AGG for e in pre)
    restores = [i for i, e in enumerate(ev) if e[0] == "restore"]
    reads = [i for i, e in enumerate(ev) if e[0] == "read"]
    out.append(("several regions are preprocessed", Implies(var("nregions", "I") >= 2, TRUE if aggregated else FALSE)))
    if res is not None:
        st = res.solver.status
        ok = st is SolverStatus.ok
        if err is None:
            out.append(("returns only if the status is OK", TRUE if ok else FALSE))
        elif not isinstance(err, (AttributeError, NameError, KeyError)):
            out.append(("raises only if the status is not OK", FALSE if ok else TRUE))
        out.append(("stored status is that of the attempt", TRUE if status == st else FALSE))
        if aggregated:
            last = max(solves)
            good = [i for i in restores if i > last]
            out.append(("aggregated variables are restored after the solve", TRUE if good else FALSE))
            if good:
                out.append(("and before results are read", TRUE if all(i > min(good) for i in reads if i > last) else FALSE))
        else:
            out.append(("nothing to restore", FALSE if restores else TRUE))
    else:
        if tried or err is not None:
            out.append(("a solver that fails to run is an error", TRUE if err is not None else FALSE))
        else:
            out.append(("something is solved", FALSE))
        out.append(("no status of an earlier attempt is kept", TRUE if status is not old and not isinstance(status, (Old, SolverStatus)) or
                    status not in (SolverStatus.ok,) and not isinstance(status, Old) else FALSE))
    return out


def local():
    return {"verbose": T.decide(app("verbose", sort="B")), "ipopt_maxiter": var("maxiter", "I") if T.decide(app("maxiter given", sort="B")) else None,
            "ipopt_output_file": SymStr("output file") if T.decide(app("output file given", sort="B")) else None}


def remote():
    return {"use_neos": True, "neos_email": SymStr("email")}


def defaults():
    return {}


def remote_more():
    return {"use_neos": True, "neos_email": SymStr("email"), "verbose": False, "ipopt_maxiter": 100}


def run(repo=None):
    logging.disable(logging.CRITICAL)
    w = make_world(repo)
    s = Suite("S02", w)
    s.section(one, w)
    s.section(again, w)
    w.summaries.clear()
    return s


def post(p):
    if p.kind == "raise":
        raise Unsupported(f"construction: {type(p.value).__name__}: {p.value}")
    return clauses(p.value)


def one(s, w):
    for kw in (local, defaults, remote, remote_more):
        ps = s.case(f"solve {kw.__name__}", lambda: attempt(w, kw), post, NREG, want=("return",), max_paths=2000)
        seen = {(v[6].solver.memo.get("status"), v[4] is None) for v in (p.value for p in ps if p.kind == "return") if v[6] is not None}
        for st in SolverStatus:
            s.add(f"{kw.__name__}: status {st} is possible", "discharged" if any(a is st for a, _ in seen) else "open", "cover", kind="cover")


def again(s, w):
    """an attempt after attempts and savings that left arbitrary values behind in every attribute they write"""
    w.summaries["mimosa.export.save.save_output"] = lambda *a, **k: None

    def left(o, tr):
        had = dict(o.__dict__)
        o.save(SymStr("file name"))
        changed = w.state.get("changed", set()) | {k for k, x in o.__dict__.items() if k not in had or had[k] is not x} | {"status"}
        for k in sorted(changed):
            setattr(o, k, Old(f"earlier {k}"))
        return o.status

    for kw in (defaults, remote):
        s.case(f"solve {kw.__name__} after any attempts", lambda: attempt(w, kw, left), post, NREG, want=("return",), max_paths=2000)
