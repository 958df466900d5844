"""Contracts of functions with several outcomes: for every path of the real code and every clause of the contract one
obligation `path condition => outcome is what the contract says`."""
from . import terms as T
from . import smt
from . import engine as E
from .terms import Term, Unsupported, And, Or, Not, TRUE, FALSE
from .mcheck import Obl
from .engine import of_engine
from .state import Keep

# exceptions that an engine artefact could produce: never taken as a definite refutation on their own
ARTEFACT = (AttributeError, NameError, AssertionError, NotImplementedError, SystemError, RecursionError)


class Suite:
    def __init__(self, prop, world):
        self.prop, self.world = prop, world
        self.obls = []
        self.functions = set()

    def add(self, id, status, how="", detail="", kind="post", model=None, data=None):
        o = Obl(f"{self.prop}: {id}", self.prop, kind, status=status, how=how, detail=str(detail)[:600])
        o.model = model
        o.mods = data
        self.obls.append(o)
        return o

    def section(self, f, *a):
        """one group of contracts; code it cannot run (renamed functions, ...) leaves it open"""
        try:
            return f(self, *a)
        except Exception as e:   # noqa: BLE001
            import traceback
            self.world.summaries.clear()
            self.add(f.__name__, "unsupported", "", f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
            return None

    def holds(self, id, hyps, goal, detail="", data=None, timeout=4000, soft=False):
        """one obligation hyps |- goal"""
        if isinstance(goal, Unsupported):
            return self.add(id, "unsupported", "", f"{detail} {goal}", data=data)
        goal = T.B(goal) if isinstance(goal, (bool, Term)) else goal
        hyps = [T.B(h) for h in hyps]
        goal = T.simp_bool(goal)
        if goal.op == "true":
            return self.add(id, "discharged", "nf", detail, data=data)
        try:
            r, m = smt.prove(hyps, goal, timeout)
        except Unsupported as e:
            return self.add(id, "unsupported", "", f"{detail} {e}", data=data)
        if r == "valid":
            return self.add(id, "discharged", "smt", detail, data=data)
        st = "failed" if r == "refuted" and not soft else "open"
        mm = ""
        if m is not None:
            try:
                mm = "; ".join(f"{d} = {m[d]}" for d in list(m.decls())[:8])
            except Exception:   # noqa: BLE001
                pass
        return self.add(id, st, "", f"{detail} not proved: {goal} under {[str(h) for h in hyps][-8:]}; model: {mm}", model=m, data=data)

    def paths(self, id, thunk, assume=(), max_paths=400):
        ex = E.Explorer([a for a in assume], max_paths=max_paths)
        keep = Keep(self.world)        # no path may see what an earlier one left in the modules

        def one():
            keep.restore()
            return thunk()
        try:
            return ex.run(one)
        except Unsupported as e:
            return [E.Path([], "unsupported", e)]
        except E.PathLimit as e:
            return [E.Path([], "unsupported", e)]
        finally:
            keep.restore()
            keep.alive = False

    def case(self, id, thunk, post, assume=(), data=None, want=(), max_paths=400):
        """post(path) -> Term/bool or list of (label, Term/bool): what must hold on every path.  `want`: outcomes (return,
        raise) that must be possible, so that the contract is not met vacuously"""
        seen = set()
        ps = self.paths(id, thunk, assume, max_paths)
        for n, p in enumerate(ps):
            tag = id if len(ps) == 1 else f"{id} #{n}"
            if p.kind == "unsupported":
                self.add(tag, "unsupported", "", p.value, data=data)
                seen |= {"return", "raise"}
                continue
            hyps = list(assume) + list(p.cond)
            try:
                goals = post(p)
            except Unsupported as e:
                self.add(tag, "unsupported", "", f"{e}", data=data)
                seen |= {"return", "raise"}
                continue
            if goals is None:
                continue
            if not isinstance(goals, list):
                goals = [("", goals)]
            seen.add(p.kind)
            what = f"{p.kind} {rep(p.value)}"[:160]
            for lab, g in goals:
                self.holds(f"{tag} {lab}".strip(), hyps, g, f"outcome {what}", data=data,
                           soft=p.kind == "raise" and (isinstance(p.value, ARTEFACT + tuple(getattr(self, "artefact", ()))) or of_engine(p.value)))
        for w in want:
            if w not in seen:
                self.add(f"{id}: {w} is reachable", "open", "", "no path with this outcome", kind="cover", data=data)
            else:
                self.add(f"{id}: {w} is reachable", "discharged", "cover", kind="cover", data=data)
        return ps


def rep(x):
    try:
        return repr(x)
    except BaseException:   # noqa: BLE001
        return f"<{type(x).__name__}>"
