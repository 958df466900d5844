"""M17: contracts of the smooth functions, for all real arguments, scales and caps.

The code's own result terms are the subject: soft_switch(x, s), soft_min(x, s), soft_max(x, cap, s) are executed at symbolic
arguments; every stated property is an inequality over those terms, discharged by z3/cvc5 with the axioms of atan
(instances of  u/(1+u^2) < atan u < u  and  atan u + atan 1/u = pi/2 for u > 0,  oddness).  Monotonicity: the derivative of
the result term (differentiated here) is positive (trusted step: the mean value theorem).
"""
from . import terms as T
from . import smt
from . import engine as E
from . import pyostub as P
from . import mcheck as M
from .terms import Term, Unsupported, num, var, app, fn, lift, And, Or, Not, Implies
from .mcheck import Obl

A0 = num(25)
x, y, s, cap = var("x"), var("y"), var("scale"), var("cap")


def diff(t, v):
    """derivative of a term"""
    if t is v:
        return num(1)
    if v.id not in T.free_set(t):
        return num(0)
    op = t.op
    if op == "add":
        r = num(0)
        for a in t.args:
            r = r + diff(a, v)
        return r
    if op == "mul":
        r = num(0)
        for i, a in enumerate(t.args):
            p = diff(a, v)
            for j, b in enumerate(t.args):
                if j != i:
                    p = p * b
            r = r + p
        return r
    if op == "pow":
        n = T.const_value(t.args[1])
        if n is None:
            raise Unsupported("derivative of a power")
        return num(n) * t.args[0] ** num(n - 1) * diff(t.args[0], v)
    if op == "fn":
        a = t.args[1]
        d = {"atan": lambda: 1 / (1 + a * a), "exp": lambda: t, "log": lambda: 1 / a,
             "tanh": lambda: 1 - t * t, "sqrt": lambda: 1 / (2 * t)}.get(t.args[0])
        if d is None:
            raise Unsupported(f"derivative of {t.args[0]}")
        return d() * diff(a, v)
    if op == "polyatom":
        return diff(T.poly_to_term(t.args[0]), v)
    raise Unsupported(f"derivative of {op}")


def atans(t, out=None):
    out = {} if out is None else out
    if isinstance(t, Term):
        if t.op == "fn" and t.args[0] == "atan":
            out[t.id] = t
        for a in t.args:
            if isinstance(a, Term):
                atans(a, out)
    return out


def axioms(*ts):
    """true facts about the occurring arctangents"""
    out = []
    seen = {}
    for t in ts:
        atans(t, seen)
    h = T.PI / 2
    for a in seen.values():
        u = a.args[1]
        q = 1 + u * u
        # after multiplying out the denominators
        out += [Implies(u > 0, And(u < a * q, a < u, (h - a) * u < num(1), u < (h - a) * q)),
                Implies(u < 0, And(a * q < u, u < a, (h + a) * (-u) < num(1), -u < (h + a) * q)),
                Implies(And(u <= num(0), num(0) <= u), And(a <= num(0), num(0) <= a))]
    return out


def ieq(a, b):
    return And(a <= b, b <= a)


class Typed(P.Ops):
    """a value of a library type: arithmetic keeps the type"""
    __symbolic__ = True

    def __init__(self, t):
        self.t = lift(t)

    def __term__(self):
        return self.t

    def _w(self, t):
        return type(self)(t)


def _typed():
    def mk(name):
        return type(name, (Typed,), {})
    for op in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "neg"):
        n = f"__{op}__"
        base = getattr(P.Ops, n)
        def f(self, *o, base=base):
            o = [z.t if isinstance(z, Typed) else z for z in o]
            return self._w(base(self, *o))
        setattr(Typed, n, f)
    return {n: mk(n) for n in ("float", "int", "ndarray", "Series", "DataFrame", "float64", "int64",
                               "_GeneralVarData", "SumExpression", "MonomialTermExpression", "IndexedVar")}


TYPES = _typed()
PYOMO = {"_GeneralVarData", "SumExpression", "MonomialTermExpression", "IndexedVar"}


def run(repo=None):
    w, params = M.make_world(repo)
    ck = M.Checker(w, [params], [])
    out = ck.obls
    pu = w["mimosa.common.pyomo_utils"]
    P.VAR_APPS.discard("x")

    def ob(id, status, detail=None, how="smt", model=None, kind="contract", cond=()):
        o = Obl(f"M17.{id}", "M17", kind, status=status, detail=detail, how=how)
        o.model, o.cond = model, cond
        out.append(o)

    pos = [s > num(0)]

    def paths(f, *a):
        return E.Explorer(pos).run(lambda: lift(f(*a)))

    def prove(name, hyps, goal, *ts, tmo=15000):
        try:
            r, m = smt.prove(list(hyps) + axioms(*ts), goal, timeout_ms=tmo)
        except Unsupported as e:
            ob(name, "unsupported", str(e))
            return
        st = {"valid": "discharged", "refuted": "failed", "unknown": "open"}[r]
        ob(name, st, None if r == "valid" else f"{T.show(goal)} not implied ({r}) [{m}]"[:900], model=m)

    sub = {x.id: T.canon(y * s / 25)}

    def yform(t):
        """the argument measured in units of the scale: x = y * scale / 25"""
        return T.poly_to_term(T.norm(T.subst(t, sub)))

    # ---------------- soft_switch
    val = {}
    for name, args in (("soft_switch", (x, s)), ("soft_min", (x, s)), ("soft_max", (x, cap, s))):
        f = getattr(pu, name, None)
        if f is None:
            ob(f"{name} exists", "failed", "function not found", how="nf")
            continue
        ps = paths(f, *args)
        bad = [p for p in ps if p.kind != "return"]
        if bad:
            ob(f"{name} returns a value for every argument and scale", "unsupported" if bad[0].kind == "unsupported" else
               "failed", f"{type(bad[0].value).__name__}: {bad[0].value} when {[T.show(c) for c in bad[0].cond]}", how="nf",
               cond=bad[0].cond)
        else:
            ob(f"{name} returns a value for every argument and scale", "discharged", how="nf")
        val[name] = [(p.cond, p.value) for p in ps if p.kind == "return"]
    a = 25 / s
    err = s / (25 * T.PI)
    for k, (cond, v) in enumerate(val.get("soft_switch", ())):
        tag = f" (path {k})" if k else ""
        vy = yform(v)
        cy = pos + [T.subst(c, sub) for c in cond]
        prove(f"soft_switch lies strictly between 0 and 1{tag}", cy, And(num(0) < vy, vy < num(1)), vy)
        v0 = yform(T.subst(v, {x.id: num(0)}))
        if not any(x.id in T.free_set(c) for c in cond):
            prove(f"soft_switch is 1/2 at 0{tag}", cy, ieq(v0, num(1) / 2), v0)
        # distance to the step: at most 1/(pi |y|)
        prove(f"soft_switch tends to 1 above{tag}", cy + [y > 0], And(1 - vy > 0, (1 - vy) * T.PI * y < num(1)), vy)
        prove(f"soft_switch tends to 0 below{tag}", cy + [y < 0], And(vy > 0, vy * T.PI * (-y) < num(1)), vy)
        try:
            d = T.poly_to_term(T.norm(diff(vy, y)))
            prove(f"soft_switch increases{tag}", cy, d > num(0), d)
        except Unsupported as e:
            ob(f"soft_switch increases{tag}", "unsupported", str(e))
    for k, (cond, v) in enumerate(val.get("soft_min", ())):
        tag = f" (path {k})" if k else ""
        # per unit of scale: soft_min(y*scale/25)*25/scale
        w_ = yform(v * a)
        cy = pos + [T.subst(c, sub) for c in cond]
        prove(f"soft_min is positive{tag}", cy, w_ > num(0), w_)
        prove(f"soft_min is within scale/(25 pi) above max(x,0), x>=0{tag}", cy + [y >= num(0)],
              And(w_ - y >= num(0), (w_ - y) * T.PI <= num(1)), w_)
        prove(f"soft_min is within scale/(25 pi) above max(x,0), x<=0{tag}", cy + [y <= num(0)],
              And(w_ >= num(0), w_ * T.PI <= num(1)), w_)
        prove(f"soft_min tends to x above{tag}", cy + [y > num(0)], (w_ - y) * T.PI * (1 + y * y) < num(1), w_)
        prove(f"soft_min tends to 0 below{tag}", cy + [y < num(0)], w_ * T.PI * (1 + y * y) < num(1), w_)
        try:
            d = T.poly_to_term(T.norm(diff(w_, y)))
            ob_y = 1 + y * y
            prove(f"soft_min increases{tag}", cy, d > num(0), d)
        except Unsupported as e:
            ob(f"soft_min increases{tag}", "unsupported", str(e))
    # ---------------- soft_max mirrors soft_min
    for i, (c1, v) in enumerate(val.get("soft_max", ())):
        ps = paths(pu.soft_min, cap - x, s) if hasattr(pu, "soft_min") else []
        for p in ps:
            if p.kind != "return" or smt.sat(pos + c1 + p.cond) == "unsat":
                continue
            want = cap - p.value
            if M.same_rel(app("_x") == v, app("_x") == want):
                ob("soft_max is the mirrored soft_min", "discharged", how="nf")
            else:
                prove("soft_max is the mirrored soft_min", pos + c1 + p.cond, ieq(v, want), v, want)
    # ---------------- defaults
    for name, args, full in (("soft_switch", (x,), (x, num(1))), ("soft_min", (x,), (x, num(1))),
                             ("soft_max", (x, cap), (x, cap, num(1)))):
        f = getattr(pu, name, None)
        if f is None:
            continue
        p1, p2 = paths(f, *args), paths(f, *full)
        ok = len(p1) == len(p2) == 1 and p1[0].kind == p2[0].kind == "return" and \
            M.same_rel(app("_x") == p1[0].value, app("_x") == p2[0].value)
        ob(f"{name} without a scale uses scale 1", "discharged" if ok else "failed", how="nf")
    # ---------------- the same value for numbers, arrays, tables and model expressions
    for name in ("soft_switch", "soft_min", "soft_max", "atan", "exp"):
        f = getattr(pu, name, None)
        if f is None:
            continue
        plain = {"soft_switch": (x, s), "soft_min": (x, s), "soft_max": (x, cap, s)}.get(name, (x,))
        ref = paths(f, *plain)
        for tn, cls in TYPES.items():
            arg = (cls(x),) + plain[1:]
            if tn in PYOMO:
                P.VAR_APPS.add("xvar")
                P._hv.clear()
                arg = (cls(app("xvar")),) + plain[1:]
                sb = {app("xvar").id: x}
            ps = E.Explorer(pos).run(lambda: lift(getattr(f(*arg), "t", None) if isinstance(f(*arg), Typed) else f(*arg)))
            st, det = "discharged", None
            for p in ps:
                if p.kind == "unsupported":
                    st, det = "unsupported", str(p.value)
                    break
                if p.kind == "raise":
                    st, det = "failed", f"{tn}: {type(p.value).__name__}: {p.value}"
                    break
                v = p.value
                if tn in PYOMO:
                    v = M.term_map(v, lambda z: x if z is app("xvar") else None)
                for q in ref:
                    if smt.sat(pos + p.cond + q.cond) == "unsat":
                        continue
                    if q.kind != "return" or not M.same_rel(app("_x") == v, app("_x") == q.value):
                        st, det = "failed", f"{tn}: {T.show(v)}, for a number {T.show(q.value) if q.kind == 'return' else q.value}"
            ob(f"{name} of a {tn} has the value it has for a number", st, det, how="nf")
        P.VAR_APPS.discard("xvar")
        P._hv.clear()
    fv = {"atan": "atan", "exp": "exp"}
    for name, g in fv.items():
        f = getattr(pu, name, None)
        if f is None:
            continue
        ps = paths(f, x)
        ok = len(ps) == 1 and ps[0].kind == "return" and ps[0].value is fn(g, x)
        ob(f"{name} is the {g} function", "discharged" if ok else "failed", None if ok else str(ps), how="nf")
    # vacuity: the atan axioms are consistent with a positive, a negative and a zero argument
    t = fn("atan", y)
    for nm, c in (("y>0", y > num(0)), ("y<0", y < num(0)), ("y=0", ieq(y, num(0)))):
        r = smt.sat(pos + axioms(t) + [c], 8000)
        ob(f"cover: axioms satisfiable with {nm}", "discharged" if r == "sat" else "open", r, kind="cover")
    ck.wall = 0
    return ck
