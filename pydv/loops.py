"""Summaries of loops over symbolic collections.

A loop `for x in S: BODY` is replaced by the state it provably leaves: unchanged variables, last values, accumulated
sums (post - pre independent of the accumulators), appended segments, and recurrences.  A recurrence is only accepted
against a candidate invariant `v == spec(k)` from a contract (world.loop_specs), proved by induction here: base case on
the first iteration (peeled), step on a generic iteration.
"""
import types

from . import terms as T
from .terms import Term, Unsupported, And, Not, lift, num, fresh, norm
from . import smt


class Segment:
    """`[elem for bv in domain if conds]` spliced into a list or dict"""
    __symbolic__ = True

    def __init__(self, domain, bv, elem, conds=()):
        self.domain, self.bv, self.elem, self.conds = domain, bv, elem, tuple(conds)

    def __repr__(self):
        return f"Segment({self.domain}, {self.elem})"

    def __subst__(self, s):
        from .engine import subst_any
        d = tuple(T.subst(y, s) if isinstance(y, Term) else y for y in self.domain) if isinstance(self.domain, tuple) else self.domain
        s = {k: v for k, v in s.items() if k != self.bv.id}
        return Segment(d, self.bv, subst_any(self.elem, s), [T.subst(c, s) for c in self.conds])


class Frame:
    def __init__(self):
        self.local = _Local()
        self.muts = []

    def mutate(self, obj, meth, a, k):
        if meth in ("append", "setitem", "add", "extend", "update"):
            self.muts.append((obj, meth, a))
            return None
        raise Unsupported(f"{meth} on an outer collection inside a symbolic loop")


class _Local:
    """ids of collections created inside the loop body: approximated as collections not reachable before the loop"""

    def __init__(self):
        self.known = None

    def __contains__(self, i):
        return self.known is not None and i not in self.known


def _reachable(body, vals):
    """ids of the lists/dicts/sets visible to the body from outside (closure cells and loop state)"""
    seen = set()
    todo = list(vals)
    for c in body.__closure__ or ():
        try:
            todo.append(c.cell_contents)
        except ValueError:
            pass
    todo.append(body.__globals__)
    n = 0
    while todo and n < 200000:
        n += 1
        x = todo.pop()
        if id(x) in seen:
            continue
        if isinstance(x, dict):
            seen.add(id(x))
            if n < 3 or len(x) < 5000:
                todo.extend(v for v in dict.values(x) if isinstance(v, (dict, list, set, tuple)) or hasattr(v, "__dict__"))
        elif isinstance(x, (list, set, tuple)):
            seen.add(id(x))
            it = list.__iter__(x) if isinstance(x, list) else set.__iter__(x) if isinstance(x, set) else x
            todo.extend(v for v in it if isinstance(v, (dict, list, set, tuple)) or hasattr(v, "__dict__"))
        elif isinstance(x, types.FunctionType):
            seen.add(id(x))
            for c in x.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif hasattr(x, "__dict__") and not isinstance(x, type) and type(x).__name__ not in ("module", "World", "Runtime", "function"):
            seen.add(id(x))
            todo.append(vars(x))
    return seen


def symbolic_loop(rt, si, body, names, vals, has_else, qual, lineno):
    from .engine import Undef, sub_explore, subst_any, mentions, is_symbolic
    if has_else:
        raise Unsupported("for-else over a symbolic collection")
    vals = list(vals)
    try:
        return _attempt(rt, si, body, names, vals, None)
    except Unsupported as e:
        if not (isinstance(si.domain, tuple) and si.domain[0] == "range") or si.conds:
            raise
        first = e
    # peel the first iteration
    lo, hi = si.domain[1], si.domain[2]
    if not T.decide(lo < hi):
        return ("cont", tuple(vals))
    r = body(subst_any(si.elem, {si.bv.id: lo}), *vals)
    if r[0] == "return":
        return r
    if r[0] == "break":
        return ("cont", r[1])
    from .engine import SymIter
    vals1 = list(r[1])
    dom = ("range", T.canon(lo + 1), hi)
    return _attempt(rt, SymIter(dom, si.bv, si.elem), body, names, vals1, lo)


def _attempt(rt, si, body, names, vals, peeled):
    from .engine import Undef, sub_explore, subst_any, mentions, is_symbolic
    state = []
    accs = []
    for n, v in zip(names, vals):
        lv = None if isinstance(v, (Undef, str)) or v is None else (lift(v) if not isinstance(v, bool) else None)
        if isinstance(lv, Term) and lv.sort in ("R", "I"):
            f = fresh("acc_" + n, "R")
            accs.append(f)
            state.append(f)
        else:
            state.append(v)
    frame = Frame()
    frame.local.known = _reachable(body, vals)
    rt.frames.append(frame)
    logs = []

    def run():
        frame.muts = []
        r = body(si.elem, *state)
        logs.append(list(frame.muts))
        return r, list(frame.muts)

    try:
        paths = sub_explore(run, list(si.facts()) + list(si.conds))
    finally:
        rt.frames.pop()
    from .engine import some_raise
    for p in paths:
        if p.kind == "unsupported":
            raise Unsupported(f"symbolic loop body: {p.kind} {p.value}")
        if p.kind == "raise" and any(f.id in T.free_set(c) for f in accs for c in p.cond):
            raise Unsupported("exception in a symbolic loop depends on an accumulator")
    paths = some_raise(si, paths)
    if not paths:
        return ("cont", tuple(vals))
    for p in paths:
        if p.value[0][0] != "cont":
            raise Unsupported("symbolic loop with break/return")
    if len(paths) > 1:
        return _multi(rt, si, paths, names, vals, state, accs)
    (kind, post), muts = paths[0].value
    scans = getattr(rt.world, "scans", None)
    if scans is not None and not si.conds and isinstance(si.domain, tuple) and si.domain[0] == "range" and any(
            mentions(x, f) for _, _, a in muts for x in a for f in accs):
        return _scan(rt, si, names, vals, state, list(post), muts, accs, scans)
    out = finish(rt, si, names, vals, state, list(post), accs, peeled)
    _splice(rt, si, muts, si.conds, accs)
    return ("cont", tuple(out))


class Scan:
    """state of a loop after iteration k: F(lo - 1) = init, F(k) = step(k) (in terms of F(k - 1))"""

    def __init__(self, name, f, lo, hi, bv, init, step):
        self.name, self.f, self.lo, self.hi, self.bv, self.init, self.step = name, f, lo, hi, bv, init, step

    def at(self, k):
        return T.app(self.f, T.canon(lift(k)))

    def facts(self, k):
        """the definition of F at k"""
        k = lift(k)
        st = T.subst(self.step, {self.bv.id: k})
        return [T.Implies(And(self.lo <= k, k < self.hi), self.at(k) == st), T.Implies(T.canon(k) == T.canon(self.lo - 1), self.at(k) == self.init)]


def _scan(rt, si, names, vals, state, post, muts, accs, scans):
    """general recurrence: the state after every iteration is a function defined by the loop (primitive recursion)"""
    from .engine import Undef, subst_any
    uid = T.fresh("scan", "I").args[0]
    lo, hi = si.domain[1], si.domain[2]
    sub, live = {}, []
    for n, st, v in zip(names, state, vals):
        if isinstance(st, Term) and any(st is a for a in accs):
            f = f"{uid}.{n}"
            sub[st.id] = T.app(f, T.canon(si.bv - 1))
            live.append((n, f, st, v))
    out = list(vals)
    for i, (n, st) in enumerate(zip(names, state)):
        if post[i] is st:
            if any(st is a for a in accs):      # not changed by the loop
                sub[st.id] = lift(vals[i])
                live = [x for x in live if x[0] != n]
    for i, (n, st) in enumerate(zip(names, state)):
        hit = [x for x in live if x[0] == n]
        if hit:
            sc = Scan(n, hit[0][1], lo, hi, si.bv, lift(vals[i]), T.subst(lift(post[i]), sub))
            scans.append(sc)
            out[i] = T.ite(lo < hi, sc.at(hi - 1), lift(vals[i]))
        elif post[i] is not st:
            out[i] = Undef(n)
    muts = [(o, m, tuple(subst_any(x, sub) for x in a)) for o, m, a in muts]
    _splice(rt, si, muts, si.conds, [])
    return ("cont", tuple(out))


def _splice(rt, si, muts, conds, accs, tag=0):
    from .engine import mentions
    for n, (obj, meth, a) in enumerate(muts):
        if any(mentions(x, f) for x in a for f in accs):
            raise Unsupported("appended value depends on a loop accumulator")
        if isinstance(obj, list) and meth == "append":
            rt.mut(obj, "append", Segment(si.domain, si.bv, a[0], conds))
        elif isinstance(obj, dict) and meth == "setitem":
            rt.setitem(obj, ("segment", si.bv.id, tag, n), Segment(si.domain, si.bv, (a[0], a[1]), conds))
        elif isinstance(obj, set) and meth == "add":
            rt.mut(obj, "add", Segment(si.domain, si.bv, a[0], conds))
        elif isinstance(obj, list) and meth == "extend" and isinstance(a[0], list):
            for x in list.__iter__(a[0]):
                rt.mut(obj, "append", Segment(si.domain, si.bv, x, conds))
        else:
            raise Unsupported(f"{meth} inside a symbolic loop")


def _multi(rt, si, paths, names, vals, state, accs):
    """several paths through the body: merge as guarded updates (sums of ite)"""
    from .engine import Undef, merge_ite, mentions
    lists = {}
    for n, p in enumerate(paths):
        for o in {id(o) for o, meth, a in p.value[1] if isinstance(o, list)}:
            if lists.setdefault(o, n) != n:
                raise Unsupported("several paths of a symbolic loop append to one list")
    for p in paths:
        for c in p.cond:
            if any(f.id in T.free_set(c) for f in accs):
                raise Unsupported("loop branch depends on an accumulator")
    post = []
    for i in range(len(names)):
        post.append(merge_ite([(And(*p.cond), p.value[0][1][i]) for p in paths])
                    if not all(p.value[0][1][i] is paths[0].value[0][1][i] for p in paths)
                    else paths[0].value[0][1][i])
    out = finish(rt, si, names, vals, state, post, accs, None)
    for n, p in enumerate(paths):
        _splice(rt, si, p.value[1], tuple(si.conds) + tuple(p.cond), accs, n)
    return ("cont", tuple(out))


def finish(rt, si, names, vals, state, post, accs, peeled):
    from .engine import Undef, subst_any, mentions
    n = len(names)
    result = [None] * n
    pend = []
    ranged = isinstance(si.domain, tuple) and si.domain[0] == "range"
    accset = {id(a) for a in accs}
    lastsub = {}
    for i in range(n):
        pre, po = state[i], post[i]
        if po is pre:
            result[i] = vals[i]
            continue
        dep = any(mentions(po, a) for a in accs)
        if not dep:
            # last value
            if ranged and not si.conds:
                hi = si.domain[2]
                lastval = subst_any(po, {si.bv.id: hi - 1})
                result[i] = ("last", po, lastval)
                if isinstance(pre, Term) and peeled is not None and isinstance(lift(po), Term):
                    # pre-state of iteration k is the post-state of iteration k-1, if it also describes the peeled one
                    at_lo = subst_any(lift(po), {si.bv.id: si.domain[1] - 1})
                    if norm(lift(at_lo) - lift(vals[i])).const() == 0:
                        lastsub[pre.id] = subst_any(lift(po), {si.bv.id: si.bv - 1})
                continue
            result[i] = Undef(names[i]) if isinstance(vals[i], Undef) or not mentions(po, si.bv) else Undef(names[i])
            if not mentions(po, si.bv) and isinstance(vals[i], Undef):
                result[i] = Undef(names[i])
            continue
        pend.append(i)
    for i in list(pend):
        po = T.subst(lift(post[i]), lastsub) if lastsub else lift(post[i])
        if not isinstance(state[i], Term):
            # assigned in the body before use, depends on accumulators: value only meaningful inside the loop
            result[i] = Undef(names[i])
            pend.remove(i)
            continue
        delta = T.poly_to_term(norm(po - state[i]))
        if not any(a.id in T.free_set(delta) for a in accs):
            b = T.mk_sum(si.domain, si.bv, T.ite(And(*si.conds), delta, num(0)) if si.conds else delta)
            result[i] = lift(vals[i]) + b
            pend.remove(i)
            post[i] = None
        else:
            post[i] = po
    for i in pend:
        po = post[i]
        others = [a for a in accs if a is not state[i] and a.id in T.free_set(po)]
        if others:
            # depends on other accumulators: temporaries fully determined inside the iteration are fine after the loop
            raise Unsupported(f"mutually recursive loop state {names[i]}")
        result[i] = _recurrence(rt, si, names[i], vals[i], state[i], po)
    for i in range(n):
        if isinstance(result[i], tuple) and len(result[i]) == 3 and result[i][0] == "last":
            _, po, lv = result[i]
            lo, hi = si.domain[1], si.domain[2]
            if isinstance(lv, Undef):
                result[i] = lv
            elif isinstance(vals[i], Undef):
                result[i] = lv
            elif T.simp_bool(lo < hi).op == "true" or smt.sat(_path() + [Not(lo < hi)]) == "unsat":
                result[i] = lv
            elif isinstance(lift(lv), Term) and isinstance(lift(vals[i]), Term):
                # if the pre-state is the same expression one step earlier, the expression covers both cases
                at = subst_any(po, {si.bv.id: lo - 1})
                if norm(lift(at) - lift(vals[i])).const() == 0:
                    result[i] = subst_any(po, {si.bv.id: hi - 1})
                else:
                    result[i] = T.ite(lo < hi, lv, vals[i])
            else:
                raise Unsupported(f"last value of {names[i]}")
    return result


def _path():
    from .engine import current
    c = current()
    return list(c.base) + list(c.cond) if c else []


def _recurrence(rt, si, name, init, pre, po):
    """v_{lo-1} = init (state before the first generic iteration), v_k = po[pre := v_{k-1}, bv := k]; result v_{hi-1}"""
    if not (isinstance(si.domain, tuple) and si.domain[0] == "range"):
        raise Unsupported("recurrence over an unordered collection")
    lo, hi = si.domain[1], si.domain[2]
    k = si.bv
    for spec in rt.world.loop_specs:
        for shift in (0, 1, -1):
            # candidate invariant: after iteration k, v == spec(k + shift)
            base = T.norm(lift(init) - spec.unfold(lo - 1 + shift))
            if base.const() != 0:
                continue
            ind = T.subst(po, {pre.id: spec.app(k - 1 + shift)})
            if norm(ind - spec.unfold_step(k + shift)).const() == 0:
                rt.world.loop_proofs.append((name, spec.name, shift))
                return spec.app(hi - 1 + shift)
    raise Unsupported(f"recurrence for {name}: no loop invariant in the contracts is inductive")
