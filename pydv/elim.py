"""Elimination: an obligation that the direct search does not discharge is tried once more with every variable replaced by
what the relations (the constraints for a law, the laws for a constraint) define it to be -- in the same period, in the
period before and in the first period -- and, for a law, with the law itself known of the period before (induction).
Only "valid" is taken from here: nothing is refuted by it."""
import time

from . import terms as T
from . import smt
from . import laws as L
from .terms import Term, And, Implies, num, Unsupported

LIMIT = 12         # attempts that led to nothing, per run
SECONDS = 45.0     # time spent on such attempts, per run


class Elim:
    def __init__(self, mc, t, r):
        self.mc, self.t, self.r = mc, t, r
        self.before = T.canon(t - 1)
        self.left, self.spent = LIMIT, 0.0
        self.tables, self.known, self.ids, self.expanded = {}, {}, {}, {}
        self.rank_of = {"relative_abatement": (-1, 0)}
        for i, l in enumerate(L.LAWS):
            if l.name not in self.rank_of:
                self.rank_of[l.name] = (L.ORDER.index(l.prop) if l.prop in L.ORDER else 90, i)

    # ---- occurrences
    def when(self, x):
        """0: the first period, 2: this period, 1: the one before"""
        c = T.const_value(x)
        if c is not None:
            return 0 if c == 0 else (2 if c == 1 else None)
        x = T.canon(x)
        return 2 if x is self.t or T.const_value(x - self.t) == 0 else \
            (1 if T.const_value(x - self.before) == 0 else None)

    def occ(self, a):
        w = self.when(a.args[1]) if len(a.args) > 1 else None
        return None if w is None else (w, a.args[0])

    def rank(self, o):
        return (o[0],) + self.rank_of.get(o[1], (99, o[1]))

    # ---- definitions
    def table(self, key, make):
        if key not in self.tables:
            fams, cand = [], {}
            for fam in make():
                i = len(fams)
                rows = [(list(q[0]), None if q[1] is None else list(q[1]), {}) for q in fam]
                fams.append(rows)
                for j, (c, xs, defs) in enumerate(rows):
                    for x in xs or ():
                        for v in self.mc.var_names(x):
                            try:
                                z = self.mc.solved(x, v)
                            except (RecursionError, ZeroDivisionError, Unsupported):
                                z = None
                            o = self.occ(z[0]) if z else None
                            if o is None or o in defs or opened(z[1]) is z[0]:
                                continue
                            deps = {self.occ(b) for b in self.mc.var_apps(opened(z[1])).values()} - {None}
                            if o in deps:
                                continue
                            defs[o] = z
                            k = (o, i)
                            cand[k] = cand.get(k, set()) | deps
            # the definitions taken must not go round in circles; those in the order of the laws first
            down = lambda o, deps: all(self.rank(d) < self.rank(o) for d in deps)
            graph, by = {}, {}
            for (o, i), deps in sorted(cand.items(), key=lambda z: (not down(z[0][0], z[1]), tuple(map(str, self.rank(z[0][0]))), z[0][1])):
                if any(self.reaches(graph, d, o) for d in deps):
                    continue
                graph.setdefault(o, set()).update(deps)
                by.setdefault(o, []).append(i)
            depth = {}

            def deep(o):
                if o not in depth:
                    depth[o] = 0
                    depth[o] = 1 + max([deep(d) for d in graph.get(o, ())], default=0)
                return depth[o]
            for o in list(graph):
                deep(o)
            names = [frozenset().union(*[self.mc.var_names(x) for c, xs, d in rows for x in xs or ()]) for rows in fams]
            ids = [self.ids.setdefault(tuple((tuple(c.id for c in cs), None if xs is None else tuple(x.id for x in xs))
                                             for cs, xs, d in rows), len(self.ids)) for rows in fams]
            self.tables[key] = Table(fams, by, depth, names, ids)
        return self.tables[key]

    @staticmethod
    def reaches(graph, a, b):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo += graph.get(x, ())
        return False

    # ---- expansion
    def expand(self, rel, conds, tab, split, used):
        """[(conds, relation)]: the relation with its variables replaced, one entry per case"""
        key = (id(tab), rel.id, frozenset(c.id for c in conds), split)
        if key not in self.expanded:
            u = set()
            self.expanded[key] = self.expand_(rel, conds, tab, split, u), u
        out, u = self.expanded[key]
        used |= u
        return out

    def expand_(self, rel, conds, tab, split, used):
        todo, out = [(list(conds), opened(rel), 0)], []
        while todo:
            cs, x, n = todo.pop()
            if n > 40:
                return None
            new = None
            occ = [(self.occ(a), a) for a in self.mc.var_apps(x).values()]
            occ = sorted([(tab.depth[k], k, a.id, a) for k, a in occ if k in tab.by], key=lambda z: z[:3], reverse=True)
            for d, k, i, a in occ:
                for i in tab.by[k]:
                    new = self.replace(a, k, tab.fams[i], cs, x, split)
                    if new:
                        used.add(tab.ids[i])
                        break
                if new:
                    break
            if not new:
                out.append((cs, x))
                continue
            todo += [(c, y, n + 1) for c, y in new]
            if len(todo) + len(out) > 24:
                return None
        return out

    def replace(self, a, k, rows, cs, x, split):
        live = [w for w in rows if not w[0] or self.feasible(cs + w[0])]
        if not live or any(k not in w[2] for w in live):
            return None
        if len(live) > 1 and (not split or len(a.args) > 2 and a.args[2] is not self.r):
            return None
        out = []
        for c, xs, defs in live:
            b, e = defs[k]
            y = opened(self.mc.term_map(x, lambda z: self.mc.Checker.instantiate(b, e, z) if z.op == "app" and z.args[0] == b.args[0] else None))
            if y is x or a.id in self.mc.var_apps(y):
                return None
            out.append((cs + (c if len(live) > 1 else []), y))
        return out

    def feasible(self, cs):
        return smt.sat(cs, 700) != "unsat"

    # ---- proof
    def proves(self, base, cond, goal, tab, extra=()):
        conds = list(base) + list(cond)
        key = (frozenset(c.id for c in conds), goal.id, tuple((tuple(c.id for c in cs), g.id) for cs, g in extra))
        have = frozenset(tab.ids)
        if any(u <= have for u in self.known.get(key, ())):
            return True
        t0 = time.time()
        if self.left <= 0 or self.spent > SECONDS:
            return False
        used = set()
        try:
            ok = self.search(conds, goal, tab, extra, used)
        except (Unsupported, RecursionError, ZeroDivisionError):
            ok = False
        if ok:
            self.known.setdefault(key, []).append(frozenset(used))
            self.spent += (time.time() - t0) / 4
        else:
            self.spent += time.time() - t0
            self.left -= 1
        return ok

    def search(self, conds, goal, tab, extra, used):
        plain = self.expand(goal, conds, tab, False, used)
        if plain is not None and self.one(*plain[0], goal, tab, extra, used, False):
            return True
        cases = self.expand(goal, conds, tab, True, used) or plain
        return cases is not None and all(self.one(cs, x, goal, tab, extra, used) for cs, x in cases)

    def one(self, cs, x, goal, tab, extra, used, search=True):
        mc = self.mc
        fixed = settled(cs)
        x = put(x, fixed)
        if trivial(x):
            return True
        names = mc.var_names(x) | mc.var_names(goal)
        hyps = []
        for c, g in extra:
            u = set()
            for c2, y in self.expand(g, cs + list(c), tab, False, u) or ():
                y = put(y, fixed)
                if not c and self.same(y, x):
                    used |= u
                    return True
                hyps.append((y if not c else Implies(And(*c), y), y, u))
        for near in (True, False):
            for i, rows in enumerate(tab.fams):
                if bool(tab.names[i] & names) is not near:
                    continue
                for c, xs, defs in rows:
                    if not xs or (not near and all(g.op == "eq" for g in xs)):
                        continue
                    if c and not self.feasible(cs + c):
                        continue
                    sure = not c or smt.sat(cs + [T.Not(And(*c))], 700) == "unsat"
                    if not near and not sure:
                        continue
                    for g in xs:
                        u = {tab.ids[i]}
                        for c2, y in self.expand(g, cs + c, tab, False, u) or ():
                            y = put(y, fixed)
                            if trivial(y):
                                continue
                            if sure and self.same(y, x):
                                used |= u
                                return True
                            if near or mc.var_names(y) & names:
                                hyps.append((y if sure else Implies(And(*c), y), y, u))
        if not search:
            return False
        mine = set(mc.var_apps(x))
        for pick in ([h for h in hyps if set(mc.var_apps(h[1])) <= mine], hyps):
            if len(pick) > 60:
                pick = [h for h in pick if set(mc.var_apps(h[1])) & mine][:60]
            if smt.prove(list(cs) + [h[0] for h in pick], x, timeout_ms=2500)[0] == "valid":
                for h in pick:
                    used |= h[2]
                return True
        return False

    def same(self, a, b):
        try:
            return self.mc.same_rel(a, b)
        except Unsupported:
            return False


class Table:
    def __init__(self, fams, by, depth, names, ids):
        self.fams, self.by, self.depth, self.names, self.ids = fams, by, depth, names, ids


def settled(conds):
    """values that the conditions give a term without variables of the model"""
    out, todo = {}, list(conds)
    while todo:
        c = todo.pop()
        if c.op == "and":
            todo += c.args
        if c.op == "eq":
            for a, b in (c.args, c.args[::-1]):
                if a.op in ("app", "var") and T.const_value(b) is not None:
                    out[a.id] = b
    return out


def put(x, fixed):
    return T.subst(x, fixed) if fixed else x


def trivial(x):
    if x.op == "true":
        return True
    if x.op not in ("eq", "le", "lt"):
        return False
    kind, p = T.rel_poly(x)
    if not p.d:
        return kind in ("eq", "le")
    c = p.const()
    return c is not None and (kind == "le" and c <= 0 or kind == "lt" and c < 0)


_opened = {}


def opened(t):
    """sums with their bound variable named, so that what is summed can be replaced"""
    if not isinstance(t, Term):
        return t
    r = _opened.get(t.id)
    if r is not None:
        return r
    if t.op == "psum":
        dom, d, p = t.args
        srt = "Reg" if dom == "regions" else "I"
        f = T.fresh("b", srt)
        r = T.mk_sum(dom, f, opened(T.poly_to_term(T.subst_poly(p, {T.bvar(d, srt).id: f}))))
    elif t.op == "polyatom":
        r = opened(T.poly_to_term(t.args[0]))
    elif t.op == "sum":
        b = opened(t.args[2])
        r = t if b is t.args[2] else T.mk_sum(t.args[0], t.args[1], b)
    elif t.op in ("add", "mul", "pow", "eq", "le", "lt"):
        a = [opened(x) for x in t.args]
        if all(x is y for x, y in zip(a, t.args)):
            r = t
        elif t.op == "add":
            r = a[0]
            for x in a[1:]:
                r = r + x
        elif t.op == "mul":
            r = a[0]
            for x in a[1:]:
                r = r * x
        elif t.op == "pow":
            r = T.mk_pow(*a)
        else:
            r = T._rel(t.op, *a)
    else:
        r = t
    _opened[t.id] = r
    _keep.append(t)
    return r


_keep = []
