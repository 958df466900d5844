"""Instrumented symbolic execution of the real source of /repo.

`World` loads mimosa.* from REPO's working tree on every run.  The source text is parsed and re-written mechanically
(class Rewriter: loops, comprehensions, identity/membership tests, f-strings and subscripts become calls to `Runtime`)
and then executed by CPython itself, with library modules replaced by contract stubs (stubs.py) and parameters replaced
by symbolic terms.  Nothing is dropped from a function body except docstrings; decorators are kept.
Branches on symbolic conditions fork the path (Explorer).
"""
import ast
import builtins as _b
import functools
import importlib
import os
import sys
import types

from . import terms as T
from .terms import Term, Unsupported, Not, And, Or, TRUE, FALSE, lift, num, var, app, fn, fresh
from . import smt

REPO = os.environ.get("MIMOSA_REPO", "/repo")


# ===================================================================== paths
class PathLimit(BaseException):
    pass


class Deadline(BaseException):
    """the symbolic run as a whole ran out of time (check.py)"""


ENGINE_NAMES = ("SymIter", "SymMap", "SymArr", "SymRange", "SymNested", "MultiMap", "Segment", "Undef", "Opaque", "SymStr", "SymDict", "SymList",
                "GhostSet", "FinSet", "'Term'", "'Ghost'", "'VList'", "'VDict'", "Namespace", "_ListLike", "unsupported operand",
                "NotImplementedType", "'Choice'", "type Term", "SParam", "SVar", "OptVal", "EnumVal", "AnyVal", "ConcArr", "SSet")


def of_engine(e):
    """an exception that Python raises because an operand is an object of the engine"""
    return isinstance(e, (TypeError, ValueError, AttributeError)) and any(n in str(e) for n in ENGINE_NAMES)


class Path:
    __slots__ = ("cond", "kind", "value", "log", "foralls")

    def __init__(self, cond, kind, value, log=None, foralls=()):
        self.cond, self.kind, self.value, self.log, self.foralls = cond, kind, value, log, list(foralls)

    def __repr__(self):
        return f"Path({self.kind} {self.value!r} | {[str(c) for c in self.cond]})"


class Explorer:
    stack = []

    def __init__(self, assumptions=(), max_paths=400, timeout_ms=1500):
        self.base = [c for c in assumptions if c.op != "true"]
        self.max_paths = max_paths
        self.timeout = timeout_ms

    MAX_FORKS = 48          # undetermined branches on one path (a loop that never ends under the path condition)

    guard = None            # hook: relations that have no truth value

    def decide(self, c):
        if Explorer.guard is not None:
            Explorer.guard(c)
        forced = False
        sh = T.shape(c)
        if self.pos < len(self.prefix):
            v, forced, was = self.prefix[self.pos]
            if sh != was:
                raise Unsupported("the code does not ask the same when it runs again")
        else:
            known = {x.id for x in self.base} | {x.id for x in self.cond}
            nc = Not(c)
            if c.id in known:
                v, forced = True, True
            elif nc.id in known:
                v, forced = False, True
            elif smt.sat(self.base + self.cond + [c], self.timeout) == "unsat":
                v, forced = False, True
            elif smt.sat(self.base + self.cond + [nc], self.timeout) == "unsat":
                v, forced = True, True
            else:
                v = True
                self.pending.append(self.trace + [(False, False, sh)])
        self.pos += 1
        self.trace.append((v, forced, sh))
        if not forced:
            self.cond.append(c if v else Not(c))
            self.forks += 1
            if self.forks > self.MAX_FORKS:
                raise Unsupported("too many branches on one path")
        return v

    def assume(self, c):
        """restrict the current path"""
        c = T.simp_bool(c)
        if c.op == "true":
            return
        self.cond.append(c)

    def run(self, thunk, log=None):
        """all paths of thunk().  A path's kind is 'return', 'raise' (Python exception) or 'unsupported'."""
        self.pending = [[]]
        out = []
        prev = T._decider[0]
        T._decider[0] = self.decide
        Explorer.stack.append(self)
        try:
            while self.pending:
                self.prefix = self.pending.pop()
                self.pos, self.trace, self.cond, self.foralls = 0, [], [], []
                self.forks = 0
                if len(out) > self.max_paths:
                    raise PathLimit(f"more than {self.max_paths} paths")
                try:
                    v = thunk()
                    out.append(Path(list(self.cond), "return", v, foralls=self.foralls))
                except Unsupported as e:
                    out.append(Path(list(self.cond), "unsupported", e, foralls=self.foralls))
                except RecursionError as e:
                    out.append(Path(list(self.cond), "unsupported", e, foralls=self.foralls))
                except Exception as e:
                    out.append(Path(list(self.cond), "raise", e, foralls=self.foralls))
        finally:
            T._decider[0] = prev
            Explorer.stack.pop()
        return out

    def feasible(self, path):
        return smt.sat(self.base + path.cond, self.timeout) != "unsat"


def current():
    return Explorer.stack[-1] if Explorer.stack else None


def sub_explore(thunk, extra=()):
    """explore thunk locally under the current path; used for bodies of symbolic loops"""
    cur = current()
    ex = Explorer((list(cur.base) + list(cur.cond) if cur else []) + list(extra))
    return ex.run(thunk)


def some_raise(si, paths):
    """bodies run for every element of a symbolic collection, some of them raising: either some element raises (the
    current path ends with that exception at a witness), or none does (kept as a universal fact); the other paths"""
    bad = [p for p in paths if p.kind == "raise"]
    ok = [p for p in paths if p.kind != "raise"]
    if not bad:
        return paths
    cur = current()
    if cur is None:
        raise Unsupported(f"element of a symbolic collection: {bad[0].value}")
    if T.decide(fresh("some_element_raises", "B")):
        w = fresh("witness", si.bv.sort)
        s = {si.bv.id: w}
        for c in list(si.facts()) + list(si.conds):
            cur.assume(T.subst(c, s))
        for p in bad[:-1]:
            if T.decide(T.subst(And(*p.cond), s)):
                raise _indexed(p.value, s)
        cur.assume(T.subst(And(*bad[-1].cond), s))
        raise _indexed(bad[-1].value, s)
    if not ok:      # every element raises: the collection is empty
        cur.foralls.append((si.domain, si.bv, tuple(si.conds), FALSE))
        return []
    cur.foralls.append((si.domain, si.bv, tuple(si.conds), Not(Or(*[And(*p.cond) for p in bad]))))
    return ok


def _indexed(e, s):
    return e


# ===================================================================== rewriting
SKIP_CALL_ATTRS = {"join", "replace", "format", "startswith", "endswith", "split"}
MUT_ATTRS = {"append", "extend", "update", "add", "pop", "remove", "insert", "setdefault", "clear", "discard", "popitem"}


def _assigned(nodes):
    names = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def visit_FunctionDef(self, n):
            names.add(n.name)

        def visit_ClassDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                names.add(n.name)
            self.generic_visit(n)

    v = V()
    for n in nodes:
        v.visit(n)
    return names


def _has(nodes, kinds, stop=(ast.FunctionDef, ast.Lambda, ast.ClassDef)):
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, stop):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _vc(name, *args, keywords=()):
    return ast.Call(func=ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=list(keywords))


def _lam(body, args=()):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                                         kw_defaults=[], defaults=[]), body=body)


class BodyRewriter(ast.NodeTransformer):
    """continue/break/return inside a symbolic loop body"""

    def __init__(self, names):
        self.names = names

    def state(self):
        return ast.Tuple(elts=[_vc("get", _lam(ast.Name(id=n, ctx=ast.Load()))) for n in self.names], ctx=ast.Load())

    def visit_Continue(self, n):
        return ast.Return(value=ast.Tuple(elts=[ast.Constant("cont"), self.state()], ctx=ast.Load()))

    def visit_Break(self, n):
        return ast.Return(value=ast.Tuple(elts=[ast.Constant("break"), self.state()], ctx=ast.Load()))

    def visit_Return(self, n):
        return ast.Return(value=ast.Tuple(elts=[ast.Constant("return"), n.value or ast.Constant(None)], ctx=ast.Load()))

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):  # inner native loops keep their own break/continue; returns must still be converted
        return _ReturnOnly(self).visit(n)

    visit_While = visit_For


class _ReturnOnly(ast.NodeTransformer):
    def __init__(self, outer):
        self.outer = outer

    def visit_Return(self, n):
        return self.outer.visit_Return(n)

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []  # names; ('f', name) or ('c', name)
        self.k = 0

    def qual(self, name):
        parts = []
        for kind, n in self.scope:
            parts.append(n)
            if kind == "f":
                parts.append("<locals>")
        return ".".join([self.mod] + parts + [name])

    def in_func(self):
        return any(k == "f" for k, _ in self.scope)

    def visit_FunctionDef(self, n):
        q = self.qual(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.scope.append(("f", n.name))
        n.body = self._block(n.body)
        self.scope.pop()
        n.decorator_list.append(_vc("fn", ast.Constant(q)))
        return n

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        self.scope.append(("f", "<lambda>"))
        n.body = self.visit(n.body)
        self.scope.pop()
        return n

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(x) for x in n.bases]
        self.scope.append(("c", n.name))
        n.body = self._block(n.body)
        self.scope.pop()
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            # a < b < c  ->  (a < b) and (b < c) when every operand is side-effect free
            ops, items = n.ops, [n.left] + n.comparators
            if all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp)) for x in items[1:-1]):
                return ast.BoolOp(op=ast.And(), values=[
                    self._cmp1(items[i], ops[i], items[i + 1]) for i in range(len(ops))])
            return n
        return self._cmp1(n.left, n.ops[0], n.comparators[0])

    def _cmp1(self, a, op, b):
        name = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "in_", ast.NotIn: "not_in"}.get(type(op))
        if name is None:
            return ast.Compare(left=a, ops=[op], comparators=[b])
        return _vc(name, a, b)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return _vc("fstr", *parts)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return _vc("getitem", n.value, self._slice(n.slice))
        return n

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=ast.Name(id="slice", ctx=ast.Load()),
                            args=[x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)],
                            keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):     # [a, *b]
            return _vc("listed", *[ast.Tuple(elts=[ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e],
                                             ctx=ast.Load()) for e in n.elts])
        return _vc("box", n) if isinstance(n.ctx, ast.Load) else n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):      # {**a, ...}
            return _vc("merged", *[ast.Tuple(elts=[ast.Constant(k is None), k if k is not None else ast.Constant(None), v], ctx=ast.Load())
                                   for k, v in zip(n.keys, n.values)])
        return _vc("box", n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return _vc("box", n)

    def visit_arg(self, n):
        return n                                # annotations are kept as they are

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            v = self.visit(n.value)
            return ast.Expr(_vc("setitem", self.visit(t.value), self._slice(self.visit(t.slice)), v))
        self.generic_visit(n)
        return n

    def visit_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Subscript):
            v = self.visit(n.value)
            return ast.Expr(_vc("augitem", self.visit(t.value), self._slice(self.visit(t.slice)),
                                _lam(ast.BinOp(left=ast.Name(id="__x", ctx=ast.Load()), op=n.op, right=v), ["__x"])))
        self.generic_visit(n)
        return n

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_vc("delitem", self.visit(t.value), self._slice(self.visit(t.slice)))))
            else:
                out.append(ast.Delete(targets=[self.visit(t)]))
        return out

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in SKIP_CALL_ATTRS and not any(
                isinstance(a, ast.Starred) for a in n.args):
            return _vc("strmeth", n.func.value, ast.Constant(n.func.attr), *n.args, keywords=n.keywords)
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUT_ATTRS and not any(
                isinstance(a, ast.Starred) for a in n.args):
            return _vc("mut", n.func.value, ast.Constant(n.func.attr), *n.args, keywords=n.keywords)
        return n

    # ---- comprehensions
    def _comp(self, kind, elt, gens):
        if any(k == "c" for k, _ in self.scope[-1:]) or any(g.is_async for g in gens):
            return None
        g = gens[0]
        it = self.visit(g.iter)
        if len(gens) == 1:
            inner = ast.ListComp(elt=elt() if callable(elt) else elt, generators=[ast.comprehension(
                target=g.target, iter=ast.Tuple(elts=[ast.Name(id="__e", ctx=ast.Load())], ctx=ast.Load()),
                ifs=[self.visit(c) for c in g.ifs], is_async=0)])
            return _vc("comp", ast.Constant(kind), it, _lam(inner, ["__e"]))
        sub = self._comp("flat", elt, gens[1:])
        inner = ast.ListComp(elt=sub, generators=[ast.comprehension(
            target=g.target, iter=ast.Tuple(elts=[ast.Name(id="__e", ctx=ast.Load())], ctx=ast.Load()),
            ifs=[self.visit(c) for c in g.ifs], is_async=0)])
        return _vc("comp2", ast.Constant(kind), it, _lam(inner, ["__e"]))

    def visit_ListComp(self, n):
        r = self._comp("list", lambda: self.visit(n.elt), n.generators)
        return r or self.generic_visit(n)

    def visit_SetComp(self, n):
        r = self._comp("set", lambda: self.visit(n.elt), n.generators)
        return r or self.generic_visit(n)

    def visit_GeneratorExp(self, n):
        r = self._comp("gen", lambda: self.visit(n.elt), n.generators)
        return r or self.generic_visit(n)

    def visit_DictComp(self, n):
        r = self._comp("dict", lambda: ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load()),
                       n.generators)
        return r or self.generic_visit(n)

    # ---- loops
    def visit_For(self, n):
        if not self.in_func() or _has(n.body, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
            self.generic_visit(n)
            return n
        self.k += 1
        k = self.k
        it, bname, rname = f"__it{k}", f"__body{k}", f"__res{k}"
        names = sorted(_assigned(n.body) | _assigned([n.target]))
        iter_ = self.visit(n.iter)
        import copy
        target = n.target
        body = self._block(copy.deepcopy(n.body))
        native = ast.For(target=copy.deepcopy(target), iter=ast.Name(id=it, ctx=ast.Load()), body=body,
                         orelse=self._block(n.orelse), type_comment=None)
        if isinstance(target, ast.Subscript) or _has([target], (ast.Subscript, ast.Attribute)):
            native.iter = iter_
            return native
        sbody = [BodyRewriter(names).visit(copy.deepcopy(s)) for s in body]
        br = BodyRewriter(names)
        fdef = ast.FunctionDef(
            name=bname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="__elem")] + [ast.arg(arg=x) for x in names],
                                           kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=[ast.Assign(targets=[copy.deepcopy(target)], value=ast.Name(id="__elem", ctx=ast.Load()))]
                 + sbody + [ast.Return(value=ast.Tuple(elts=[ast.Constant("cont"), br.state()], ctx=ast.Load()))],
            decorator_list=[], returns=None, type_params=[])
        call = ast.Assign(targets=[ast.Name(id=rname, ctx=ast.Store())], value=_vc(
            "loop", ast.Name(id=it, ctx=ast.Load()), ast.Name(id=bname, ctx=ast.Load()),
            ast.Tuple(elts=[ast.Constant(x) for x in names], ctx=ast.Load()),
            ast.Tuple(elts=[_vc("get", _lam(ast.Name(id=x, ctx=ast.Load()))) for x in names], ctx=ast.Load()),
            ast.Constant(bool(n.orelse)), ast.Constant(self.qual(f"loop{k}")), ast.Constant(n.lineno)))
        ret = ast.If(test=ast.Compare(left=ast.Subscript(value=ast.Name(id=rname, ctx=ast.Load()), slice=ast.Constant(0),
                                                         ctx=ast.Load()), ops=[ast.Eq()],
                                      comparators=[ast.Constant("return")]),
                     body=[ast.Return(value=ast.Subscript(value=ast.Name(id=rname, ctx=ast.Load()),
                                                          slice=ast.Constant(1), ctx=ast.Load()))], orelse=[])
        unpack = ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())],
                            value=ast.Subscript(value=ast.Name(id=rname, ctx=ast.Load()), slice=ast.Constant(1),
                                                ctx=ast.Load()))
        symb = [fdef, call, ret] + ([unpack] if names else [])
        return [ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=iter_),
                ast.If(test=_vc("is_sym_iter", ast.Name(id=it, ctx=ast.Load())), body=symb, orelse=[native])]

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name(id="Exception", ctx=ast.Load())
        return n


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


# ===================================================================== symbolic collections
class Undef:
    """variable not bound before a symbolic loop"""

    def __init__(self, name="?"):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported(f"use of possibly unbound loop variable")

    __getattr__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __call__ = __getitem__ = _bad
    __bool__ = __truediv__ = __rtruediv__ = __pow__ = __iter__ = __lt__ = __le__ = __gt__ = __ge__ = _bad


class SymIter:
    """iterable with a symbolic number of elements: a domain and a map from a bound variable to the element"""

    def __init__(self, domain, bv, elem, conds=()):
        self.domain, self.bv, self.elem, self.conds = domain, bv, elem, tuple(conds)

    def facts(self):
        if isinstance(self.domain, tuple) and self.domain[0] == "range":
            _, lo, hi = self.domain
            return [lo <= self.bv, self.bv < hi]
        return []

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic collection")

    def fresh(self):
        """alpha-renamed copy"""
        nb = fresh("b", self.bv.sort)
        s = {self.bv.id: nb}
        return SymIter(self.domain, nb, subst_any(self.elem, s), [T.subst(c, s) for c in self.conds])

    def __len__(self):
        raise Unsupported("native len of a symbolic collection")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of a symbolic collection")

    def count(self):
        if self.conds:
            return T.mk_sum(self.domain, self.bv, T.ite(And(*self.conds), num(1), num(0)))
        return T.poly_to_term(T.sum_size(self.domain))

    length = count

    def __bool__(self):
        return T.decide(num(0) < self.count())

    def map(self, f):
        return SymIter(self.domain, self.bv, f(self.elem), self.conds)

    def from0(self):
        """the same list with positions counted from zero"""
        if not (isinstance(self.domain, tuple) and self.domain[0] == "range") or self.conds:
            raise Unsupported("position in a symbolic collection")
        lo, hi = self.domain[1], self.domain[2]
        if lo.op == "num" and lo.args[0] == 0:
            return self
        k = fresh("k", "I")
        kind = SymIter if isinstance(self, SymRange) else type(self)
        return kind(("range", num(0), T.canon(hi - lo)), k, subst_any(self.elem, {self.bv.id: lo + k}))

    def part(self, s):
        """slice with step one"""
        me = self.from0()
        n = me.domain[2]
        if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
            raise Unsupported("slice with a step of a symbolic collection")

        def end(x, default):
            if x is None:
                return default
            x = lift(x)
            if not isinstance(x, Term):
                raise Unsupported("slice bound")
            if T.decide(x < num(0)):
                x = n + x
                return x if T.decide(x >= num(0)) else num(0)
            return x if T.decide(x <= n) else n
        a, b = T.canon(end(s.start, num(0))), T.canon(end(s.stop, n))
        if not T.decide(a <= b):
            b = a
        k = fresh("k", "I")
        kind = SymIter if isinstance(self, SymRange) else type(self)
        return kind(("range", num(0), T.canon(b - a)), k, subst_any(me.elem, {me.bv.id: a + k}))

    def get(self, i):
        if isinstance(i, slice):
            return self.part(i)
        if isinstance(self.domain, tuple) and self.domain[0] == "range" and not self.conds:
            lo, hi = self.domain[1], self.domain[2]
            i = lift(i)
            if T.decide(i < num(0)):
                i = hi - lo + i
            if not T.decide(And(i >= num(0), i < hi - lo)):
                raise IndexError("list index out of range")
            return subst_any(self.elem, {self.bv.id: lo + i})
        raise Unsupported("index into a symbolic collection")

    def _listed(self):
        from .boxes import VList
        from .loops import Segment
        r = VList()
        r.append(Segment(self.domain, self.bv, self.elem, self.conds))
        return r

    def __add__(self, o):
        """concatenation of lists"""
        if isinstance(o, SymIter):
            return self._listed() + o._listed()
        return self._listed() + o if isinstance(o, list) else NotImplemented

    def __radd__(self, o):
        from .boxes import VList
        return VList(o) + self._listed() if isinstance(o, list) else NotImplemented

    def _arith(self, o, f):
        if isinstance(o, SymIter):
            if o.domain != self.domain or o.conds or self.conds:
                raise Unsupported("elementwise operation on different symbolic ranges")
            oe = subst_any(o.elem, {o.bv.id: self.bv})
            return SymArr(self.domain, self.bv, f(self.elem, oe))
        return SymArr(self.domain, self.bv, f(self.elem, o))


class SymArr(SymIter):
    """numpy array over a symbolic range"""

    def __add__(self, o): return self._arith(o, lambda a, b: a + b)
    def __radd__(self, o): return self._arith(o, lambda a, b: b + a)
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._arith(o, lambda a, b: b - a)
    def __mul__(self, o): return self._arith(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._arith(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._arith(o, lambda a, b: a / b)

    def _inplace(self, o):
        raise Unsupported("in-place operation on an array")

    __iadd__ = __isub__ = __imul__ = __itruediv__ = __ipow__ = _inplace


def subst_any(x, s):
    if isinstance(x, Term):
        return T.subst(x, s)
    if isinstance(x, tuple):
        return tuple(subst_any(y, s) for y in x)
    if isinstance(x, (list, dict)):
        from .boxes import raw, segmented, VList, VDict
        if isinstance(x, list):
            ys = [subst_any(y, s) for y in raw(x)]
            r = VList(ys, x._rt) if isinstance(x, VList) else ys
        else:
            ys = {subst_any(k, s): subst_any(y, s) for k, y in raw(x)}
            r = VDict(ys, rt=x._rt) if isinstance(x, VDict) else ys
        if segmented(x):
            r._seg = True
        return r
    if isinstance(x, SymMap):
        d = tuple(subst_any(y, s) if isinstance(y, Term) else y for y in x.domain) if isinstance(x.domain, tuple) else x.domain
        s = {k: v for k, v in s.items() if k != x.bv.id}
        return SymMap(d, x.bv, subst_any(x.key, s), subst_any(x.val, s), tuple(T.subst(c, s) for c in x.conds))
    if isinstance(x, SymIter):
        d = tuple(subst_any(y, s) if isinstance(y, Term) else y for y in x.domain) if isinstance(x.domain, tuple) else x.domain
        s = {k: v for k, v in s.items() if k != x.bv.id}
        return (SymIter if isinstance(x, SymRange) else type(x))(d, x.bv, subst_any(x.elem, s), [T.subst(c, s) for c in x.conds])
    h = getattr(x, "__subst__", None)
    if h is not None:
        return h(s)
    return x


def mentions(x, v):
    if isinstance(x, Term):
        return v.id in T.free_set(x)
    if isinstance(x, tuple):
        return any(mentions(y, v) for y in x)
    if isinstance(x, (list, dict)):
        from .boxes import raw
        return any(mentions(y, v) for y in raw(x))
    if isinstance(x, SymIter):
        return mentions(x.elem, v) or any(mentions(c, v) for c in x.conds)
    if isinstance(x, SymMap):
        return mentions(x.key, v) or mentions(x.val, v) or any(mentions(c, v) for c in x.conds)
    if getattr(x, "__symbolic__", False) and isinstance(getattr(x, "key", None), tuple):
        return any(mentions(y, v) for y in x.key)
    if getattr(x, "__symstr__", False) and isinstance(getattr(x, "t", None), Term):
        return v.id in T.free_set(x.t)
    if type(x).__name__ == "Segment":
        return mentions(x.elem, v) or any(mentions(c, v) for c in x.conds)
    return False


class SymRange(SymIter):
    def __init__(self, lo, hi):
        bv = fresh("k", "I")
        super().__init__(("range", T.canon(lift(lo)), T.canon(lift(hi))), bv, bv)


class Opaque:
    """result of an unmodelled library operation: an uninterpreted (Herbrand) value identified by its provenance"""

    def __init__(self, expr):
        object.__setattr__(self, "_expr", expr)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Opaque((".", self._expr, n))

    def __call__(self, *a, **k):
        return Opaque(("call", self._expr, tuple(key_of(x) for x in a),
                       tuple(sorted((n, key_of(v)) for n, v in k.items()))))

    def __getitem__(self, i):
        return Opaque(("[]", self._expr, key_of(i)))

    def __setattr__(self, n, v):
        pass

    def __setitem__(self, i, v):
        pass

    def __iter__(self):
        raise Unsupported(f"iteration over {self}")

    def __bool__(self):
        raise Unsupported(f"truth of {self}")

    def __repr__(self):
        return f"Opaque{self._expr}"

    def __eq__(self, o):
        return Opaque(("==", self._expr, key_of(o)))

    def __and__(self, o):
        return Opaque(("&", self._expr, key_of(o)))

    def __add__(self, o):
        return Opaque(("+", self._expr, key_of(o)))

    def __hash__(self):
        return hash(self._expr)


def key_of(x):
    if isinstance(x, Opaque):
        return x._expr
    if isinstance(x, Term):
        return ("term", T.canon(x).id if x.sort in ("R", "I") else x.id)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(key_of(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((key_of(a), key_of(b)) for a, b in x.items())
    if isinstance(x, SymIter):
        return ("symiter", str(x.domain), key_of(x.elem) if not isinstance(x.elem, Term) else
                ("term", T.subst(x.elem, {x.bv.id: T.bvar(0, x.bv.sort)}).id))
    if isinstance(x, slice):
        return ("slice", key_of(x.start), key_of(x.stop), key_of(x.step))
    try:
        hash(x)
        return (type(x).__name__, x)
    except TypeError:
        return ("obj", id(x))


def is_symbolic(x):
    return isinstance(x, (Term, Opaque, SymIter)) or getattr(x, "__symbolic__", False)


def _cannot(self, *a, **k):
    raise Unsupported("operation on a text made from a symbolic value")


class Tainted(str):
    """text in which a symbolic value is written: may be shown, not looked at"""
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __contains__ = __hash__ = __getitem__ = __iter__ = __len__ = __bool__ = _cannot

    def __add__(self, o):
        return Tainted(str.__add__(_b.str(self), _b.str(o))) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return Tainted(_b.str(o) + _b.str(self)) if isinstance(o, str) else NotImplemented

    def __mod__(self, o):
        return Tainted(_b.str(self) % o)

    def __str__(self):
        return str.__str__(self)

    def __format__(self, spec):
        return format(_b.str(self), spec)


def shown(x):
    """would str(x) show a value that is not known?"""
    if isinstance(x, Tainted):
        return True
    if isinstance(x, Term):
        return T.const_value(x) is None
    return is_symbolic(x) and not getattr(x, "__symstr__", False)


class Summaries:
    active = {}
    log = []


class Runtime:
    """the __vc__ object visible to rewritten code"""

    def __init__(self, world):
        self.world = world
        self.writes = None
        self.frames = []

    # ---- function contracts
    def fn(self, qual):
        world = self.world

        def deco(f):
            if not isinstance(f, types.FunctionType):
                return f

            @functools.wraps(f)
            def w(*a, **k):
                s = world.summaries.get(qual)
                if s is not None and qual not in world.unfolding:
                    r = s(*a, **k)
                    if r is not NotImplemented:
                        world.used_summaries.add(qual)
                        return r
                world.executed.add(qual)
                return f(*a, **k)

            world.functions[qual] = f
            w.__vc_qual__ = qual
            w.__vc_raw__ = f
            return w

        return deco

    def get(self, f):
        try:
            return f()
        except NameError:
            return Undef()

    # ---- identity / membership
    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            h = getattr(x, "__vc_is__", None)
            if h is not None:
                return h(y)
            if isinstance(x, Term) and x.sort == "B" and isinstance(y, bool):
                return x if y else Not(x)
        return a is b

    def is_not(self, a, b):
        r = self.is_(a, b)
        return Not(r) if isinstance(r, Term) else not r

    def in_(self, x, c):
        h = getattr(c, "__vc_contains__", None)
        if h is not None:
            return h(x)
        h = getattr(x, "__vc_in__", None)
        if h is not None:
            return h(c)
        if isinstance(c, dict) and (symkey(x) or any(symkey(y) for y in c)):
            return any(same_key(y, x) for y in list(c))
        if is_symbolic(x) and isinstance(c, (list, tuple, set, frozenset)) or \
                isinstance(c, (list, tuple)) and any(is_symbolic(y) for y in c):
            for y in c:
                if y is x:
                    return True
                e = x == y
                if e is NotImplemented:
                    continue
                if e:
                    return True
            return False
        if isinstance(c, Term):
            raise TypeError("argument of a number's type is not iterable")
        return x in c

    def not_in(self, x, c):
        r = self.in_(x, c)
        return Not(r) if isinstance(r, Term) else not r

    # ---- strings
    def fstr(self, *parts):
        if any(isinstance(p, tuple) and (getattr(p[0], "__symstr__", False) or isinstance(p[0], Term) and p[2]) for p in parts):
            from .symany import SymStr
            return SymStr.concat([p if isinstance(p, str) else self._fmt(p) for p in parts])
        out = "".join(_b.str(p if isinstance(p, str) else self._fmt(p)) for p in parts)
        return Tainted(out) if any(isinstance(p, tuple) and shown(p[0]) and not hasattr(p[0], "__vc_text__") for p in parts) else out

    def _fmt(self, p):
        v, conv, spec = p
        if hasattr(v, "__vc_text__"):
            v = v.__vc_text__()
        if getattr(v, "__symstr__", False) and not spec and conv in (-1, 115):
            return v.__str_term__()
        if spec and conv == -1 and isinstance(v, Term):
            from .symany import formatted
            return formatted(v, spec)
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        return format(v, spec)

    def strmeth(self, obj, meth, *a, **k):
        h = getattr(obj, "__vc_strmeth__", None)
        if h is not None:
            return h(meth, *a, **k)
        if isinstance(obj, Tainted) and meth != "join":
            return _cannot(obj)
        if isinstance(obj, str):
            if meth == "join" and a and isinstance(a[0], (list, tuple)) and any(isinstance(x, Tainted) for x in a[0]):
                return Tainted(_b.str(obj).join(_b.str(x) for x in a[0]))
            if meth == "format" and any(shown(x) and not getattr(x, "__symstr__", False) for x in (*a, *k.values())) and ":" not in obj:
                return Tainted(obj.format(*a, **k))
            if meth == "join" and len(a) == 1 and not isinstance(a[0], (str, list, tuple)) and not is_symbolic(a[0]):
                a = (list(a[0]),)
            if meth == "join" and a and isinstance(a[0], (list, tuple)) and any(
                    getattr(x, "__symstr__", False) for x in a[0]):
                from .symany import SymStr
                parts = []
                for i, x in enumerate(a[0]):
                    if i:
                        parts.append(obj)
                    parts.append(x)
                return SymStr.concat(parts)
            if any(getattr(x, "__symstr__", False) for x in a) or meth == "format" and ":" in obj and any(isinstance(x, Term) for x in a):
                from .symany import SymStr
                return SymStr.method(obj, meth, *a, **k)
        return getattr(obj, meth)(*a, **k)

    # ---- containers
    def getitem(self, d, k):
        h = getattr(d, "__vc_getitem__", None)
        if h is not None:
            return h(k)
        if isinstance(d, SymIter):
            return d.get(k)
        if isinstance(d, Term):
            raise TypeError("a number is not subscriptable")
        if isinstance(d, dict) and (symkey(k) or any(symkey(y) for y in d)):
            for kk in list(d):
                if same_key(kk, k):
                    return d[kk]
            raise KeyError(k)
        if isinstance(d, (list, tuple, str)) and isinstance(k, Term):
            c = T.const_value(k)
            if c is not None and c.denominator == 1:
                return d[int(c)]
            for i in range(len(d)):
                if k == i:
                    return d[i]
            raise IndexError("list index out of range")
        try:
            return d[k]
        except KeyError:
            from .loops import Segment
            if type(d) is dict and any(isinstance(v, Segment) for v in d.values()):
                raise Unsupported("lookup in a dictionary filled in a loop")
            raise

    def listed(self, *parts):
        """[a, *b]"""
        from .boxes import VList
        r = VList([], self)
        for star, x in parts:
            if not star:
                r = r + VList([x], self)
            elif isinstance(x, SymIter) or getattr(x, "__sym_iter__", False) and not isinstance(x, (list, tuple, dict, set)):
                r = r + (x if isinstance(x, SymIter) else x.__sym_iter__())
            else:
                r = r + (x if isinstance(x, list) else VList(list(x), self))
        return r

    def mut(self, obj, meth, *a, **k):
        if isinstance(obj, (list, dict, set)):
            if self.writes is not None:
                self.writes.append((obj, meth))
            fr = self.frames[-1] if self.frames else None
            if fr is not None and id(obj) not in fr.local:
                return fr.mutate(obj, meth, a, k)
        return getattr(obj, meth)(*a, **k)

    def setitem(self, d, k, v):
        if self.writes is not None:
            self.writes.append((d, k))
        from .loops import Segment
        from .boxes import segmented
        if isinstance(d, dict) and (isinstance(v, Segment) or segmented(d)) and not (self.frames and id(d) not in self.frames[-1].local):
            d[k] = v
            return
        if self.frames and isinstance(d, (list, dict)) and id(d) not in self.frames[-1].local:
            return self.frames[-1].mutate(d, "setitem", (k, v), {})
        h = getattr(d, "__vc_setitem__", None)
        if h is not None:
            return h(k, v)
        if isinstance(d, dict) and d and k not in d and (symkey(k) or any(symkey(y) for y in d)):
            for kk in list(d):
                if symkey(kk) != symkey(k) or symkey(k):
                    if same_key(kk, k):
                        k = kk
                        break
        d[k] = v

    def augitem(self, d, k, f):
        self.setitem(d, k, f(self.getitem(d, k)))

    def delitem(self, d, k):
        if self.writes is not None:
            self.writes.append((d, k))
        del d[k]

    # ---- comprehensions
    def is_sym_iter(self, it):
        return isinstance(it, SymIter) or getattr(it, "__sym_iter__", False)

    def _symiter(self, it):
        return it if isinstance(it, SymIter) else it.__sym_iter__()

    def comp(self, kind, it, f):
        if not self.is_sym_iter(it):
            if kind == "gen":
                return (y for e in it for y in f(e))
            if kind == "set":
                return self.world.builtins["set"]([y for e in it for y in f(e)])
            if kind == "dict":
                out = self.box({})
                for e in it:
                    for (a, b) in f(e):
                        self.setitem(out, a, b)
                return out
            return self.box([y for e in it for y in f(e)])
        from . import boxes
        ps = boxes.parts(it) if isinstance(it, (list, set)) else None
        if ps is not None and len(ps) > 1:
            if kind not in ("list", "gen"):
                raise Unsupported("comprehension over a list filled in several ways")
            out = self.box([])
            for k, p in ps:
                if k == "one":
                    out.extend(f(p))
                else:
                    out.extend(self._symcomp("list", p.fresh(), f))
            return out
        si = self._symiter(it).fresh()
        return self._symcomp(kind, si, f)

    def _symcomp(self, kind, si, f):
        paths = sub_explore(lambda: f(si.elem), list(si.facts()) + list(si.conds))
        for p in paths:
            if p.kind == "unsupported":
                raise Unsupported(f"element of a symbolic comprehension: {p.value}")
        paths = some_raise(si, paths)
        if not paths:
            return self.box({} if kind == "dict" else [])
        if all(len(p.value) == 1 for p in paths):
            if len(paths) == 1:
                v = paths[0].value[0]
            else:
                v = merge_ite([(And(*p.cond), p.value[0]) for p in paths])
            conds = si.conds
        else:
            keep = [p for p in paths if p.value]
            if any(len(p.value) > 1 for p in keep):
                raise Unsupported("nested symbolic comprehension")
            if not keep:
                return self.box({} if kind == "dict" else [])
            conds = tuple(si.conds) + (Or(*[And(*p.cond) for p in keep]),)
            v = keep[0].value[0] if len(keep) == 1 else merge_ite([(And(*p.cond), p.value[0]) for p in keep])
        if kind == "dict":
            return SymMap(si.domain, si.bv, v[0], v[1], conds)
        if kind == "set" and not distinct(v, si.bv):
            raise Unsupported("set of values that may coincide")
        return SymIter(si.domain, si.bv, v, conds)

    def comp2(self, kind, it, f):
        if self.is_sym_iter(it):
            si = self._symiter(it).fresh()
            paths = sub_explore(lambda: f(si.elem), list(si.facts()) + list(si.conds))
            if len(paths) == 1 and paths[0].kind == "return" and len(paths[0].value) == 1:
                inner = paths[0].value[0]
                if isinstance(inner, SymIter):
                    return SymNested(si, inner, kind)
                if isinstance(inner, SymMap):
                    return SymNested(si, inner, kind)
                if isinstance(inner, list) and kind != "dict":
                    return SymNested(si, inner, kind)
                if isinstance(inner, list) and len(inner) == 1:
                    return SymMap(si.domain, si.bv, inner[0][0], inner[0][1], si.conds)
                if isinstance(inner, list):
                    return MultiMap(si.domain, si.bv, inner, si.conds)
            raise Unsupported("nested symbolic comprehension")
        flat = [z for e in it for y in f(e) for z in ([y] if isinstance(y, (SymIter, SymMap)) else y)]
        if any(isinstance(y, SymIter) for y in flat):
            if kind == "dict":
                return MultiMap2(flat)
            raise Unsupported("concrete loop over symbolic inner loop")
        if kind == "set":
            return self.world.builtins["set"](flat)
        if kind == "dict":
            out = self.box({})
            for (a, b) in flat:
                self.setitem(out, a, b)
            return out
        if kind == "gen":
            return iter(flat)
        return flat

    # ---- symbolic loops
    def loop(self, it, body, names, vals, has_else, qual, lineno):
        from .loops import symbolic_loop
        from . import boxes
        ps = boxes.parts(it) if isinstance(it, (list, set)) else None
        if ps is not None and len(ps) > 1:      # one part after the other
            if has_else:
                raise Unsupported("for-else over a list filled in a loop")
            for kind, p in ps:
                r = body(p, *vals) if kind == "one" else symbolic_loop(self, p.fresh(), body, names, vals, has_else, qual, lineno)
                if r[0] == "return":
                    return r
                vals = r[1]
                if r[0] == "break":
                    break
            return ("cont", tuple(vals))
        return symbolic_loop(self, self._symiter(it).fresh(), body, names, vals, has_else, qual, lineno)

    # ---- containers of the code
    def box(self, x):
        from . import boxes
        return boxes.box(x, self)

    def merged(self, *parts):
        from . import boxes
        out = boxes.VDict(rt=self)
        for star, k, v in parts:
            if star:
                out.update(v)
            else:
                self.setitem(out, k, v)
        return out


def symkey(k):
    """a key whose identity is symbolic"""
    if isinstance(k, tuple):
        return not (k and isinstance(k[0], str) and k[0] == "segment") and any(symkey(x) for x in k)
    return is_symbolic(k) and not isinstance(k, SymIter)


def same_key(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_key(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    try:
        return bool(b == a)
    except Unsupported:
        raise
    except Exception:
        return False


def merge_ite(cv):
    v = cv[-1][1]
    if isinstance(v, tuple):
        return tuple(merge_ite([(c, x[i]) for c, x in cv]) for i in range(len(v)))
    if not all(isinstance(lift(x), Term) for _, x in cv):
        first = cv[0][1]
        if all(x is first or (type(x) is type(first) and not is_symbolic(x) and x == first) for _, x in cv):
            return first
        raise Unsupported("merge of non-numeric values")
    r = lift(cv[-1][1])
    for c, x in reversed(cv[:-1]):
        r = T.ite(c, x, r)
    return r


def distinct(key, bv):
    """whether different elements of the domain have different keys for sure"""
    from .symany import Ghost
    if key is bv:
        return True
    if isinstance(key, (tuple, list)):
        return any(distinct(k, bv) for k in key)
    return isinstance(key, Ghost) and len(key.key) == 3 and key.key[1] == "key" and key.key[2] is bv


class SymMap:
    """dict built over a symbolic domain: key(bv) -> val(bv)"""
    __symbolic__ = True

    def __init__(self, domain, bv, key, val, conds=()):
        self.domain, self.bv, self.key, self.val, self.conds = domain, bv, key, val, conds

    def _iter(self, e):
        if not distinct(self.key, self.bv):
            raise Unsupported("entries of a dictionary whose keys may coincide")
        return SymIter(self.domain, self.bv, e, self.conds).fresh()

    def items(self):
        return self._iter((self.key, self.val))

    def keys(self):
        return self._iter(self.key)

    def values(self):
        return self._iter(self.val)

    __sym_iter__ = keys

    def __vc_len__(self):
        return self.keys().count()

    def __bool__(self):
        return self.keys().__bool__()

    def __vc_getitem__(self, k):
        from .boxes import lookup
        return lookup(self.domain, self.bv, self.key, self.val, self.conds, k)

    __getitem__ = __vc_getitem__

    def get(self, k, default=None):
        try:
            return self.__vc_getitem__(k)
        except KeyError:
            return default

    def __vc_contains__(self, k):
        try:
            self.__vc_getitem__(k)
            return True
        except KeyError:
            return False

    def copy(self):
        return self

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic dictionary")

    def __vc_setitem__(self, k, v):
        raise Unsupported("write into a symbolic dictionary")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of a symbolic dictionary")


class MultiMap:
    __symbolic__ = True

    def __init__(self, domain, bv, items, conds=()):
        self.domain, self.bv, self.items, self.conds = domain, bv, items, conds


class MultiMap2:
    __symbolic__ = True

    def __init__(self, parts):
        self.parts = parts


class SymNested:
    __symbolic__ = True

    def __init__(self, outer, inner, kind):
        self.outer, self.inner, self.kind = outer, inner, kind


# ===================================================================== world
class World:
    """one load of /repo's mimosa package"""

    def __init__(self, stubs, repo=None, overrides=None):
        self.repo = repo or REPO
        self.stubs = stubs
        self.modules = {}
        self.functions = {}
        self.keepers = []
        self.summaries = {}
        self.unfolding = set()
        self.used_summaries = set()
        self.executed = set()
        self.rt = Runtime(self)
        self.builtins = make_builtins(self)
        self.files_read = set()
        self.overrides = overrides or {}

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs:
            return self.stubs[name]
        rel = name.replace(".", "/")
        base = os.path.join(self.repo, rel)
        if os.path.isdir(base):
            path, pkg = os.path.join(base, "__init__.py"), True
        else:
            path, pkg = base + ".py", False
        if not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named {name!r}")
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        mod = types.ModuleType(name)
        mod.__file__ = path
        if pkg:
            mod.__path__ = [base]
            mod.__package__ = name
        else:
            mod.__package__ = name.rsplit(".", 1)[0]
        mod.__dict__["__builtins__"] = self.builtins
        mod.__dict__["__vc__"] = self.rt
        self.modules[name] = mod
        with open(path, encoding="utf8") as f:
            src = f.read()
        self.files_read.add(path)
        code = transform(src, name, path)
        try:
            exec(code, mod.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        for k in self.keepers:
            k.take_module(name)
        if "." in name:
            setattr(self.load(name.rsplit(".", 1)[0]), name.rsplit(".", 1)[1], mod)
        return mod

    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = f"{pkg}.{name}" if name else pkg
        if name.split(".")[0] == "mimosa":
            mod = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(mod, f):
                        try:
                            self.load(f"{name}.{f}")
                        except ModuleNotFoundError:
                            pass
                return mod
            return self.load("mimosa") if "." in name else mod
        if name in self.stubs:
            m = self.stubs[name]
            if not fromlist and "." in name:
                return self.stubs[name.split(".")[0]]
            return m
        root = name.split(".")[0]
        if root in self.stubs:
            m = self.stubs[root]
            if not fromlist:
                return m
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        if root in REAL_MODULES:
            return __import__(name, globals, locals, fromlist, 0)
        return Opaque(("module", name)) if not fromlist else _OpaqueModule(name)

    def __getitem__(self, qual):
        """resolve 'mimosa.a.b.f' or 'mimosa.a.b.C.m' to the (rewritten) object"""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            try:
                m = self.load(".".join(parts[:i]))
            except ModuleNotFoundError:
                continue
            for p in parts[i:]:
                m = getattr(m, p)
            return m
        raise KeyError(qual)


class _OpaqueModule:
    def __init__(self, name):
        self._name = name
        self.__name__ = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(("module", self._name, n))


REAL_MODULES = {"typing", "abc", "dataclasses", "logging", "re", "time", "functools", "itertools", "collections",
                "warnings", "hashlib", "math", "copy", "operator", "enum", "numbers", "__future__", "types",
                "contextlib", "string", "textwrap", "pathlib", "sys", "fractions", "decimal", "datetime"}


def make_builtins(world):
    d = dict(_b.__dict__)
    from . import boxes

    def _import(name, globals=None, locals=None, fromlist=(), level=0):
        return world.do_import(name, globals, locals, fromlist, level)

    def _sum(it, start=0):
        if boxes.segmented(it) and isinstance(it, _b.list) and _b.len(boxes.raw(it)) > 1:
            return _b.sum([_sum(p) if k == "many" else p for k, p in boxes.parts(it)], start)
        if isinstance(it, SymIter) or getattr(it, "__sym_iter__", False):
            si = (it if isinstance(it, SymIter) else it.__sym_iter__()).fresh()
            if not isinstance(lift(si.elem), Term):
                raise Unsupported("sum of non-numeric symbolic collection")
            body = lift(si.elem)
            if si.conds:
                body = T.ite(And(*si.conds), body, num(0))
            s = T.mk_sum(si.domain, si.bv, body)
            return s if (not is_symbolic(start) and start == 0) else start + s
        if isinstance(it, SymNested):
            inner = it.inner
            ib = T.mk_sum(inner.domain, inner.bv, lift(inner.elem)) if isinstance(inner, SymIter) else _sum(inner)
            return T.mk_sum(it.outer.domain, it.outer.bv, ib)
        r = start
        for x in it:
            r = r + x
        return r

    def symit(it):
        """a collection with a symbolic number of elements as SymIter"""
        return it.__sym_iter__() if not isinstance(it, SymIter) and getattr(it, "__sym_iter__", None) else it

    def _len(x):
        h = getattr(x, "__vc_len__", None)
        if h is not None:
            return h()
        if isinstance(x, SymIter):
            return x.length()
        return _b.len(x)

    def _isinstance(x, cls):
        h = getattr(x, "__vc_isinstance__", None)
        if h is not None:
            return h(cls)
        if isinstance(x, Term):
            cs = cls if isinstance(cls, tuple) else (cls,)
            py = {"B": bool, "I": int, "R": float}.get(x.sort)
            return py is not None and any(issubclass(py, c) for c in cs if isinstance(c, type))
        if isinstance(x, SymIter):
            cs = cls if isinstance(cls, tuple) else (cls,)
            return any(c in (list, object) for c in cs)
        if isinstance(x, SymMap):
            cs = cls if isinstance(cls, tuple) else (cls,)
            return any(c in (dict, object) for c in cs)
        try:
            return _b.isinstance(x, cls)
        except TypeError:
            if isinstance(cls, Opaque) or (isinstance(cls, tuple) and any(isinstance(c, Opaque) for c in cls)):
                cs = cls if isinstance(cls, tuple) else (cls,)
                real = tuple(c for c in cs if isinstance(c, type))
                return _b.isinstance(x, real) if real else False
            raise

    def _range(*a):
        if any(isinstance(x, Term) for x in a):
            a = [lift(x) for x in a]
            cs = [T.const_value(x) for x in a]
            if all(c is not None for c in cs):
                return _b.range(*[int(c) for c in cs])
            if len(a) == 1:
                return SymRange(num(0), a[0])
            if len(a) == 2 or T.const_value(a[2]) == 1:
                return SymRange(a[0], a[1])
            raise Unsupported("symbolic range with a step")
        return _b.range(*a)

    def _abs(x):
        return fn("abs", x) if isinstance(x, Term) else _b.abs(x)

    def conv(pyf, name, sort):
        def f(x=0, *a):
            h = getattr(x, "__vc_conv__", None)
            if h is not None:
                return h(name)
            if isinstance(x, Term):
                if name == "float":
                    return x
                if name == "int":
                    return fn("trunc", x, sort="I") if x.sort != "I" else x
                if name == "bool":
                    return _b.bool(x)
            if isinstance(x, Opaque):
                return Opaque(("call", name, x._expr))
            return pyf(x, *a)

        f.__name__ = name
        f.__vc_type__ = pyf
        return f

    c_float, c_int = conv(float, "float", "R"), conv(int, "int", "I")

    def c_bool(x=False):
        h = getattr(x, "__vc_conv__", None)
        return h("bool") if h is not None else _b.bool(x)

    def c_str(x="", *a, **k):
        h = getattr(x, "__vc_conv__", None)
        if h is not None:
            return h("str")
        if isinstance(x, Term) and x.sort in ("R", "I") and T.const_value(x) is None:
            from .symany import tostr
            return tostr(x)
        if hasattr(x, "__vc_text__"):
            return x.__vc_text__()
        out = _b.str(x, *a, **k)
        return Tainted(out) if shown(x) and type(out) is str else out

    def c_list(x=()):
        if isinstance(x, SymIter):
            return x
        if isinstance(x, boxes.VList):
            return boxes.VList(x, world.rt)
        if getattr(x, "__sym_iter__", False):
            return x.__sym_iter__()
        return boxes.VList(_b.list(x), world.rt)

    def c_tuple(x=()):
        if isinstance(x, SymIter):
            return x
        if getattr(x, "__sym_iter__", False):
            return x.__sym_iter__()
        return _b.tuple(x)

    def c_dict(*a, **k):
        if a and isinstance(a[0], SymMap) and not k:
            return a[0]
        if a and (isinstance(a[0], SymIter) or getattr(a[0], "__sym_iter__", False) and not isinstance(a[0], _b.dict)):
            si = a[0] if isinstance(a[0], SymIter) else a[0].__sym_iter__()
            if not (isinstance(si.elem, tuple) and len(si.elem) == 2) or k:
                raise Unsupported("dict of a symbolic collection")
            return SymMap(si.domain, si.bv, si.elem[0], si.elem[1], si.conds)
        out = boxes.VDict(rt=world.rt)
        if a:
            if isinstance(a[0], _b.dict):
                out.update(a[0])
            else:
                for kk, v in (a[0].items() if hasattr(a[0], "items") else a[0]):
                    world.rt.setitem(out, kk, v)
        out.update(**k)
        return out

    def c_sorted(x, **k):
        if isinstance(x, SymIter) or getattr(x, "__sym_iter__", False):
            raise Unsupported("sorted symbolic collection")
        return boxes.VList(_b.sorted(x, **k), world.rt)

    def c_type(x, *a):
        if a:
            return _b.type(x, *a)
        t = _b.type(x)
        return {boxes.VList: _b.list, boxes.VDict: _b.dict, boxes.VSet: _b.set}.get(t, t)

    def c_set(x=()):
        from . import symany
        if isinstance(x, (symany.GhostSet, symany.FinSet)):
            return x
        if isinstance(x, SymIter) or getattr(x, "__sym_iter__", False):
            raise Unsupported("set of a symbolic collection")
        x = _b.list(x)
        if any(symany.has_symbolic(y) for y in x):
            return symany.FinSet(x)
        return boxes.VSet(x, world.rt)

    def isinst(x, cls):
        if isinstance(cls, tuple):
            cls = tuple(getattr(c, "__py__", c) for c in cls)
        else:
            cls = getattr(cls, "__py__", cls)
        return _isinstance(x, cls)

    def _any(it):
        it = symit(it)
        if isinstance(it, SymIter):
            si = it.fresh()
            b = lift(si.elem) if not isinstance(si.elem, bool) else T.B(si.elem)
            if isinstance(b, Term) and b.sort == "B":
                return num(0) < T.mk_sum(si.domain, si.bv, T.ite(And(*si.conds, b), num(1), num(0)))
            raise Unsupported("any() over a symbolic collection")
        for x in it:
            if x:
                return True
        return False

    def _all(it):
        it = symit(it)
        if isinstance(it, SymIter):
            si = it.fresh()
            b = lift(si.elem) if not isinstance(si.elem, bool) else T.B(si.elem)
            if isinstance(b, Term) and b.sort == "B":
                return Not(num(0) < T.mk_sum(si.domain, si.bv, T.ite(And(*si.conds, Not(b)), num(1), num(0))))
            raise Unsupported("all() over a symbolic collection")
        for x in it:
            if not x:
                return False
        return True

    def _enumerate(it, start=0):
        it = symit(it)
        if isinstance(it, SymIter):
            if isinstance(it.domain, tuple) and not it.conds:
                return SymIter(it.domain, it.bv, (it.bv - it.domain[1] + start, it.elem))
            raise Unsupported("enumerate over a symbolic set")
        return _b.enumerate(it, start)

    def _zip(*its, **k):
        its = tuple(symit(x) for x in its)
        if any(isinstance(x, SymIter) for x in its):
            if all(isinstance(x, SymIter) for x in its) and not all(x.domain == its[0].domain for x in its) and not k:
                its = [x.from0() for x in its]
                n = its[0].domain[2]
                for x in its[1:]:
                    n = n if x.domain[2] is n or T.decide(n <= x.domain[2]) else x.domain[2]
                its = [SymIter(("range", num(0), n), x.bv, x.elem) for x in its]
            if all(isinstance(x, SymIter) and x.domain == its[0].domain and not x.conds for x in its):
                b = its[0].bv
                return SymIter(its[0].domain, b, tuple(subst_any(x.elem, {x.bv.id: b}) for x in its))
            raise Unsupported("zip of symbolic collections")
        return _b.zip(*its, **k)

    def _map(f, *its):
        if len(its) == 1 and (isinstance(its[0], SymIter) or getattr(its[0], "__sym_iter__", False)):
            return world.rt.comp("gen", its[0], lambda e: [f(e)])
        return _b.map(f, *its)

    def _getattr(x, n, *default):
        if not isinstance(n, str) and getattr(n, "__vc_attr__", False):
            for a in dir(x):
                if not a.startswith("__") and T.decide(T.B(n == a)):
                    return _b.getattr(x, a)
            if default:
                return default[0]
            raise AttributeError("no such attribute")
        return _b.getattr(x, n, *default)

    def _callable(x):
        if isinstance(x, Opaque):
            return True
        return _b.callable(x)

    def _print(*a, **k):
        world.printed.append(a)

    world.printed = []
    d.update(__import__=_import, sum=_sum, len=_len, isinstance=isinst, range=_range, abs=_abs, enumerate=_enumerate,
             zip=_zip, map=_map, getattr=_getattr, callable=_callable, print=_print, any=_any, all=_all, list=list, dict=dict, str=str)
    d["float"] = _ListLike(c_float, _b.float)
    d["int"] = _ListLike(c_int, _b.int)
    d["list"] = _ListLike(c_list, _b.list)
    d["str"] = _ListLike(c_str, _b.str)
    d["bool"] = _ListLike(c_bool, _b.bool)
    d["dict"] = _ListLike(c_dict, _b.dict)
    d["sorted"] = c_sorted
    d["type"] = _ListLike(c_type, _b.type)
    d["tuple"] = _ListLike(c_tuple, _b.tuple)
    d["set"] = _ListLike(c_set, _b.set)
    return d


class _ListLike:
    """callable stand-in for a builtin type: used as a type in annotations/isinstance, as a function elsewhere"""

    def __init__(self, f, py):
        self.__f, self.__py__ = f, py
        self.__name__ = py.__name__

    def __call__(self, *a, **k):
        return self.__f(*a, **k)

    def __getattr__(self, n):
        return getattr(self.__py__, n)

    def __getitem__(self, k):
        return self.__py__[k]

    def __hash__(self):
        return hash(self.__py__)

    def __eq__(self, o):
        return o is self or o is self.__py__

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __instancecheck__(self, x):
        return isinstance(x, self.__py__)

    def __mro_entries__(self, bases):
        return (self.__py__,)
