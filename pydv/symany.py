"""Symbolic values of configuration data: strings, lists, dictionaries, nested dictionaries, other objects, and ghosts.

Strings are z3 strings.  Every operation that is not modelled raises Unsupported (the obligation stays open, it is never a
violation)."""
from . import terms as T
from .terms import Term, Unsupported, num, var, app, fresh, And, Or, Not, TRUE, FALSE, lift
from .engine import SymIter, SymMap, is_symbolic


def slit(s):
    return Term("slit", (s,), "S")


def sterm(x):
    """string term of a str / SymStr / S-sorted term"""
    if isinstance(x, str):
        return slit(x)
    if isinstance(x, SymStr):
        return x.t
    if isinstance(x, Term) and x.sort == "S":
        return x
    return None


def seq(a, b):
    """equality of string terms"""
    if a is b:
        return TRUE
    if a.op == "slit" and b.op == "slit":
        return TRUE if a.args[0] == b.args[0] else FALSE
    return Term("eq", (a, b), "B")


class Base:
    """arbitrary value: everything not modelled is Unsupported"""
    __symbolic__ = True

    def __getattr__(self, n):
        py = getattr(type(self), "PY", None)
        if n.startswith("__") or py is not None and py is not object and not hasattr(py, n):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of {self!r}")

    def _bad(self, *a, **k):
        raise Unsupported(f"operation on {self!r}")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __iter__ = __bool__ = __neg__ = __float__ = __int__ = __index__ = _bad
    __len__ = __getitem__ = __contains__ = __call__ = _bad

    def eq(self, o):
        if self is o:
            return TRUE
        if is_symbolic(o):
            raise Unsupported(f"comparison of {self!r} and {o!r}")
        return FALSE

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return Not(self.eq(o))

    def __hash__(self):
        return id(self) >> 4

    def __vc_in__(self, c):
        if isinstance(c, (list, tuple, set, frozenset, dict)):
            for y in c:
                if y is self or T.decide(T.B(self.eq(y))):
                    return True
            return False
        raise Unsupported(f"{self!r} in {type(c).__name__}")

    def __format__(self, spec):
        return f"<{self!r}>"

    def __str__(self):
        return f"<{self!r}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __vc_is__(self, o):
        return self is o

    def __vc_isinstance__(self, cls):
        py = getattr(type(self), "PY", None)
        if py is None:
            raise Unsupported(f"type of {self!r}")
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(isinstance(c, type) and issubclass(py, c) for c in cs)


class SymStr(Base):
    __symstr__ = True
    ABSENT = set()
    PY = str

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, t):
        self.t = var(t, "S") if isinstance(t, str) else t

    def __repr__(self):
        return f"str:{self.t}"

    def __subst__(self, s):
        t = T.subst(self.t, s)
        return self if t is self.t else SymStr(t)

    def __str_term__(self):
        return self

    def eq(self, o):
        s = sterm(o)
        if s is not None:
            return seq(self.t, s)
        if isinstance(o, Base) and getattr(type(o), "PY", None) not in (None, str) or isinstance(o, Term):
            return FALSE
        return super().eq(o)

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return T.decide(Not(seq(self.t, slit(""))))

    def __vc_conv__(self, name):
        if name == "str":
            return self
        if name == "bool":
            return bool(self)
        if name == "float":
            if not T.decide(app("float_ok", self.t, sort="B")):
                raise ValueError("could not convert string to float")
            if T.decide(app("float_nan", self.t, sort="B")):
                return float("nan")
            if T.decide(app("float_pinf", self.t, sort="B")):
                return float("inf")
            if T.decide(app("float_ninf", self.t, sort="B")):
                return -float("inf")
            return app("float_val", self.t)
        if name == "int":
            if not T.decide(app("int_ok", self.t, sort="B")):
                raise ValueError("invalid literal for int()")
            return app("int_val", self.t, sort="I")
        raise Unsupported(f"{name} of a symbolic string")

    def __vc_contains__(self, x):
        s = sterm(x)
        if s is None:
            raise TypeError("'in <string>' requires string as left operand")
        return Term("contains", (self.t, s), "B")

    def __vc_getitem__(self, k):
        if isinstance(k, (str, SymStr)):
            raise TypeError("string indices must be integers")
        last = self.t.args[-1] if self.t.op == "concat" else None
        lit = last.args[0] if last is not None and last.op == "slit" else None
        if k == -1:
            return lit[-1] if lit else LastChar(self)
        if isinstance(k, slice) and k.start in (None, 0) and k.stop == -1 and k.step is None:
            if lit:
                return SymStr.concat([SymStr(x) for x in self.t.args[:-1]] + [lit[:-1]])
            return SymStr(app("butlast", self.t, sort="S"))
        raise Unsupported("character of a symbolic string")

    def __vc_strmeth__(self, meth, *a, **k):
        if meth in ("startswith", "endswith") and len(a) == 1 and not k and sterm(a[0]) is not None:
            return Term("prefixof" if meth == "startswith" else "suffixof", (sterm(a[0]), self.t), "B")
        if meth == "replace" and len(a) == 2 and not k and isinstance(a[0], str) and a[0] in SymStr.ABSENT and sterm(a[1]) is not None:
            # the arbitrary parts do not contain the word (assumption of the contract that put it into ABSENT)
            out = []
            for p in self.t.args if self.t.op == "concat" else [self.t]:
                if p.op != "slit":
                    out.append(SymStr(p))
                    continue
                for n, piece in enumerate(p.args[0].split(a[0])):
                    out += ([a[1]] if n else []) + [piece]
            return SymStr.concat(out)
        if meth == "strip" and not a:
            if self.t.op != "concat" or self.t.args[0].op == "slit" and self.t.args[-1].op == "slit" and not any(
                    x.args[0][:1].isspace() or x.args[0][-1:].isspace() for x in (self.t.args[0], self.t.args[-1])):
                return self if self.t.op == "concat" else super().__getattr__("strip")
        raise Unsupported(f"str.{meth} of a symbolic string")

    def __add__(self, o):
        if sterm(o) is None:
            raise TypeError("can only concatenate str")
        return SymStr.concat([self, o])

    def __radd__(self, o):
        return SymStr.concat([o, self])

    @staticmethod
    def concat(parts):
        out = []
        for p in parts:
            s = sterm(p)
            if s is None:
                raise Unsupported("join of a non-string")
            if s.op == "concat":
                new = list(s.args)
            else:
                new = [s]
            for n in new:
                if n.op == "slit" and out and out[-1].op == "slit":
                    out[-1] = slit(out[-1].args[0] + n.args[0])
                elif n.op == "slit" and n.args[0] == "":
                    continue
                else:
                    out.append(n)
        if not out:
            return ""
        if len(out) == 1:
            return out[0].args[0] if out[0].op == "slit" else SymStr(out[0])
        return SymStr(Term("concat", tuple(out), "S"))

    @staticmethod
    def method(obj, meth, *a, **k):
        if meth in ("startswith", "endswith") and len(a) == 1 and not k:
            return Term("prefixof" if meth == "startswith" else "suffixof", (sterm(a[0]), slit(obj)), "B")
        if meth == "format" and not k:
            import string
            parts, i = [], 0
            for lit, field, spec, conv in string.Formatter().parse(obj):
                parts.append(lit)
                if field is not None:
                    if conv or not (field == "" or field.isdigit()):
                        raise Unsupported("format specification")
                    x = a[int(field)] if field else a[i]
                    i += 1
                    if spec:
                        x = formatted(x, spec)
                    parts.append(x if sterm(x) is not None else tostr(x))
            return SymStr.concat(parts)
        raise Unsupported(f"str.{meth} with a symbolic argument")


def formatted(x, spec):
    """text of a number in a given format"""
    t = lift(x) if sterm(x) is None else None
    if not isinstance(t, Term) or t.sort not in ("R", "I"):
        raise Unsupported("format specification")
    return SymStr(app(f"format {spec}", T.canon(t), sort="S"))


class LastChar(Base):
    """the last character of a non-empty text"""
    PY = str
    __symstr__ = False

    def __init__(self, s):
        self.s = s

    def eq(self, o):
        if isinstance(o, str):
            return Term("suffixof", (slit(o), self.s.t), "B") if len(o) == 1 else FALSE
        return super().eq(o)

    def __hash__(self):
        return hash(self.s)


STR_LITERALS = ["False", "True", "false", "true", "no", "yes", "", "0", "1"]


def float_axioms(lits=STR_LITERALS):
    """what float() and int() do to fixed strings, and that the four outcomes of float() exclude each other"""
    out = []
    for s in lits:
        t = slit(s)
        try:
            v = float(s)
            out += [app("float_ok", t, sort="B"), Not(app("float_nan", t, sort="B")), Not(app("float_pinf", t, sort="B")),
                    Not(app("float_ninf", t, sort="B")), app("float_val", t) == num(v)]
        except ValueError:
            out += [Not(app("float_ok", t, sort="B")), Not(app("int_ok", t, sort="B"))]
            continue
        out += [app("int_ok", t, sort="B"), app("int_val", t, sort="I") == num(int(s))]
    return out


def tostr(x):
    """str(x) of a symbolic value"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, Term):
        return SymStr(app("str_of", x, sort="S"))
    h = getattr(x, "__vc_conv__", None)
    if h is not None:
        return h("str")
    return str(x)


class SymObj(Base):
    """a value that is no None, boolean, number, string, list or dictionary"""
    PY = object

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, name="object"):
        self.name = name

    def __repr__(self):
        return f"<other {self.name}>"

    def eq(self, o):
        return TRUE if o is self else FALSE

    def __bool__(self):
        return True

    def __vc_conv__(self, name):
        if name == "str":
            return SymStr(app("str_of", slit("other " + self.name), sort="S"))
        if name in ("float", "int"):
            raise TypeError(f"{name}() argument must be a string or a real number")
        if name == "bool":
            return True
        raise Unsupported(f"{name} of {self!r}")

    def _type(self, *a, **k):
        raise TypeError(f"unsupported operation on {self!r}")

    __getitem__ = __iter__ = __len__ = __contains__ = _type

    def __vc_getitem__(self, k):
        raise TypeError("object is not subscriptable")

    def __vc_contains__(self, x):
        raise TypeError("argument is not iterable")


class Ghost(Base):
    """an opaque value known only by its provenance"""

    def __init__(self, *key):
        self.key = key

    def __repr__(self):
        return "ghost:" + "/".join(str(k) for k in self.key)

    def same(self, o):
        if not isinstance(o, Ghost) or len(o.key) != len(self.key):
            return FALSE
        cs = []
        for a, b in zip(self.key, o.key):
            if isinstance(a, Ghost):
                cs.append(a.same(b))
            elif isinstance(a, Term) and isinstance(b, Term):
                cs.append(a == b if a.sort in ("R", "I") else seq(a, b))
            elif isinstance(a, Term) or isinstance(b, Term) or a != b:
                return FALSE
        return And(*cs) if cs else TRUE

    def eq(self, o):
        if isinstance(o, Ghost) and T.B(self.same(o)).op == "true":
            return TRUE
        raise Unsupported(f"comparison of {self!r}")

    def __hash__(self):
        return hash(tuple(k if isinstance(k, (str, int)) else 0 for k in self.key))

    def __subst__(self, s):
        return type(self)(*[T.subst(k, s) if isinstance(k, Term) else (k.__subst__(s) if isinstance(k, Ghost) else k)
                            for k in self.key])

    def term(self, name, sort="B"):
        """an uninterpreted property of this value"""
        return app(name, *self.flat(), sort=sort)

    def flat(self):
        out = []
        for k in self.key:
            if isinstance(k, Ghost):
                out += ["("] + k.flat() + [")"]
            else:
                out.append(k if isinstance(k, Term) else str(k))
        return out


class SymList(Base):
    """a list of arbitrary length"""
    PY = list
    __sym_iter_obj__ = True

    def __init__(self, name, length=None):
        self.name = name
        self.n = length if length is not None else var(f"len({name})", "I")

    __sym_iter_flag__ = True

    def __repr__(self):
        return f"list:{self.name}"

    def facts(self):
        return [num(0) <= self.n]

    def elem(self, i):
        return Ghost(self.name, i)

    def __sym_iter__(self):
        b = fresh("i", "I")
        return SymIter(("range", num(0), self.n), b, self.elem(b))

    def __vc_len__(self):
        return self.n

    def __bool__(self):
        return T.decide(num(0) < self.n)

    def eq(self, o):
        if o is not self and isinstance(o, list) or isinstance(o, Base) and o is not self and getattr(
                type(o), "PY", None) in (None, list):
            raise Unsupported("comparison of lists")
        return TRUE if o is self else FALSE

    def __vc_conv__(self, name):
        if name == "str":
            return SymStr(app("str_of", slit("list " + self.name), sort="S"))
        if name in ("float", "int"):
            raise TypeError(f"{name}() argument must be a string or a real number")
        raise Unsupported(name)

    def __vc_getitem__(self, k):
        if isinstance(k, (str, SymStr)):
            raise TypeError("list indices must be integers")
        raise Unsupported("index into a symbolic list")


class SymDict(Base):
    """a dictionary with arbitrarily many arbitrary keys"""
    PY = dict

    def __init__(self, name):
        self.name = name
        self.n = var(f"len({name})", "I")

    def __repr__(self):
        return f"dict:{self.name}"

    def facts(self):
        return [num(0) <= self.n]

    def _iter(self, f):
        b = fresh("i", "I")
        return SymIter(("range", num(0), self.n), b, f(b))

    def key(self, i):
        return Ghost(self.name, "key", i)

    def val(self, i):
        return Ghost(self.name, "value", i)

    def items(self):
        return self._iter(lambda b: (self.key(b), self.val(b)))

    def keys(self):
        return self._iter(self.key)

    def values(self):
        return self._iter(self.val)

    def __sym_iter__(self):
        return self.keys()

    def __vc_len__(self):
        return self.n

    def __bool__(self):
        return T.decide(num(0) < self.n)

    def eq(self, o):
        if o is not self and isinstance(o, dict) or isinstance(o, Base) and o is not self and getattr(
                type(o), "PY", None) in (None, dict):
            raise Unsupported("comparison of dictionaries")
        return TRUE if o is self else FALSE

    def __vc_getitem__(self, k):
        if isinstance(k, Ghost) and k.key[:2] == (self.name, "key"):
            return self.val(k.key[2])
        raise Unsupported("lookup in a symbolic dictionary")

    def __vc_contains__(self, k):
        if isinstance(k, Ghost) and k.key[:2] == (self.name, "key"):
            return True
        if isinstance(k, str):
            return app("has:" + self.name, slit(k), sort="B")
        raise Unsupported("membership in a symbolic dictionary")

    def __vc_conv__(self, name):
        if name == "str":
            return SymStr(app("str_of", slit("dict " + self.name), sort="S"))
        if name in ("float", "int"):
            raise TypeError(f"{name}() argument must be a string or a real number")
        raise Unsupported(name)


SymList.__sym_iter_flag__ = SymDict.__sym_iter_flag__ = True


class Node(Base):
    """arbitrary nested user dictionary: at every path a key is present or not; what is present below a leaf path is the
    user's value for that path"""
    PY = dict

    def __init__(self, name, path=(), leaves=()):
        self.name, self.path, self.leaves = name, tuple(path), leaves

    def __repr__(self):
        return f"{self.name}[{' - '.join(map(str, self.path))}]"

    def has(self, k):
        return app(f"has:{self.name}", *[str(p) for p in self.path], str(k), sort="B")

    def __vc_contains__(self, k):
        if not isinstance(k, str):
            raise Unsupported("key of a user dictionary")
        return self.has(k)

    def child(self, k):
        p = self.path + (k,)
        if p in self.leaves:
            return Ghost(self.name, *p)
        return Node(self.name, p, self.leaves)

    def __vc_getitem__(self, k):
        if not isinstance(k, str):
            raise Unsupported("key of a user dictionary")
        if not T.decide(self.has(k)):
            raise KeyError(k)
        return self.child(k)

    def get(self, k, default=None):
        if not T.decide(self.has(k)):
            return default
        return self.child(k)

    def present(self, path):
        """path present from here"""
        cs, node = [], self
        for k in path:
            cs.append(node.has(k))
            node = Node(self.name, node.path + (k,), ())
        return And(*cs)

    def eq(self, o):
        if o is not self and isinstance(o, dict) or isinstance(o, Base) and o is not self and getattr(
                type(o), "PY", None) in (None, dict):
            raise Unsupported("comparison of dictionaries")
        return TRUE if o is self else FALSE


def pieces(x):
    """normal form of a collection built by the code: list of (domain, bv, elem, conds) and concrete parts"""
    from .loops import Segment
    if isinstance(x, SymMap):
        return [("map", x.domain, x.bv, (x.key, x.val), tuple(x.conds))]
    if isinstance(x, SymIter):
        return [("seq", x.domain, x.bv, x.elem, tuple(x.conds))]
    from .boxes import raw
    out = []
    if isinstance(x, dict):
        for k, v in raw(x):
            if isinstance(v, Segment):
                out.append(("map", v.domain, v.bv, v.elem, tuple(v.conds)))
            else:
                out.append(("item", k, v))
        return out
    if isinstance(x, (list, set, tuple)):
        for v in raw(x):
            if isinstance(v, Segment):
                out.append(("seq", v.domain, v.bv, v.elem, tuple(v.conds)))
            else:
                out.append(("elem", v))
        return out
    raise Unsupported(f"collection of type {type(x).__name__}")


def any_eq(a, b):
    """a == b as a Bool term"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return And(*[any_eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
    if isinstance(a, Ghost) and isinstance(b, Ghost):
        return T.B(a.same(b))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Base):
            return T.B(x.eq(y))
        if isinstance(x, Term):
            r = x == y
            return FALSE if r is NotImplemented else T.B(r)
    return TRUE if a == b else FALSE


def has_symbolic(x):
    return is_symbolic(x) or isinstance(x, tuple) and any(has_symbolic(y) for y in x)


class FinSet(Base):
    """finite set with symbolic elements: membership by (symbolic) equality"""
    PY = set

    def __init__(self, items=()):
        self.items_ = []
        for x in items:
            self.add(x)

    def __repr__(self):
        return f"set:{self.items_}"

    def __vc_contains__(self, x):
        return any(y is x or T.decide(any_eq(y, x)) for y in self.items_)

    def add(self, x):
        if not self.__vc_contains__(x):
            self.items_.append(x)

    def __iter__(self):
        return iter(list(self.items_))

    def __len__(self):
        return len(self.items_)

    def __vc_len__(self):
        return len(self.items_)

    def __bool__(self):
        return bool(self.items_)

    @staticmethod
    def of(x):
        return x if isinstance(x, FinSet) else FinSet(list(x))

    def __sub__(self, o):
        o = FinSet.of(o)
        return FinSet([x for x in self.items_ if not o.__vc_contains__(x)])

    def __rsub__(self, o):
        return FinSet.of(o) - self

    def __and__(self, o):
        o = FinSet.of(o)
        return FinSet([x for x in self.items_ if o.__vc_contains__(x)])

    __rand__ = __and__

    def __or__(self, o):
        return FinSet(self.items_ + list(FinSet.of(o).items_))

    __ror__ = __or__

    def difference(self, o):
        return self - o

    def union(self, o):
        return self | o

    def intersection(self, o):
        return self & o

    def __le__(self, o):
        return not (self - o)

    def issubset(self, o):
        return not (self - o)

    def __ge__(self, o):
        return not (FinSet.of(o) - self)

    issuperset = __ge__

    def eq(self, o):
        if not isinstance(o, (set, frozenset, FinSet)):
            return FALSE
        return TRUE if not (self - o) and not (FinSet.of(o) - self) else FALSE


class GhostSet(Base):
    """a set of arbitrarily many unknown elements, given by a predicate per possible partner set"""
    PY = set
    ELEM = Ghost

    def __init__(self, name, conds=(), bv=None):
        self.name = name
        self.n = var(f"len({name})", "I")
        self.bv = bv if bv is not None else fresh("e", "I")
        self.conds = tuple(conds)

    def __repr__(self):
        return f"set:{self.name}"

    def __sym_iter__(self):
        return SymIter(("range", num(0), self.n), self.bv, self.ELEM(self.name, self.bv), self.conds).fresh()

    def __vc_len__(self):
        return self.count()

    def count(self):
        c = And(*self.conds) if self.conds else TRUE
        return T.mk_sum(("range", num(0), self.n), self.bv, T.ite(c, num(1), num(0)))

    def __bool__(self):
        return T.decide(num(0) < self.count())

    def inside(self, other):
        return app("in:" + other, slit(self.name), self.bv, sort="B")

    def __vc_contains__(self, x):
        if isinstance(x, Ghost) and len(x.key) == 2 and isinstance(x.key[1], Term) and not self.conds:
            return app("in:" + self.name, slit(x.key[0]), x.key[1], sort="B")
        raise Unsupported("membership in a ghost set")

    def __sub__(self, o):
        if isinstance(o, GhostSet) and not o.conds:
            return type(self)(self.name, self.conds + (Not(self.inside(o.name)),), self.bv)
        raise Unsupported("difference of ghost sets")

    difference = __sub__

    def __and__(self, o):
        if isinstance(o, GhostSet) and not o.conds:
            return type(self)(self.name, self.conds + (self.inside(o.name),), self.bv)
        raise Unsupported("intersection of ghost sets")

    intersection = __and__

    def __le__(self, o):
        return not bool(self - o)

    def issubset(self, o):
        return not bool(self - o)

    def __ge__(self, o):
        return not bool(o - self)

    issuperset = __ge__

    def keys(self):
        return self

    def eq(self, o):
        raise Unsupported("comparison of ghost sets")
