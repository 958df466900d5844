"""State of the loaded modules, and descriptions of values: what an operation may leave behind is decided on these"""
import functools
import gc
import types

from . import terms as T
from .terms import Term

ATOMS = (int, float, complex, str, bytes, bool, type(None), slice, range)


def raw(f):
    return getattr(f, "__vc_raw__", f)


class Describe:
    """flat description of a value: equal descriptions, equal behaviour.  Fresh variables are numbered in order of appearance;
    objects met before are referred to by their number"""

    def __init__(self, own, skip=(), identity=False):
        self.own, self.skip, self.identity = own, skip, identity
        self.out, self.seen, self.keep, self.vars = [], {}, [], {}

    def term(self, t):
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, Term):
                if x.op == "var":
                    n = str(x.args[0])
                    if "!" in n or "#" in n:
                        n = self.vars.setdefault(n, f"v{len(self.vars)}")
                    self.out.append(n)
                else:
                    self.out.append(f"({x.op}/{len(x.args)}")
                    st.extend(reversed(x.args))
            else:
                self.out.append(repr(x))

    def code(self, c):
        self.out.append(f"code {c.co_qualname}:{c.co_firstlineno} {hash(c.co_code)}")

    def go(self, x):
        out = self.out
        if isinstance(x, ATOMS):
            out.append(f"{type(x).__name__}:{x!r}")
            return
        if isinstance(x, Term):
            self.term(x)
            return
        k = id(x)
        if k in self.seen:
            out.append(f"@{self.seen[k]}")
            return
        self.seen[k] = len(self.seen)
        self.keep.append(x)
        if k in self.skip:
            out.append("(left out)")
            return
        if isinstance(x, types.ModuleType):
            out.append(f"module {x.__name__}")
        elif isinstance(x, (types.FunctionType, types.MethodType)) or hasattr(x, "__vc_raw__"):
            self.function(x)
        elif isinstance(x, type):
            if self.own(x):
                out.append(f"class {x.__qualname__} {id(x)}")
                for n, v in sorted(vars(x).items(), key=lambda p: p[0]):
                    if n not in ("__dict__", "__weakref__", "__doc__", "__module__", "__firstlineno__", "__static_attributes__", "_abc_impl"):
                        out.append(n)
                        self.go(v)
            else:
                out.append(f"class {x.__module__}.{x.__qualname__}")
        elif isinstance(x, dict):
            out.append(f"dict {len(x)}" + (f" {k}" if self.identity else ""))
            for a, b in x.items():
                self.go(a)
                self.go(b)
            if type(x) is not dict and getattr(x, "__dict__", None):
                self.go(dict(vars(x)))
        elif isinstance(x, (list, tuple)):
            out.append(f"{type(x).__name__} {len(x)}" + (f" {k}" if self.identity and isinstance(x, list) else ""))
            for a in x:
                self.go(a)
        elif isinstance(x, (set, frozenset)):
            out.append(f"set {len(x)}")
            for a in sorted(x, key=repr):
                self.go(a)
        elif isinstance(x, (property, staticmethod, classmethod, functools.cached_property)):
            out.append(type(x).__name__)
            for n in ("fget", "fset", "__func__", "func"):
                if getattr(x, n, None) is not None:
                    self.go(getattr(x, n))
        elif isinstance(x, functools.partial):
            out.append("partial")
            self.go([x.func, list(x.args), dict(x.keywords)])
        elif type(x) is functools._lru_cache_wrapper:
            out.append(f"cache {x.cache_info().currsize}")
            self.go(x.__wrapped__)
        elif isinstance(getattr(x, "__dict__", None), dict) and (self.own(type(x)) or type(x).__module__.startswith("pydv")):
            out.append(f"object {type(x).__qualname__}" + (f" {k}" if self.identity else ""))
            for n, v in vars(x).items():
                if n not in ("m", "model", "template", "template_params", "touched", "created", "unfolding", "replaced"):
                    out.append(n)
                    self.go(v)
        elif isinstance(x, types.CellType):
            self.go(cell(x))
        elif isinstance(x, types.MappingProxyType):
            self.go(dict(x))
        else:
            out.append(f"other {type(x).__qualname__}" + (f" {k}" if self.identity else ""))

    def function(self, f):
        if isinstance(f, types.MethodType):
            self.out.append("method")
            self.go(f.__self__)
            f = f.__func__
        w = f
        f = raw(f)
        c = getattr(f, "__code__", None)
        if c is None:
            self.out.append(f"callable {type(f).__qualname__} {getattr(f, '__qualname__', '')}")
            return
        self.code(c)
        if "__vc__" not in f.__globals__:
            return
        if f.__defaults__:
            self.go(f.__defaults__)
        if f.__kwdefaults__:
            self.go(f.__kwdefaults__)
        for x in f.__closure__ or ():
            self.go(x)
        for g in {id(f): f, id(w): w}.values():
            d = {n: v for n, v in (getattr(g, "__dict__", None) or {}).items() if not n.startswith("__")}
            if d:
                self.go(d)


def cell(c):
    try:
        return c.cell_contents
    except ValueError:
        return None


def own_class(w):
    names = set(w.modules)
    return lambda c: getattr(c, "__module__", None) in names


def describe(w, x, skip=()):
    d = Describe(own_class(w), skip)
    d.go(x)
    return d.out


def snapshot(w, skip=()):
    """every module: what its names hold, with the identity of the containers"""
    out = {}
    for n, m in list(w.modules.items()):
        for k, v in list(vars(m).items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            if isinstance(v, types.ModuleType) or isinstance(v, type) and own_class(w)(v) and v.__module__ != n:
                out[n, k] = ("ref", id(v))
                continue
            d = Describe(own_class(w), skip, identity=True)
            d.go(v)
            out[n, k] = d.out
    return out


def changes(a, b):
    """names that hold something else (modules loaded in between are new, not changed)"""
    mods = {n for n, _ in a}
    out = [f"{n}.{k}" for (n, k), v in a.items() if b.get((n, k)) != v]
    import_of = {(n, k) for (n, k) in b if n in mods and (n, k) not in a}
    return out + [f"{n}.{k}" for n, k in import_of if b[n, k][:1] != ("ref",)]


def containers(x, w, into=None, deep=True):
    """identities of every dictionary, list and set reachable from x (deep: through objects and captured variables too)"""
    out = {} if into is None else into
    own = own_class(w)
    st, seen = [x], set()
    keep = []
    while st:
        x = st.pop()
        if isinstance(x, ATOMS) or isinstance(x, (Term, types.ModuleType)) or id(x) in seen:
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, dict):
            out[id(x)] = x
            st += list(x.keys()) + list(x.values())
        elif isinstance(x, (list, set)):
            out[id(x)] = x
            st += list(x)
        elif isinstance(x, (tuple, frozenset)):
            st += list(x)
        elif not deep:
            continue
        elif isinstance(x, types.MethodType):
            st += [x.__self__, x.__func__]
        elif isinstance(x, types.FunctionType) or hasattr(x, "__vc_raw__"):
            f = raw(x)
            st += list(getattr(f, "__defaults__", None) or ()) + [cell(c) for c in getattr(f, "__closure__", None) or ()]
            st += list((getattr(f, "__dict__", None) or {}).values())
        elif type(x) is functools._lru_cache_wrapper:
            st += [y for y in gc.get_referents(x) if isinstance(y, (dict, list))]
        elif isinstance(x, type):
            if own(x):
                st += list(vars(x).values())
        elif isinstance(getattr(x, "__dict__", None), dict) and own(type(x)):
            st += list(vars(x).values())
    return out


def of_state(w):
    """containers reachable from the modules"""
    out = {}
    for m in list(w.modules.values()):
        for k, v in list(vars(m).items()):
            if not (k.startswith("__") and k.endswith("__")) and not isinstance(v, types.ModuleType):
                containers(v, w, out)
    return out


class Keep:
    """the modules' state after import, to start every path of an exploration with"""

    def __init__(self, w):
        self.w, self.mods, self.held = w, {}, {}
        self.take()
        w.keepers[:] = [k for k in w.keepers if k.alive] + [self]

    alive = True

    def take_module(self, name):
        """a module that has just been imported"""
        self.mods.pop(name, None)
        self.take([name])

    def take(self, names=None):
        own = own_class(self.w)
        for n, m in list(self.w.modules.items()):
            if n in self.mods or names is not None and n not in names:
                continue
            self.mods[n] = m, dict(vars(m)), [(c, dict(vars(c))) for c in vars(m).values() if isinstance(c, type) and own(c) and c.__module__ == n]
            found = {}
            for k, v in vars(m).items():
                if not (k.startswith("__") and k.endswith("__")) and not isinstance(v, types.ModuleType):
                    containers(v, self.w, found)
            for k, v in found.items():
                self.held.setdefault(k, (v, list(list.__iter__(v)) if isinstance(v, list) else list(dict.items(v)) if isinstance(v, dict) else set(set.__iter__(v)), getattr(v, "_seg", None)))

    def restore(self):
        for m, d, classes in self.mods.values():
            now = vars(m)
            for k in list(now):
                if k not in d and not isinstance(now[k], types.ModuleType) and not k.startswith("__"):
                    del now[k]
            for k, v in d.items():
                if now.get(k, self) is not v:
                    now[k] = v
            for v in list(d.values()):
                if type(v) is functools._lru_cache_wrapper:
                    v.cache_clear()
            for c, cd in classes:
                for k in set(vars(c)) - set(cd):
                    delattr(c, k)
                for k, v in cd.items():
                    if vars(c)[k] is not v:
                        setattr(c, k, v)
                    if type(getattr(v, "__func__", v)) is functools._lru_cache_wrapper:
                        getattr(v, "__func__", v).cache_clear()
        for v, old, seg in self.held.values():
            if isinstance(v, list):
                if not (list.__len__(v) == len(old) and all(a is b for a, b in zip(list.__iter__(v), old))):
                    list.__setitem__(v, slice(None), old)
                    mark(v, seg)
            elif isinstance(v, set):
                set.clear(v)
                set.update(v, old)
                mark(v, seg)
            elif not (dict.__len__(v) == len(old) and all(a is c and b is x for (a, b), (c, x) in zip(dict.items(v), old))):
                dict.clear(v)
                for k, x in old:
                    dict.__setitem__(v, k, x)
                mark(v, seg)


def mark(v, seg):
    """whether a container of the engine holds elements of a loop"""
    if seg is not None:
        v._seg = seg
