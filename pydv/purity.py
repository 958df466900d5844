"""Rules are called once per index, by pyomo, in an order of its own: the contracts describe one call.  A rule that leaves something
behind for the next call (in a captured variable, a container, an object, a module's name) is outside them: its call is undone and
reported as unsupported."""
import functools
import types

from .terms import Term, Unsupported

ATOMS = (int, float, complex, str, bytes, bool, type(None), slice, range, types.ModuleType, Term)


def raw(f):
    return getattr(f, "__vc_raw__", f)


def names_of(code, out):
    out.update(code.co_names)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            names_of(c, out)
    return out


_names = {}


def plain(x):
    if isinstance(x, dict):
        return dict(dict.items(x))
    if isinstance(x, list):
        return list(list.__iter__(x))
    return set(set.__iter__(x))


class Frame:
    """what a call of f may change"""

    def __init__(self, fs, skip):
        self.skip = skip
        self.saved = []          # (read, write, content)
        self.seen = {}
        st = list(fs)
        while st:
            self.visit(st.pop(), st)

    def visit(self, x, st):
        if isinstance(x, ATOMS) or isinstance(x, self.skip) or id(x) in self.seen:
            return
        self.seen[id(x)] = x
        if isinstance(x, types.MethodType):
            st += [x.__func__, x.__self__]
        elif isinstance(x, (types.FunctionType, types.BuiltinFunctionType)) or hasattr(x, "__vc_raw__"):
            f = raw(x)
            if f is not x:
                st.append(f)
            if not isinstance(f, types.FunctionType) or "__vc__" not in f.__globals__:
                return
            for c in f.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                self.saved.append((lambda c=c: c.cell_contents, lambda v, c=c: setattr(c, "cell_contents", v), v, None))
                st.append(v)
            st += list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values())
            if f.__dict__:
                self.record(f.__dict__, st)
            n = _names.get(f.__code__)
            if n is None:
                n = _names[f.__code__] = sorted(names_of(f.__code__, set()))
            g = f.__globals__
            for k in n:
                if k in g:
                    v = g[k]
                    self.saved.append((lambda g=g, k=k: g.get(k), lambda v, g=g, k=k: g.__setitem__(k, v), v, None))
                    st.append(v)
        elif isinstance(x, type):
            if "__vc__" in getattr(__import__("sys").modules.get(x.__module__), "__dict__", ()) or x.__module__.startswith("mimosa"):
                d = {k: v for k, v in vars(x).items() if not k.startswith("__")}
                for k, v in d.items():
                    self.saved.append((lambda x=x, k=k: vars(x).get(k), lambda v, x=x, k=k: setattr(x, k, v), v, None))
                    st.append(v)
        elif isinstance(x, (dict, list, set)):
            self.record(x, st)
            d = getattr(x, "__dict__", None)
            if d:
                self.record(d, st)
        elif isinstance(x, (tuple, frozenset)):
            st += list(x)
        elif isinstance(x, (staticmethod, classmethod)):
            st.append(x.__func__)
        elif isinstance(x, property):
            st += [f for f in (x.fget, x.fset) if f is not None]
        elif isinstance(x, functools.partial):
            st += [x.func, *x.args, *x.keywords.values()]
        elif type(x) is functools._lru_cache_wrapper:
            st.append(x.__wrapped__)
            n = x.cache_info().currsize
            self.saved.append((lambda x=x: x.cache_info().currsize, lambda v, x=x: x.cache_clear(), n, "count"))
        elif type(x).__module__.startswith("mimosa") and type(getattr(x, "__dict__", None)) is dict:
            self.record(x.__dict__, st)

    def record(self, x, st):
        c = plain(x)
        seg = getattr(x, "_seg", None)

        def write(v, x=x):
            if isinstance(x, dict):
                dict.clear(x)
                dict.update(x, v)
            elif isinstance(x, list):
                list.clear(x)
                list.extend(x, v)
            else:
                set.clear(x)
                set.update(x, v)
            if seg is not None:
                x._seg = seg
        self.saved.append((lambda x=x: plain(x), write, c, type(c)))
        st += (list(c.values()) + [k for k in c if not isinstance(k, ATOMS)]) if isinstance(c, dict) else list(c)

    def undo(self):
        """whether anything has changed; restores it"""
        bad = False
        for read, write, old, kind in self.saved:
            try:
                new = read()
            except ValueError:
                new = None
            if kind is None:
                ok = new is old
            elif kind == "count":
                ok = new == old
            elif kind is dict:
                ok = len(new) == len(old) and all(a is c and b is d for (a, b), (c, d) in zip(new.items(), old.items()))
            elif kind is list:
                ok = len(new) == len(old) and all(a is b for a, b in zip(new, old))
            else:
                ok = len(new) == len(old) and {id(a) for a in new} == {id(a) for a in old}
            if not ok:
                bad = True
                write(old)
        return bad


def pure(call, *fs):
    """the result of call(), a call of the rules fs"""
    from . import pyostub as P
    fr = Frame(fs, (P.SModel,) + tuple(c for c in vars(P).values() if isinstance(c, type) and c.__module__ == P.__name__))
    try:
        v = call()
    except BaseException:
        if fr.undo():
            raise Unsupported("a rule that leaves something behind for the next call")
        raise
    if fr.undo():
        raise Unsupported("a rule that leaves something behind for the next call")
    return v
