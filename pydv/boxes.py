"""Lists, dictionaries and sets of the code under contract.

They are Python's own (subclasses; the rewriter creates them for displays and calls of list/dict/set) until a summarised loop
writes into them: then they hold segments (an arbitrary number of entries, given by a domain and a term), and every reading
operation either takes the segments into account or is Unsupported."""
from . import terms as T
from .terms import Term, Unsupported, And, num, lift
from .loops import Segment


def segmented(x):
    return isinstance(x, (VList, VDict, VSet)) and x._seg


def raw(x):
    """the entries as stored"""
    if isinstance(x, dict):
        return list(dict.items(x))
    if isinstance(x, list):
        return list(list.__iter__(x))
    if isinstance(x, (set, frozenset)):
        return list(set.__iter__(x) if isinstance(x, set) else x)
    return list(x)


def parts(x):
    """pieces in order: ("one", entry) or ("many", SymIter)"""
    from .engine import distinct
    out = []
    if isinstance(x, dict):
        for k, v in dict.items(x):
            if isinstance(v, Segment) and isinstance(v.elem, tuple) and len(v.elem) == 2 and not distinct(v.elem[0], v.bv):
                raise Unsupported("entries of a dictionary whose keys may coincide")
            out.append(("many", many(v)) if isinstance(v, Segment) else ("one", (k, v)))
        if len(out) > 1 and any(k == "many" for k, _ in out):
            raise Unsupported("entries of a dictionary filled in several ways")
    else:
        for v in raw(x):
            out.append(("many", many(v)) if isinstance(v, Segment) else ("one", v))
        if isinstance(x, (set, frozenset)) and any(k == "many" for k, _ in out):
            raise Unsupported("elements of a set filled in a loop")
    return out


def many(seg):
    from .engine import SymIter
    e = seg.elem[1] if isinstance(seg.elem, tuple) and len(seg.elem) == 2 else seg.elem
    if isinstance(e, Segment) or isinstance(seg.elem, Segment):
        raise Unsupported("entries written by nested loops")
    return SymIter(seg.domain, seg.bv, seg.elem, seg.conds).fresh()


def joined(ps, f=lambda e: e):
    """pieces -> SymIter when there is only one, else a list with segments"""
    if len(ps) == 1 and ps[0][0] == "many":
        return ps[0][1].map(f)
    out = VList()
    for k, p in ps:
        if k == "one":
            list.append(out, f(p))
        else:
            q = p.map(f)
            list.append(out, Segment(q.domain, q.bv, q.elem, q.conds))
            out._seg = True
    return out


def count(ps):
    n = num(0)
    for k, p in ps:
        n = n + (1 if k == "one" else p.count())
    return n


def lookup(domain, bv, key, val, conds, k):
    """value of the entry with key k; KeyError if there is none"""
    from .engine import subst_any
    from .symany import Ghost
    at, rng = None, []
    if hasattr(type(key), "lookup"):
        at = key.lookup(k)
    elif isinstance(key, Term) and key is bv:
        k = lift(k) if not isinstance(k, (str, tuple)) else k
        if not isinstance(k, Term) or (k.sort == "Reg") != (bv.sort == "Reg") or k.sort not in ("I", "Reg"):
            raise Unsupported("key of a dictionary filled in a loop")
        at = k
        if isinstance(domain, tuple) and domain[0] == "range":
            rng = [domain[1] <= k, k < domain[2]]
        elif bv.sort != "Reg":
            raise Unsupported("domain of a dictionary filled in a loop")
    elif isinstance(key, Ghost) and isinstance(k, Ghost) and len(key.key) == 3 and len(k.key) == 3 and key.key[:2] == k.key[:2] \
            and key.key[1] == "key" and key.key[2] is bv:
        at = k.key[2]
        if isinstance(domain, tuple) and domain[0] == "range":
            rng = [domain[1] <= at, at < domain[2]]
    if at is None:
        raise Unsupported("lookup in a dictionary filled in a loop")
    s = {bv.id: at}
    ok = And(*rng, *[T.subst(c, s) for c in conds])
    if ok.op != "true" and not T.decide(ok):
        raise KeyError(k)
    return subst_any(val, s)


class VList(list):
    __slots__ = ("_seg", "_rt")

    def __init__(self, x=(), rt=None):
        list.__init__(self, raw(x) if isinstance(x, list) else x)
        self._seg = segmented(x)
        self._rt = rt

    @property
    def __sym_iter__(self):
        return (lambda: joined_iter(self)) if self._seg else None

    @property
    def __vc_len__(self):
        return (lambda: count(parts(self))) if self._seg else None

    @property
    def __vc_contains__(self):
        return self._unsupported if self._seg else None

    @property
    def __vc_getitem__(self):
        return self.__getitem__ if self._seg else None

    def _unsupported(self, *a, **k):
        raise Unsupported("operation on a list filled in a loop")

    def __iter__(self):
        if self._seg:
            self._unsupported()
        return list.__iter__(self)

    def __len__(self):
        if self._seg:
            self._unsupported()
        return list.__len__(self)

    def __bool__(self):
        if not self._seg:
            return list.__len__(self) > 0
        ps = parts(self)
        return any(k == "one" for k, _ in ps) or T.decide(num(0) < count(ps))

    def __getitem__(self, k):
        if not self._seg:
            r = list.__getitem__(self, k)
            return VList(r, self._rt) if isinstance(k, slice) else r
        ps = parts(self)
        if len(ps) == 1:
            return ps[0][1].get(k)
        if isinstance(k, int) and k >= 0 and len(ps) > k and all(x == "one" for x, _ in ps[:k + 1]):
            return ps[k][1]
        if isinstance(k, int) and k < 0 and len(ps) >= -k and all(x == "one" for x, _ in ps[k:]):
            return ps[k][1]
        self._unsupported()

    def __add__(self, o):
        from .engine import SymIter
        if isinstance(o, SymIter):
            return NotImplemented
        if not isinstance(o, list):
            return list.__add__(self, o)
        r = VList(raw(self) + raw(o), self._rt)
        r._seg = self._seg or segmented(o)
        return r

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        r = VList(raw(o) + raw(self), self._rt)
        r._seg = self._seg or segmented(o)
        return r

    def __iadd__(self, o):
        self._rt.mut(self, "extend", o) if self._rt is not None else list.extend(self, o)
        return self

    def extend(self, o):
        from .engine import SymIter
        if isinstance(o, SymIter):
            list.append(self, Segment(o.domain, o.bv, o.elem, o.conds))
            self._seg = True
            return
        if getattr(o, "__sym_iter__", None) and not isinstance(o, list):
            return self.extend(o.__sym_iter__())
        if isinstance(o, list):
            list.extend(self, raw(o))
            self._seg = self._seg or segmented(o)
            return
        list.extend(self, o)

    def append(self, x):
        list.append(self, x)
        if isinstance(x, Segment):
            self._seg = True

    def _plain(name):      # noqa: N805
        def f(self, *a, **k):
            if self._seg:
                self._unsupported()
            if name in ("sort", "reverse") and self._rt is not None and self._rt.frames and id(self) not in self._rt.frames[-1].local:
                raise Unsupported(f"{name} of an outer list in a symbolic loop")
            return getattr(list, name)(self, *a, **k)
        return f
    for _n in ("index", "count", "pop", "remove", "insert", "sort", "reverse", "__contains__", "__mul__", "__rmul__", "__reversed__",
               "__lt__", "__le__", "__gt__", "__ge__"):
        locals()[_n] = _plain(_n)
    del _n, _plain

    def __eq__(self, o):
        if isinstance(o, list) and (self._seg or segmented(o)):
            if self is o:
                return True
            raise Unsupported("comparison of lists filled in a loop")
        return list.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        return VList(self, self._rt)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = VList((), self._rt)
        memo[id(self)] = r
        list.extend(r, [copy.deepcopy(x, memo) for x in raw(self)])
        r._seg = self._seg
        return r

    def __reduce__(self):
        return (list, (raw(self),))


def joined_iter(x):
    from .engine import SymIter
    r = joined(parts(x))
    if not isinstance(r, SymIter):
        raise Unsupported("iteration over a list filled in several ways")
    return r


class VDict(dict):
    __slots__ = ("_seg", "_rt")

    def __init__(self, *a, rt=None, **k):
        self._seg, self._rt = False, rt
        if a and segmented(a[0]):
            for kk, v in raw(a[0]):
                dict.__setitem__(self, kk, v)
            self._seg = True
            a = ()
        dict.__init__(self, *a, **k)

    def _unsupported(self, *a, **k):
        raise Unsupported("operation on a dictionary filled in a loop")

    def _map(self, f, name):
        if not self._seg:
            return getattr(dict, name)(self)
        return joined(parts(self), f)

    def items(self):
        return self._map(lambda e: e, "items")

    def keys(self):
        return self._map(lambda e: e[0], "keys")

    def values(self):
        return self._map(lambda e: e[1], "values")

    @property
    def __sym_iter__(self):
        return self.keys if self._seg else None

    @property
    def __vc_len__(self):
        return (lambda: count(parts(self))) if self._seg else None

    @property
    def __vc_getitem__(self):
        return self._find if self._seg else None

    @property
    def __vc_contains__(self):
        return self._has if self._seg else None

    def _find(self, k):
        from .engine import same_key
        for kk, v in reversed(raw(self)):
            if isinstance(v, Segment):
                if not (isinstance(v.elem, tuple) and len(v.elem) == 2) or isinstance(v.elem[1], Segment):
                    self._unsupported()
                if isinstance(k, (str, int)) and isinstance(v.elem[0], (str, int)):
                    if k != v.elem[0]:
                        continue
                    self._unsupported()
                try:
                    return lookup(v.domain, v.bv, v.elem[0], v.elem[1], v.conds, k)
                except KeyError:
                    continue
            if same_key(kk, k):
                return v
        raise KeyError(k)

    def _has(self, k):
        try:
            self._find(k)
            return True
        except KeyError:
            return False

    def __getitem__(self, k):
        return self._find(k) if self._seg else dict.__getitem__(self, k)

    def get(self, k, default=None):
        from .engine import symkey, same_key
        if not self._seg:
            if symkey(k) or any(symkey(y) for y in dict.keys(self)):
                for kk, v in dict.items(self):
                    if same_key(kk, k):
                        return v
                return default
            return dict.get(self, k, default)
        try:
            return self._find(k)
        except KeyError:
            return default

    def __setitem__(self, k, v):
        if self._seg and not isinstance(v, Segment):
            dict.pop(self, k, None)         # the latest entry comes last
        dict.__setitem__(self, k, v)
        if isinstance(v, Segment):
            self._seg = True

    def update(self, *a, **k):
        if a and segmented(a[0]) and isinstance(a[0], dict):
            for kk, v in raw(a[0]):
                self[kk] = v
            a = ()
        if a and type(a[0]).__name__ == "SymMap":
            o = a[0]
            self[("segment", o.bv.id, 0, len(raw(self)))] = Segment(o.domain, o.bv, (o.key, o.val), o.conds)
            a = ()
        if self._seg:
            for kk, v in dict(*a, **k).items():
                self[kk] = v
        else:
            dict.update(self, *a, **k)

    def __iter__(self):
        if self._seg:
            self._unsupported()
        return dict.__iter__(self)

    def __len__(self):
        if self._seg:
            self._unsupported()
        return dict.__len__(self)

    def __contains__(self, k):
        return self._has(k) if self._seg else dict.__contains__(self, k)

    def __bool__(self):
        if not self._seg:
            return dict.__len__(self) > 0
        if any(not isinstance(v, Segment) for _, v in raw(self)):
            return True
        return T.decide(num(0) < count(parts(self)))

    def _plain(name):      # noqa: N805
        def f(self, *a, **k):
            if self._seg:
                self._unsupported()
            return getattr(dict, name)(self, *a, **k)
        return f
    for _n in ("pop", "popitem", "setdefault", "__delitem__", "__reversed__"):
        locals()[_n] = _plain(_n)
    del _n, _plain

    def __or__(self, o):
        r = VDict(self, rt=self._rt)
        r.update(o)
        return r

    def __ror__(self, o):
        r = VDict(o, rt=self._rt)
        r.update(self)
        return r

    def __ior__(self, o):
        self._rt.mut(self, "update", o) if self._rt is not None else self.update(o)
        return self

    def __eq__(self, o):
        if isinstance(o, dict) and (self._seg or segmented(o)):
            if self is o:
                return True
            raise Unsupported("comparison of dictionaries filled in a loop")
        return dict.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        return VDict(self, rt=self._rt)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = VDict(rt=self._rt)
        memo[id(self)] = r
        for k, v in raw(self):
            dict.__setitem__(r, copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        r._seg = self._seg
        return r

    def __reduce__(self):
        return (dict, (dict(raw(self)),))


class VSet(set):
    __slots__ = ("_seg", "_rt")

    def __init__(self, x=(), rt=None):
        set.__init__(self, raw(x) if isinstance(x, (set, list)) else x)
        self._seg, self._rt = segmented(x), rt

    def _unsupported(self, *a, **k):
        raise Unsupported("operation on a set filled in a loop")

    def add(self, x):
        set.add(self, x)
        if isinstance(x, Segment):
            self._seg = True

    def __iter__(self):
        if self._seg:
            self._unsupported()
        return set.__iter__(self)

    def __len__(self):
        if self._seg:
            self._unsupported()
        return set.__len__(self)

    def __bool__(self):
        if not self._seg:
            return set.__len__(self) > 0
        if any(not isinstance(v, Segment) for v in raw(self)):
            return True
        return T.decide(num(0) < count([("many", many(v)) for v in raw(self)]))

    def __contains__(self, k):
        if self._seg:
            self._unsupported()
        return set.__contains__(self, k)

    def _plain(name):      # noqa: N805
        def f(self, *a, **k):
            if self._seg or any(segmented(x) for x in a):
                self._unsupported()
            r = getattr(set, name)(self, *a, **k)
            return VSet(r, self._rt) if type(r) is set else r
        return f
    for _n in ("pop", "remove", "discard", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset",
               "isdisjoint", "__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__le__", "__lt__", "__ge__", "__gt__",
               "__eq__", "__ne__", "update", "difference_update", "intersection_update", "copy"):
        locals()[_n] = _plain(_n)
    del _n, _plain

    def __ior__(self, o):
        self._rt.mut(self, "update", o) if self._rt is not None else self.update(o)
        return self

    __hash__ = None
    __copy__ = lambda self: VSet(self, self._rt)      # noqa: E731

    def __deepcopy__(self, memo):
        import copy
        r = VSet([copy.deepcopy(x, memo) for x in raw(self)], self._rt)
        r._seg = self._seg
        return r

    def __reduce__(self):
        return (set, (raw(self),))


for _c, _p in ((VList, list), (VDict, dict), (VSet, set)):
    _c.__name__, _c.__qualname__ = _p.__name__, _p.__qualname__


def box(x, rt=None):
    """x as a container of the code"""
    t = type(x)
    if t is list:
        return VList(x, rt)
    if t is dict:
        return VDict(x, rt=rt)
    if t is set:
        return VSet(x, rt)
    return x
