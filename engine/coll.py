"""Dictionaries and sets that accept symbolic keys."""
from . import core, strs
from .core import SymInt, SymBool, SymRat, ite, band, bor, bnot
from .strs import SymStr, SymBytes, SBytearray


def key_sym(k):
    t = type(k)
    if t is SymInt or t is SymStr or t is strs.AltStr or t is SymBool or t is SymBytes or t is SymRat:
        return True
    if t is tuple or t is frozenset:
        return any(key_sym(x) for x in k)
    return False


def values_eq(a, b):
    """a == b without forking where possible"""
    ta, tb = type(a), type(b)
    if ta in (list, tuple) and ta is tb:
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            r = True if x is y else values_eq(x, y)
            if isinstance(r, SymBool):
                conds.append(r)
            elif not r:
                return False
        return band(*conds) if conds else True
    if ta in (str, bytes, int, float, bool, type(None)) and tb in (SymStr, SymInt, SymBytes, SymBool, SymRat, SBytearray):
        return b == a
    return a == b


def mergeable(vals):
    t = None
    for v in vals:
        if isinstance(v, bool):
            return None
        if isinstance(v, (int, SymInt)):
            k = 'i'
        elif isinstance(v, (str, SymStr)) and len(v) == 1:
            k = 's'
        else:
            return None
        if t is None:
            t = k
        elif t != k:
            return None
    return t


class SDict(dict):
    """dict: concrete keys in the native dict, plus a list of symbolic-key entries.
    Insertion order is kept in _order (only while symbolic keys are present)."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._sym = []          # [key, value] in insertion order
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                for x in src.keys():
                    self[x] = src[x]
            else:
                for x, y in src:
                    self[x] = y
        for x in k:
            self[x] = k[x]

    def _nd(self, k):
        if isinstance(k, (SBytearray, bytearray, list, dict, set)):
            raise TypeError('unhashable type')
        return k

    def _find(self, k):
        """-> ('c', key) | ('s', entry) | None, forking on equality"""
        self._nd(k)
        if not key_sym(k):
            if dict.__contains__(self, k):
                return ('c', k)
            for e in self._sym:
                if bool(values_eq(e[0], k)):
                    return ('s', e)
            return None
        cand = []
        for x in dict.keys(self):
            r = values_eq(k, x)
            if r is True:
                return ('c', x)
            if r is not False:
                cand.append((r, ('c', x)))
        for e in self._sym:
            r = values_eq(k, e[0])
            if r is True:
                cand.append((True, ('s', e)))
                break
            if r is not False:
                cand.append((r, ('s', e)))
        if not cand:
            return None
        if not bool(bor(*[c for c, _ in cand])):
            return None
        for c, t in cand[:-1]:
            if bool(c):
                return t
        return cand[-1][1]

    def _has(self, k):
        self._nd(k)
        if not key_sym(k):
            if dict.__contains__(self, k):
                return True
            return bor(*[values_eq(e[0], k) for e in self._sym]) if self._sym else False
        return bor(*([values_eq(k, x) for x in dict.keys(self)] + [values_eq(k, e[0]) for e in self._sym]))

    def __contains__(self, k):
        return bool(self._has(k))

    def __getitem__(self, k):
        if not key_sym(k) and not self._sym:
            return dict.__getitem__(self, k)
        if key_sym(k) and isinstance(k, (SymInt, SymStr)) and not self._sym and dict.__len__(self) > 1:
            # merge the values where they are of one scalar kind
            keys = list(dict.keys(self))
            vals = [dict.__getitem__(self, x) for x in keys]
            kind = mergeable(vals)
            if kind:
                conds = [values_eq(k, x) for x in keys]
                if not bool(bor(*conds)):
                    raise KeyError(k)
                if kind == 's':
                    vals = [strs.cps_of(v)[0] for v in vals]
                r = None
                for c, v in zip(conds, vals):
                    if c is False:
                        continue
                    r = v if r is None else ite(c, v, r)
                return strs.mkstr([r]) if kind == 's' else r
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        return dict.__getitem__(self, f[1]) if f[0] == 'c' else f[1][1]

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __setitem__(self, k, v):
        f = self._find(k)
        if f is None:
            if key_sym(k) or self._sym:     # keeps insertion order
                self._sym.append([k, v])
            else:
                dict.__setitem__(self, k, v)
        elif f[0] == 'c':
            dict.__setitem__(self, f[1], v)
        else:
            f[1][1] = v

    def __delitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        if f[0] == 'c':
            dict.__delitem__(self, f[1])
        else:
            self._remove_entry(f[1])

    def _remove_entry(self, e):
        for i, x in enumerate(self._sym):
            if x is e:
                del self._sym[i]
                return

    def __len__(self):
        return dict.__len__(self) + len(self._sym)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        for k in dict.keys(self):
            yield k
        n = len(self._sym)
        for e in list(self._sym):
            if len(self._sym) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield e[0]

    def keys(self):
        return KeysView(self)

    def values(self):
        return ItemsView(self, 1)

    def items(self):
        return ItemsView(self, 2)

    def setdefault(self, k, d=None):
        f = self._find(k)
        if f is None:
            self[k] = d
            return d
        return dict.__getitem__(self, f[1]) if f[0] == 'c' else f[1][1]

    _missing = object()

    def pop(self, k, d=_missing):
        f = self._find(k)
        if f is None:
            if d is SDict._missing:
                raise KeyError(k)
            return d
        if f[0] == 'c':
            return dict.pop(self, f[1])
        self._remove_entry(f[1])
        return f[1][1]

    def popitem(self):
        if self._sym:
            e = self._sym.pop()
            return (e[0], e[1])
        return dict.popitem(self)

    def update(self, *a, **k):
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                for x in src.keys():
                    self[x] = src[x]
            else:
                for x, y in src:
                    self[x] = y
        for x in k:
            self[x] = k[x]

    def clear(self):
        dict.clear(self)
        self._sym = []

    def copy(self):
        d = SDict()
        dict.update(d, self._native())
        d._sym = [[a, b] for a, b in self._sym]
        return d

    def _native(self):
        return {k: dict.__getitem__(self, k) for k in dict.keys(self)}

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        conds = []
        for k, v in self.items():
            if isinstance(o, SDict):
                f = o._find(k)
                if f is None:
                    return False
                w = dict.__getitem__(o, f[1]) if f[0] == 'c' else f[1][1]
            else:
                if k not in o:
                    return False
                w = o[k]
            conds.append(values_eq(v, w))
        return band(*conds) if conds else True

    def __ne__(self, o):
        return bnot(self.__eq__(o))
    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join('%s: %s' % (strs.nat(strs.to_repr(k)), strs.nat(strs.to_repr(v))) for k, v in self.items())

    @classmethod
    def fromkeys(cls, it, v=None):
        d = SDict()
        for k in it:
            d[k] = v
        return d


class KeysView(object):
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def _has(self, k):
        return self.d._has(k)

    def _set(self):
        return SSet(self.d)

    def __eq__(self, o):
        return self._set() == o

    def __and__(self, o):
        return self._set() & SSet(o)

    def __or__(self, o):
        return self._set() | SSet(o)

    def __sub__(self, o):
        return self._set() - SSet(o)

    def __repr__(self):
        return 'dict_keys(%r)' % list(self)


class ItemsView(object):
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        d = self.d
        if self.kind == 1:
            for v in dict.values(d):
                yield v
            n = len(d._sym)
            for e in list(d._sym):
                if len(d._sym) != n:
                    raise RuntimeError('dictionary changed size during iteration')
                yield e[1]
        else:
            for kv in dict.items(d):
                yield kv
            for e in list(d._sym):
                yield (e[0], e[1])

    def __contains__(self, x):
        return bool(bor(*[values_eq(x, y) for y in self]))

    def __repr__(self):
        return 'dict_items(%r)' % list(self)


class SSet(object):
    """set with possibly symbolic elements (elements pairwise distinct on the path)"""
    frozen = False

    def __init__(self, it=()):
        self._d = SDict()
        for x in it:
            self._d[x] = True

    def _has(self, k):
        return self._d._has(k)

    def __contains__(self, k):
        return bool(self._d._has(k))

    def __iter__(self):
        # order of a set is unspecified: keep the order of native sets for concrete elements
        if not self._d._sym:
            return iter(set(dict.keys(self._d)))
        return iter(list(self._d))

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        for x in self:
            break
        else:
            raise KeyError('pop from an empty set')
        self.remove(x)
        return x

    def clear(self):
        self._d.clear()

    def copy(self):
        return SSet(list(self._d))

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, o):
        o = o if isinstance(o, (SSet, KeysView)) else SSet(o)
        return SSet([x for x in self if x in o])

    def difference(self, o):
        o = o if isinstance(o, (SSet, KeysView)) else SSet(o)
        return SSet([x for x in self if x not in o])

    def issubset(self, o):
        o = o if isinstance(o, (SSet, KeysView)) else SSet(o)
        return band(*[o._has(x) for x in self])

    def issuperset(self, o):
        return SSet(o).issubset(self)

    def isdisjoint(self, o):
        return bnot(bor(*[self._has(x) for x in o]))

    __or__ = union
    __and__ = intersection
    __sub__ = difference

    def __xor__(self, o):
        return (self - o) | (SSet(o) - self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (SSet, set, frozenset, KeysView)):
            return False
        if len(self) != len(o):
            return False
        return self.issubset(o)

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)
    __hash__ = None

    def __repr__(self):
        return 'SSet(%r)' % list(self)
