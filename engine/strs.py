"""Symbolic strings / bytes: sequences of concrete length whose items may be symbolic."""
import string as _string
import unicodedata
import z3
from . import core
from .core import SymInt, SymBool, SymRat, ite, select, band, bor, bnot, mkbool, num, EngineError

# ------------------------------------------------------------- char predicates
_ranges_cache = {}


def class_ranges(name, lo, hi):
    key = (name, lo, hi)
    r = _ranges_cache.get(key)
    if r is None:
        pred = CLASSES[name]
        r = []
        start = None
        for cp in range(lo, hi + 1):
            if pred(chr(cp)):
                if start is None:
                    start = cp
            elif start is not None:
                r.append((start, cp - 1))
                start = None
        if start is not None:
            r.append((start, hi))
        _ranges_cache[key] = r
    return r


def _is_word(c):
    return c.isalnum() or c == '_'


CLASSES = {'isdigit': str.isdigit, 'isalnum': str.isalnum, 'isalpha': str.isalpha, 'isspace': str.isspace,
           'isdecimal': str.isdecimal, 'isnumeric': str.isnumeric, 'word': _is_word,
           'isupper1': str.isupper, 'islower1': str.islower, 'isprintable': str.isprintable,
           'cased': lambda c: c.isupper() or c.islower() or c.istitle(),
           'lowerchg': lambda c: c.lower() != c, 'upperchg': lambda c: c.upper() != c,
           'linebreak': lambda c: c in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'}


def in_class(cp, name):
    """cp int|SymInt -> bool|SymBool"""
    if isinstance(cp, int):
        return CLASSES[name](chr(cp))
    conds = []
    for a, b in class_ranges(name, cp.lo, cp.hi):
        if a == b:
            conds.append(cp == a)
        else:
            conds.append(band(cp >= a, cp <= b))
    return bor(*conds) if conds else False


def decimal_value(cp):
    """value of a decimal digit code point known to be a decimal digit"""
    if isinstance(cp, int):
        return unicodedata.decimal(chr(cp))
    if cp.hi < 0x80:
        return cp - 48
    r = 0
    for a, b in class_ranges('isdecimal', cp.lo, cp.hi):
        while a <= b:
            v = unicodedata.decimal(chr(a))
            e = min(b, a + 9 - v)
            r = ite(band(cp >= a, cp <= e), cp - a + v, r)
            a = e + 1
    return r


# --------------------------------------------------------------------- strings
def mkstr(cps):
    for c in cps:
        if not isinstance(c, int):
            return SymStr(list(cps))
    return ''.join(map(chr, cps))


def cps_of(s):
    if isinstance(s, SymStr):
        return s.c
    return [ord(x) for x in s]


def is_str(s):
    return isinstance(s, (str, SymStr))


def nat(s):
    """concretise to a native str"""
    if isinstance(s, SymStr):
        return ''.join(chr(c if isinstance(c, int) else c.concretize()) for c in s.c)
    return s


def caseshift(x, a, b, d):
    """x + d for x in [a,b], else x"""
    if isinstance(x, int):
        return x + d if a <= x <= b else x
    lo, hi = max(x.lo, a), min(x.hi, b)
    if lo > hi:
        return x
    r = ite(band(x >= a, x <= b), SymInt(x.e, lo, hi) + d, x)
    if isinstance(r, SymInt):
        r = SymInt(r.e, max(r.lo, 0), min(r.hi, 0x10FFFF))
    return r


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
            continue
        r = (x == y) if isinstance(x, SymInt) else (y == x)
        if r is False:
            return False
        if r is not True:
            conds.append(r)
    return band(*conds) if conds else True


def seq_lt(a, b, orequal):
    """lexicographic a<b (or <=) without forking"""
    n = min(len(a), len(b))
    r = (len(a) <= len(b)) if orequal else (len(a) < len(b))
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        lt = (x < y)
        eq = (x == y)
        r = bor(lt, band(eq, r))
    return r


def clampidx(i, n):
    if i < 0:
        i += n
    return i


def conc_slice(s, n):
    def cv(x, lo, hi):
        if isinstance(x, SymBool):
            x = x._int()
        if isinstance(x, SymInt):
            # clamp first so that the enumeration is small
            x = ite(x > n, n + 1, ite(x < -n, -n - 1, x))
            if isinstance(x, SymInt):
                x = x.concretize()
        return x
    return slice(cv(s.start, -n, n), cv(s.stop, -n, n), cv(s.step, -n, n))


def seq_index(items, i, what):
    """index into a list of ints/SymInts by int|SymInt -> item"""
    n = len(items)
    if isinstance(i, SymBool):
        i = i._int()
    if isinstance(i, SymInt):
        if not bool(band(i >= -n, i < n)):
            raise IndexError(what + ' index out of range')
        if i.lo < 0:
            if bool(i < 0):
                i = i + n
            if isinstance(i, int):
                return items[i]
        if n == 0:
            raise IndexError(what + ' index out of range')
        return select(items, i)
    return items[i]


class SymStr(object):
    """str with concrete length and symbolic code points"""
    __slots__ = ('c', '_m')

    def __init__(self, cps):
        self.c = cps

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for x in self.c:
            yield chr(x) if isinstance(x, int) else SymStr([x])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[conc_slice(i, len(self.c))])
        return mkstr([seq_index(self.c, i, 'string')])

    def __add__(self, o):
        if is_str(o):
            return mkstr(self.c + cps_of(o))
        return NotImplemented

    def __radd__(self, o):
        if is_str(o):
            return mkstr(cps_of(o) + self.c)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.c * int(n))
    __rmul__ = __mul__

    def __mod__(self, a):
        return nat(self) % a

    def __eq__(self, o):
        if is_str(o):
            return seq_eq(self.c, cps_of(o))
        return False

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __lt__(self, o):
        return seq_lt(self.c, cps_of(o), False) if is_str(o) else NotImplemented

    def __le__(self, o):
        return seq_lt(self.c, cps_of(o), True) if is_str(o) else NotImplemented

    def __gt__(self, o):
        return seq_lt(cps_of(o), self.c, False) if is_str(o) else NotImplemented

    def __ge__(self, o):
        return seq_lt(cps_of(o), self.c, True) if is_str(o) else NotImplemented

    def __contains__(self, o):
        return bool(self.find(o) != -1)

    def __hash__(self):
        return hash(nat(self))

    def __repr__(self):
        return 'SymStr<%d>' % len(self.c)

    def __str__(self):
        return nat(self)

    def __format__(self, spec):
        return nat(format_value(self, spec))

    # ---- searching
    def _match_at(self, sub, i):
        return seq_eq(self.c[i:i + len(sub)], sub)

    def _bounds(self, start, end):
        n = len(self.c)
        s = slice(None if start is None else start, end)
        s = conc_slice(s, n)
        st = 0 if s.start is None else (s.start + n if s.start < 0 else s.start)
        en = n if s.stop is None else (s.stop + n if s.stop < 0 else s.stop)
        return max(st, 0), min(max(en, 0), n)

    def find(self, sub, start=None, end=None):
        if not is_str(sub):
            raise TypeError('must be str, not ' + type(sub).__name__)
        sub = cps_of(sub)
        st, en = self._bounds(start, end)
        if start is not None and isinstance(start, int) and start > len(self.c):
            return -1
        r = -1
        for i in range(en - len(sub), st - 1, -1):
            r = ite(self._match_at(sub, i), i, r)
        return r

    def rfind(self, sub, start=None, end=None):
        sub = cps_of(sub)
        st, en = self._bounds(start, end)
        r = -1
        for i in range(st, en - len(sub) + 1):
            r = ite(self._match_at(sub, i), i, r)
        return r

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if bool(r == -1):
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if bool(r == -1):
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = cps_of(sub)
        st, en = self._bounds(start, end)
        if len(sub) == 1:
            r = 0
            for i in range(st, en):
                r = r + ite(self._match_at(sub, i), 1, 0)
            return r
        if not sub:
            return en - st + 1
        n = 0
        i = st
        while i + len(sub) <= en:
            if self._match_at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return bor(*[self.startswith(x, start, end) for x in p])
        st, en = self._bounds(start, end)
        p = cps_of(p)
        if len(p) > en - st:
            return False
        return seq_eq(self.c[st:st + len(p)], p)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return bor(*[self.endswith(x, start, end) for x in p])
        st, en = self._bounds(start, end)
        p = cps_of(p)
        if len(p) > en - st:
            return False
        return seq_eq(self.c[en - len(p):en], p)

    # ---- classification
    def _all(self, name):
        if not self.c:
            return False
        return band(*[in_class(x, name) for x in self.c])

    def isdigit(self):
        return self._all('isdigit')

    def isalnum(self):
        return self._all('isalnum')

    def isalpha(self):
        return self._all('isalpha')

    def isspace(self):
        return self._all('isspace')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isprintable(self):
        return self._all('isprintable')

    def isascii(self):
        return band(*[x < 128 for x in self.c]) if self.c else True

    def isupper(self):
        return band(bor(*[in_class(x, 'isupper1') for x in self.c]),
                    *[bor(in_class(x, 'isupper1'), bnot(in_class(x, 'cased'))) for x in self.c])

    def islower(self):
        return band(bor(*[in_class(x, 'islower1') for x in self.c]),
                    *[bor(in_class(x, 'islower1'), bnot(in_class(x, 'cased'))) for x in self.c])

    # ---- case
    def _map(self, fn, cls, a, b, d):
        out = []
        for x in self.c:
            if isinstance(x, int):
                out.extend(ord(y) for y in fn(chr(x)))
                continue
            if x.hi >= 128:
                if bool(x >= 128):
                    if bool(in_class(x, cls)):
                        out.extend(ord(y) for y in fn(chr(x.concretize())))
                    else:
                        out.append(x)
                    continue
                x = SymInt(x.e, x.lo, 127)
            out.append(caseshift(x, a, b, d))
        return mkstr(out)

    def upper(self):
        return self._map(str.upper, 'upperchg', 97, 122, -32)

    def lower(self):
        return self._map(str.lower, 'lowerchg', 65, 90, 32)

    casefold = lower

    # ---- trimming / padding
    def _trim(self, chars, left, right):
        c = self.c
        a, b = 0, len(c)

        def test(x):
            if chars is None:
                return in_class(x, 'isspace')
            return bor(*[x == y for y in cps_of(chars)]) if len(chars) else False
        if left:
            while a < b and bool(test(c[a])):
                a += 1
        if right:
            while b > a and bool(test(c[b - 1])):
                b -= 1
        return mkstr(c[a:b])

    def strip(self, chars=None):
        return self._trim(chars, True, True)

    def lstrip(self, chars=None):
        return self._trim(chars, True, False)

    def rstrip(self, chars=None):
        return self._trim(chars, False, True)

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if len(p) and bool(self.endswith(p)) else self

    def zfill(self, w):
        w = int(w)
        n = w - len(self.c)
        if n <= 0:
            return self
        if self.c and bool(bor(self.c[0] == 43, self.c[0] == 45)):
            return mkstr(self.c[:1] + [48] * n + self.c[1:])
        return mkstr([48] * n + self.c)

    def ljust(self, w, f=' '):
        return mkstr(self.c + cps_of(f) * max(0, int(w) - len(self.c)))

    def rjust(self, w, f=' '):
        return mkstr(cps_of(f) * max(0, int(w) - len(self.c)) + self.c)

    def center(self, w, f=' '):
        pad = max(0, int(w) - len(self.c))
        left = pad // 2 + (pad & int(w) & 1)
        return mkstr(cps_of(f) * left + self.c + cps_of(f) * (pad - left))

    # ---- splitting / joining
    def _positions(self, sub, maxn):
        i = 0
        n = len(self.c)
        res = []
        while i + len(sub) <= n and (maxn < 0 or len(res) < maxn):
            if bool(self._match_at(sub, i)):
                res.append(i)
                i += len(sub)
            else:
                i += 1
        return res

    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if sep is None:
            out = []
            i = 0
            n = len(self.c)
            while True:
                while i < n and bool(in_class(self.c[i], 'isspace')):
                    i += 1
                if i >= n:
                    return out
                if 0 <= maxsplit <= len(out):
                    out.append(mkstr(self.c[i:]).rstrip())
                    return out
                j = i
                while j < n and not bool(in_class(self.c[j], 'isspace')):
                    j += 1
                out.append(mkstr(self.c[i:j]))
                i = j
        sub = cps_of(sep)
        if not sub:
            raise ValueError('empty separator')
        out = []
        last = 0
        for p in self._positions(sub, maxsplit):
            out.append(mkstr(self.c[last:p]))
            last = p + len(sub)
        out.append(mkstr(self.c[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if int(maxsplit) < 0:
            return self.split(sep)
        r = mkstr(self.c[::-1])
        if isinstance(r, str):
            return nat(self).rsplit(sep, maxsplit)
        sp = None if sep is None else mkstr(cps_of(sep)[::-1])
        return [mkstr(cps_of(x)[::-1]) for x in r.split(sp, maxsplit)][::-1]

    def splitlines(self, keepends=False):
        out = []
        i = 0
        n = len(self.c)
        start = 0
        while i < n:
            if bool(in_class(self.c[i], 'linebreak')):
                j = i + 1
                if j < n and bool(band(self.c[i] == 13, self.c[j] == 10)):
                    j += 1
                out.append(mkstr(self.c[start:j if keepends else i]))
                i = start = j
            else:
                i += 1
        if start < n:
            out.append(mkstr(self.c[start:]))
        return out

    def partition(self, sep):
        ps = self._positions(cps_of(sep), 1)
        if not ps:
            return (self, '', '')
        p = ps[0]
        return (mkstr(self.c[:p]), sep, mkstr(self.c[p + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        i = int(i)
        if i < 0:
            return ('', '', self)
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):]))

    def replace(self, old, new, count=-1):
        o = cps_of(old)
        nw = cps_of(new)
        if len(o) == 1 and len(nw) == 1 and count < 0:
            return mkstr([ite(x == o[0], nw[0], x) for x in self.c])
        if not o:
            return nat(self).replace(nat(old), nat(new), count)
        out = []
        last = 0
        for p in self._positions(o, int(count)):
            out += self.c[last:p] + nw
            last = p + len(o)
        return mkstr(out + self.c[last:])

    def join(self, it):
        return str_join(self, it)

    def format(self, *a, **k):
        return str_format(self, a, k)

    def encode(self, enc='utf-8', errors='strict'):
        return str_encode(self, enc, errors)

    def expandtabs(self, n=8):
        return nat(self).expandtabs(n)

    def translate(self, table):
        out = []
        for x in self.c:
            x = x if isinstance(x, int) else x.concretize()
            out += [ord(y) for y in chr(x).translate(table)]
        return mkstr(out)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(nat(self), name)


def str_join(sep, it):
    sep = cps_of(sep)
    out = []
    first = True
    for x in it:
        if not is_str(x):
            raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
        if not first:
            out.extend(sep)
        first = False
        out.extend(cps_of(x))
    return mkstr(out)


def norm_enc(enc):
    return nat(enc).lower().replace('_', '-')


def str_encode(s, enc='utf-8', errors='strict'):
    e = norm_enc(enc)
    cps = cps_of(s)
    if e in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1', 'iso8859-1'):
        lim = 128 if 'ascii' in e else 256
        out = []
        for i, x in enumerate(cps):
            if bool(x < lim):
                out.append(x if isinstance(x, int) or x.hi < lim else SymInt(x.e, x.lo, lim - 1))
            elif errors == 'ignore':
                pass
            elif errors == 'replace':
                out.append(63)
            else:
                raise UnicodeEncodeError(e, 'x', 0, 1, 'ordinal not in range(%d)' % lim)
        return mkbytes(out)
    if e in ('utf-16-be', 'utf-16be', 'utf-16-le', 'utf-16le'):
        out = []

        def unit(u):
            hl = [u >> 8, u & 0xFF]
            out.extend(hl if 'be' in e else hl[::-1])
        for x in cps:
            if bool(x < 0x10000):
                if bool(band(x >= 0xD800, x <= 0xDFFF)):
                    if errors == 'surrogatepass':
                        unit(x)
                        continue
                    raise UnicodeEncodeError(e, 'x', 0, 1, 'surrogates not allowed')
                x = x if isinstance(x, int) else SymInt(x.e, x.lo, min(x.hi, 0xFFFF))
                unit(x)
            else:
                y = x - 0x10000
                if isinstance(y, SymInt):
                    y = SymInt(y.e, 0, 0xFFFFF)
                unit((y >> 10) + 0xD800)
                unit((y & 0x3FF) + 0xDC00)
        return mkbytes(out)
    if e in ('utf-8', 'utf8'):
        out = []
        for x in cps:
            if bool(x < 0x80):
                out.append(x if isinstance(x, int) else SymInt(x.e, x.lo, min(x.hi, 0x7F)))
            elif bool(x < 0x800):
                out += [0xC0 + ((x >> 6) & 0x1F), 0x80 + (x & 0x3F)]
            elif bool(x < 0x10000):
                if bool(band(x >= 0xD800, x <= 0xDFFF)):
                    raise UnicodeEncodeError(e, 'x', 0, 1, 'surrogates not allowed')
                out += [0xE0 + ((x >> 12) & 0xF), 0x80 + ((x >> 6) & 0x3F), 0x80 + (x & 0x3F)]
            else:
                out += [0xF0 + ((x >> 18) & 7), 0x80 + ((x >> 12) & 0x3F), 0x80 + ((x >> 6) & 0x3F), 0x80 + (x & 0x3F)]
        return mkbytes(out)
    return nat(s).encode(e, errors)


# ------------------------------------------------------------------- formatting
def int_digits(v, base, upper=False):
    """digits of non-negative v (int|SymInt) -> list of cps; forks on the number of digits"""
    if isinstance(v, int):
        s = {10: '%d', 16: '%X' if upper else '%x', 8: '%o'}.get(base)
        s = (s % v) if s else bin(v)[2:]
        return [ord(c) for c in s]
    n = 1
    while v.hi >= base ** n and bool(v >= base ** n):
        n += 1
    if v.hi >= base ** n:
        v = SymInt(v.e, v.lo, base ** n - 1)
    out = []
    for k in range(n - 1, -1, -1):
        d = (v // base ** k) % base
        if base <= 10:
            out.append(d + 48)
        else:
            out.append(ite(d < 10, d + 48, d + (55 if upper else 87)))
    return out


class AltStr(SymStr):
    """a string whose length is not decided yet: alternatives (cond, code points), conditions exclusive and exhaustive;
    any operation that needs the length forks and turns the object into the chosen plain SymStr"""
    __slots__ = ()

    @property
    def c(self):
        alts = self._m
        for i, (cond, cps) in enumerate(alts):
            if i == len(alts) - 1 or bool(cond):
                break
        self.__class__ = SymStr
        self.c = cps
        return cps

    def __getitem__(self, i):
        if isinstance(i, slice) and all(x is None or type(x) is int for x in (i.start, i.stop, i.step)):
            return alt_map(self._m, lambda cps: cps[i])
        return SymStr.__getitem__(self, i)

    def zfill(self, w):
        if type(w) is int and not any(cps and isinstance(cps[0], int) and cps[0] in (43, 45) for _, cps in self._m):
            return alt_map(self._m, lambda cps: [48] * max(0, w - len(cps)) + cps)
        return SymStr.zfill(self, w)

    def ljust(self, w, f=' '):
        if type(w) is int and type(f) is str:
            return alt_map(self._m, lambda cps: cps + [ord(f)] * max(0, w - len(cps)))
        return SymStr.ljust(self, w, f)

    def rjust(self, w, f=' '):
        if type(w) is int and type(f) is str:
            return alt_map(self._m, lambda cps: [ord(f)] * max(0, w - len(cps)) + cps)
        return SymStr.rjust(self, w, f)


def alt_map(alts, f):
    """string of the alternatives mapped by f; alternatives of equal length are merged without forking"""
    groups = {}
    for cond, cps in alts:
        r = f(cps)
        g = groups.get(len(r))
        if g is None:
            groups[len(r)] = [cond, r]
        else:
            g[1] = [ite(cond, x, y) for x, y in zip(r, g[1])]
            g[0] = bor(g[0], cond)
    out = [(c, r) for c, r in groups.values()]
    if len(out) == 1:
        return mkstr(out[0][1])
    a = AltStr.__new__(AltStr)
    a._m = out
    return a


def int_alts(v, base, upper=False):
    """[(cond, digits)] of a non-negative int|SymInt, one entry per possible number of digits"""
    if isinstance(v, int):
        return [(True, int_digits(v, base, upper))]
    out = []
    n = 1
    while True:
        lo, hi = (base ** (n - 1) if n > 1 else 0), base ** n - 1
        if v.hi >= lo and v.lo <= hi:
            ds = []
            for k in range(n - 1, -1, -1):
                d = (v // base ** k) % base
                ds.append(d + 48 if base <= 10 else ite(d < 10, d + 48, d + (55 if upper else 87)))
            cond = True
            if v.lo < lo:
                cond = v >= lo
            if v.hi > hi:
                cond = band(cond, v <= hi)
            out.append((cond, ds))
        if v.hi <= hi:
            return out
        n += 1


def int_to_str(v, base=10, upper=False, prefix=''):
    if isinstance(v, SymBool):
        v = v._int()
    neg = False
    if isinstance(v, int):
        neg = v < 0
    elif v.lo < 0:
        neg = bool(v < 0)
    if neg:
        v = -v
    pre = ([45] if neg else []) + [ord(c) for c in prefix]
    return alt_map(int_alts(v, base, upper), lambda cps: pre + cps)


def to_str(v):
    """str(v) keeping symbolic values"""
    if is_str(v):
        return v
    if isinstance(v, SymBool):
        return 'True' if bool(v) else 'False'
    if isinstance(v, SymInt):
        return int_to_str(v)
    if isinstance(v, SymRat):
        return str(float(v))
    if isinstance(v, (SymBytes, SBytearray)):
        return repr(v.native())
    f = getattr(type(v), '__str__', None)
    if isinstance(v, BaseException) and f is BaseException.__str__:
        if len(v.args) == 0:
            return ''
        if len(v.args) == 1:
            return to_str(v.args[0])
        return to_repr(v.args)
    if isinstance(v, (list, tuple, set, dict)):
        return to_repr(v)
    if f is object.__str__ or f is None:
        return to_repr(v)
    if isinstance(v, KeyError):
        return to_repr(v.args[0]) if len(v.args) == 1 else to_repr(v.args)
    r = f(v)
    return r


def to_repr(v):
    if isinstance(v, SymStr):
        # printable ASCII without quotes and backslashes is shown as it is
        if bool(band(*[band(x >= 32, x < 127, x != 39, x != 92) for x in v.c])):
            return mkstr([39] + list(v.c) + [39])
        return repr(nat(v))
    if isinstance(v, (SymInt, SymBool)):
        return to_str(v)
    if isinstance(v, SymRat):
        return repr(float(v))
    if isinstance(v, (list, tuple)):
        ls = [to_repr(x) for x in v]
        if isinstance(v, list):
            return str_join('', ['[', str_join(', ', ls), ']'])
        return str_join('', ['(', str_join(', ', ls), ',)' if len(ls) == 1 else ')'])
    if isinstance(v, (SymBytes, SBytearray)):
        return repr(v.native())
    f = type(v).__repr__
    return f(v)


def parse_spec(spec):
    import re
    m = re.match(r'^(?:(.)?([<>=^]))?([ +-])?(z)?(#)?(0)?(\d+)?([_,])?(?:\.(\d+))?([a-zA-Z%])?$', spec, re.S)
    if not m:
        raise ValueError('Invalid format specifier')
    return m.groups()


def format_value(v, spec):
    spec = nat(spec)
    if isinstance(v, SymBool) :
        if spec == '':
            return to_str(v)
        v = v._int()
    if spec == '':
        return to_str(v)
    if isinstance(v, (SymInt, SymStr)):
        fill, align, sign, z, alt, zero, width, comma, prec, ty = parse_spec(spec)
        width = int(width) if width else 0
        if isinstance(v, SymInt):
            if ty in (None, 'd', 'x', 'X', 'b', 'o', 'n') and not comma and prec is None:
                base = {'x': 16, 'X': 16, 'b': 2, 'o': 8}.get(ty, 10)
                neg = v.lo < 0 and bool(v < 0)
                alts = int_alts(-v if neg else v, base, ty == 'X')
                sg = '-' if neg else ({'+': '+', ' ': ' '}.get(sign, ''))
                if alt:
                    sg += {16: '0' + ty if ty else '', 2: '0b', 8: '0o'}.get(base, '') if base != 10 else ''
                sg = [ord(c) for c in sg]
                if zero and not align:
                    align, fill = '=', '0'
                fill = ord(fill or '0' if zero else fill or ' ')
                align = align or '>'

                def lay(cps):
                    pad = [fill] * max(0, width - len(sg) - len(cps))
                    if align == '=':
                        return sg + pad + cps
                    if align == '>':
                        return pad + sg + cps
                    if align == '<':
                        return sg + cps + pad
                    h = len(pad) // 2
                    return pad[:h] + sg + cps + pad[h:]
                return alt_map(alts, lay)
            if ty == 'c':
                return mkstr([v])
            return format(v.concretize(), spec)
        if ty not in (None, 's'):
            raise ValueError("Unknown format code '%s' for object of type 'str'" % ty)
        cps = v.c
        if prec is not None:
            cps = cps[:int(prec)]
        if zero and not fill:
            fill = '0'
        if zero and not align:
            align = '<'
        pad = [ord(fill or ' ')] * max(0, width - len(cps))
        align = align or '<'
        if align == '=':
            raise ValueError("'=' alignment not allowed in string format specifier")
        if align == '<':
            return mkstr(cps + pad)
        if align == '>':
            return mkstr(pad + cps)
        h = len(pad) // 2
        return mkstr(pad[:h] + cps + pad[h:])
    if isinstance(v, SymRat):
        return format(float(v), spec)
    return format(v, spec)


def str_format(tmpl, args, kwargs, getattr_=getattr):
    cps = cps_of(tmpl)
    # classify the symbolic characters of the template
    conc = []
    hole = {}
    for i, x in enumerate(cps):
        if isinstance(x, int):
            conc.append(chr(x))
        elif bool(x == 0x7B):
            conc.append('{')
        elif bool(x == 0x7D):
            conc.append('}')
        else:
            ph = chr(0xF0000 + len(hole))
            hole[ph] = x
            conc.append(ph)
    out = []

    def lit(text):
        for ch in text:
            out.append(hole.get(ch, ord(ch)))
    auto = [0]

    def getfield(name):
        for ch in name:
            if ch in hole:
                name = name.replace(ch, chr(hole[ch].concretize()))
        first, rest = _string._string.formatter_field_name_split(name)
        if first == '':
            first = auto[0]
            auto[0] += 1
        if isinstance(first, int):
            v = args[first] if first < len(args) else None
            if first >= len(args):
                raise IndexError('Replacement index %d out of range for positional args tuple' % first)
        else:
            v = kwargs[first]
        for isattr, k in rest:
            v = getattr(v, k) if isattr else v[k]
        return v

    def run(t, depth):
        for text, field, spec, conv in _string.Formatter().parse(t):
            if text:
                lit(text)
            if field is not None:
                v = getfield(field)
                if conv == 'r':
                    v = to_repr(v)
                elif conv == 's':
                    v = to_str(v)
                elif conv == 'a':
                    v = ascii(nat(v) if is_str(v) else v)
                if spec and '{' in spec:
                    save = out[:]
                    del out[:]
                    run(spec, depth + 1)
                    spec = nat(mkstr(out))
                    out[:] = save
                elif spec:
                    for ch in spec:
                        if ch in hole:
                            spec = spec.replace(ch, chr(hole[ch].concretize()))
                out.extend(cps_of(format_value(v, spec or '')))
    run(''.join(conc), 0)
    return mkstr(out)


def percent_format(tmpl, arg):
    import re
    t = nat(tmpl)
    out = []
    pos = 0
    ai = 0
    args = arg if isinstance(arg, tuple) else None
    for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([a-zA-Z%])', t):
        out.extend(ord(c) for c in t[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, ty = m.groups()
        if ty == '%':
            out.append(37)
            continue
        if key is not None:
            v = arg[key]
        elif args is not None:
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[ai]
            ai += 1
        else:
            if ai:
                raise TypeError('not enough arguments for format string')
            v = arg
            ai = 1
        if width == '*':
            raise EngineError('%* formatting')
        if not isinstance(v, (SymInt, SymStr, SymBool, SymRat)) and ty not in 'sr':
            out.extend(ord(c) for c in ('%' + flags + (width or '') + ('.' + prec if prec else '') + ty) % v)
            continue
        if ty == 's':
            s = to_str(v)
            if prec is not None:
                s = s[:int(prec)]
        elif ty == 'r':
            s = to_repr(v)
        elif ty in 'diuxXo' and isinstance(v, (SymInt, SymBool)):
            if prec is not None:
                raise EngineError('precision')
            sp = ''
            if '-' in flags:
                sp += '<'
            if '+' in flags:
                sp += '+'
            elif ' ' in flags:
                sp += ' '
            if '#' in flags:
                sp += '#'
            if '0' in flags and '-' not in flags:
                sp += '0'
            sp += width or ''
            sp += 'd' if ty in 'diu' else ty
            out.extend(cps_of(format_value(v, sp)))
            continue
        elif ty == 'c':
            s = v if is_str(v) else mkstr([v])
        else:
            v = nat(v) if is_str(v) else float(v) if isinstance(v, SymRat) else int(v)
            out.extend(ord(c) for c in ('%' + flags + (width or '') + ('.' + prec if prec else '') + ty) % v)
            continue
        c = cps_of(s)
        pad = [32] * max(0, int(width or 0) - len(c))
        out.extend(c + pad if '-' in flags else pad + c)
    out.extend(ord(c) for c in t[pos:])
    if args is not None and ai < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(out)


# ---------------------------------------------------------------- str -> int
def parse_int(s, base=10):
    """int(s, base) for a SymStr"""
    cps = list(s.c)
    if base == 0:
        return int(nat(s), 0)
    # fast path: every character a plain digit of the base
    def plain(x):
        if base <= 10:
            return band(x >= 48, x <= 47 + base)
        return bor(band(x >= 48, x <= 57), band(x >= 65, x <= 54 + base), band(x >= 97, x <= 86 + base))

    def val(x):
        if base <= 10:
            return x - 48
        if isinstance(x, int):
            return int(chr(x), base)
        return ite(x <= 57, x - 48, ite(x <= 90, x - 55, x - 87))

    def narrow(x):
        v = val(x)
        return v if isinstance(v, int) else SymInt(v.e, max(v.lo, 0), min(v.hi, base - 1)) if v.lo != 0 or v.hi != base - 1 else v

    def horner(cs):
        r = 0
        for x in cs:
            r = r * base + narrow(x)
        return r
    if len(cps) >= 1 and bool(band(*[plain(x) for x in cps])):
        return horner(cps)
    t = SymStr(cps).strip()
    if isinstance(t, str):
        return int(t, base)
    cps = list(t.c)
    sign = 1
    if bool(cps[0] == 45):
        sign = -1
        cps = cps[1:]
    elif bool(cps[0] == 43):
        cps = cps[1:]
    if len(cps) >= 1 and bool(band(*[plain(x) for x in cps])):
        return sign * horner(cps)
    if base == 16 and len(cps) > 2 and bool(band(cps[0] == 48, bor(cps[1] == 120, cps[1] == 88))):
        cps = cps[2:]
        if bool(cps[0] == 95):
            cps = cps[1:]
    # slow path: underscores and non-ASCII decimal digits
    out = []
    prev_us = True
    for x in cps:
        if bool(plain(x)):
            out.append(narrow(x))
            prev_us = False
        elif bool(x == 95):
            if prev_us:
                raise ValueError('invalid literal for int() with base %d' % base)
            prev_us = True
        elif bool(band(x >= 128, in_class(x, 'isdecimal'))):
            d = decimal_value(x)
            if not bool(d < base):
                raise ValueError('invalid literal for int() with base %d' % base)
            out.append(d)
            prev_us = False
        else:
            raise ValueError('invalid literal for int() with base %d' % base)
    if prev_us or not out:
        raise ValueError('invalid literal for int() with base %d' % base)
    r = 0
    for d in out:
        r = r * base + d
    return sign * r


# ----------------------------------------------------------------------- bytes
def mkbytes(items):
    for c in items:
        if not isinstance(c, int):
            return SymBytes(list(items))
    return bytes(items)


def byte_items(b):
    if isinstance(b, (SymBytes, SBytearray)):
        return b.b
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    return None


def is_bytes(b):
    return isinstance(b, (bytes, bytearray, SymBytes, SBytearray))


def check_byte(v, what='byte'):
    if isinstance(v, SymBool):
        v = v._int()
    if isinstance(v, SymInt):
        if (v.lo < 0 or v.hi > 255):
            if not bool(band(v >= 0, v <= 255)):
                raise ValueError('byte must be in range(0, 256)')
            lo, hi = max(v.lo, 0), min(v.hi, 255)
            w = core.sbits(lo, hi)
            return core.mkint(core.towidth(v.e, w), lo, hi)
        return v
    if not isinstance(v, int):
        if hasattr(v, '__index__'):
            v = v.__index__()
        else:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if not 0 <= v <= 255:
        raise ValueError('byte must be in range(0, 256)')
    return int(v)


def bytes_from(src):
    """items for bytes(src)/bytearray(src)"""
    if isinstance(src, (SymInt, SymBool)):
        src = src.__index__()
    if isinstance(src, int):
        return [0] * src
    it = byte_items(src)
    if it is not None:
        return list(it)
    if is_str(src):
        raise TypeError('string argument without an encoding')
    return [check_byte(x) for x in src]


class _BytesBase(object):
    __slots__ = ('b',)

    def __init__(self, items):
        self.b = items

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return len(self.b) > 0

    def native(self):
        return bytes(x if isinstance(x, int) else x.concretize() for x in self.b)

    def __eq__(self, o):
        it = byte_items(o)
        if it is None:
            return False
        return seq_eq(self.b, it)

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __lt__(self, o):
        return seq_lt(self.b, byte_items(o), False)

    def __le__(self, o):
        return seq_lt(self.b, byte_items(o), True)

    def __gt__(self, o):
        return seq_lt(byte_items(o), self.b, False)

    def __ge__(self, o):
        return seq_lt(byte_items(o), self.b, True)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self.b[conc_slice(i, len(self.b))])
        return seq_index(self.b, i, self._name)

    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            return bool(bor(*[(y == x) for y in self.b]))
        return bool(SymStr(self.b).find(SymStr(byte_items(x))) != -1)

    def __mul__(self, n):
        return self._mk(self.b * int(n))
    __rmul__ = __mul__

    def _s(self):
        return SymStr(self.b)

    def _back(self, v):
        if isinstance(v, list):
            return [self._back(x) for x in v]
        if is_str(v):
            return self._mk(cps_of(v))
        return v

    def _arg(self, x):
        it = byte_items(x)
        if it is not None:
            return SymStr(it)
        if isinstance(x, (int, SymInt)):
            return x
        return x

    def decode(self, enc='utf-8', errors='strict'):
        e = norm_enc(enc)
        if e in ('ascii', 'us-ascii'):
            for x in self.b:
                if not bool(x < 128):
                    if errors == 'strict':
                        raise UnicodeDecodeError('ascii', b'x', 0, 1, 'ordinal not in range(128)')
                    return self.native().decode(enc, errors)
            return mkstr([x if isinstance(x, int) or x.hi < 128 else SymInt(x.e, x.lo, 127) for x in self.b])
        if e in ('latin-1', 'latin1', 'iso-8859-1'):
            return mkstr(list(self.b))
        if e in ('utf-16-be', 'utf-16be'):
            out = []
            b = self.b
            i = 0
            while i + 1 < len(b):
                u = (b[i] << 8) | b[i + 1]
                i += 2
                if bool(band(u >= 0xD800, u <= 0xDFFF)):
                    if errors == 'surrogatepass':
                        # only a high+low pair combines
                        if i + 1 < len(b) and bool(u <= 0xDBFF):
                            u2 = (b[i] << 8) | b[i + 1]
                            if bool(band(u2 >= 0xDC00, u2 <= 0xDFFF)):
                                out.append(((u & 0x3FF) << 10 | (u2 & 0x3FF)) + 0x10000)
                                i += 2
                                continue
                        out.append(u)
                        continue
                    if not bool(u <= 0xDBFF):
                        if errors in ('replace', 'ignore'):
                            if errors == 'replace':
                                out.append(0xFFFD)
                            continue
                        raise UnicodeDecodeError('utf-16-be', b'x', 0, 1, 'illegal encoding')
                    if i + 1 >= len(b):
                        return self.native().decode(enc, errors)
                    u2 = (b[i] << 8) | b[i + 1]
                    if not bool(band(u2 >= 0xDC00, u2 <= 0xDFFF)):
                        if errors in ('replace', 'ignore'):
                            if errors == 'replace':
                                out.append(0xFFFD)
                            continue
                        raise UnicodeDecodeError('utf-16-be', b'x', 0, 1, 'illegal UTF-16 surrogate')
                    i += 2
                    out.append(((u & 0x3FF) << 10 | (u2 & 0x3FF)) + 0x10000)
                    continue
                out.append(u)
            if i < len(b):
                if errors in ('replace', 'ignore'):
                    if errors == 'replace':
                        out.append(0xFFFD)
                else:
                    raise UnicodeDecodeError('utf-16-be', b'x', 0, 1, 'truncated data')
            return mkstr(out)
        if e in ('utf-8', 'utf8'):
            if bool(band(*[x < 128 for x in self.b])):
                return mkstr([x if isinstance(x, int) or x.hi < 128 else SymInt(x.e, x.lo, 127) for x in self.b])
        return self.native().decode(enc, errors)

    def hex(self, *a):
        if a:
            return self.native().hex(*a)
        return mkstr(hex_cps(self.b))

    def find(self, x, *a):
        if isinstance(x, (int, SymInt)):
            return SymStr(self.b).find(SymStr([x]), *a)
        return SymStr(self.b).find(self._arg(x), *a)

    def rfind(self, x, *a):
        if isinstance(x, (int, SymInt)):
            return SymStr(self.b).rfind(SymStr([x]), *a)
        return SymStr(self.b).rfind(self._arg(x), *a)

    def index(self, x, *a):
        r = self.find(x, *a)
        if bool(r == -1):
            raise ValueError('subsection not found')
        return r

    def count(self, x, *a):
        if isinstance(x, (int, SymInt)):
            x = SymStr([x])
        else:
            x = self._arg(x)
        return SymStr(self.b).count(x, *a)

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            p = tuple(self._arg(x) for x in p)
        else:
            p = self._arg(p)
        return SymStr(self.b).startswith(p, *a)

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            p = tuple(self._arg(x) for x in p)
        else:
            p = self._arg(p)
        return SymStr(self.b).endswith(p, *a)

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out += self.b
            first = False
            out += byte_items(x)
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        return self._back(SymStr(self.b).split(None if sep is None else self._arg(sep), maxsplit))

    def strip(self, chars=None):
        return self._back(SymStr(self.b).strip(None if chars is None else self._arg(chars)))

    def lstrip(self, chars=None):
        return self._back(SymStr(self.b).lstrip(None if chars is None else self._arg(chars)))

    def rstrip(self, chars=None):
        return self._back(SymStr(self.b).rstrip(None if chars is None else self._arg(chars)))

    def ljust(self, w, f=b' '):
        return self._mk(self.b + list(byte_items(f)) * max(0, int(w) - len(self.b)))

    def rjust(self, w, f=b' '):
        return self._mk(list(byte_items(f)) * max(0, int(w) - len(self.b)) + self.b)

    def upper(self):
        return self._mk([caseshift(x, 97, 122, -32) for x in self.b])

    def lower(self):
        return self._mk([caseshift(x, 65, 90, 32) for x in self.b])

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(bytes, name):
            raise AttributeError("'%s' object has no attribute %r" % (self._name, name))
        return getattr(self.native(), name)


def hex_cps(items, upper=False):
    out = []
    for x in items:
        for nib in (x >> 4, x & 0xF):
            if isinstance(nib, int):
                out.append(ord('0123456789abcdef'[nib]))
            else:
                out.append(ite(nib < 10, nib + 48, nib + 87))
    return out


def unhex_items(cps, exc):
    """list of byte items from hex digit cps; raises exc on bad input"""
    if len(cps) % 2:
        raise exc('Odd-length string')
    out = []
    for i in range(0, len(cps), 2):
        vals = []
        for x in cps[i:i + 2]:
            ok = bor(band(x >= 48, x <= 57), band(x >= 65, x <= 70), band(x >= 97, x <= 102))
            if not bool(ok):
                raise exc('Non-hexadecimal digit found')
            if isinstance(x, int):
                vals.append(int(chr(x), 16))
            else:
                v = ite(x <= 57, x - 48, ite(x <= 70, x - 55, x - 87))
                vals.append(v if isinstance(v, int) else core.mkint(core.towidth(v.e, 5), 0, 15))
        out.append(vals[0] * 16 + vals[1])
    return out


class SymBytes(_BytesBase):
    __slots__ = ()
    _name = 'bytes'

    def _mk(self, items):
        return mkbytes(items)

    def __iter__(self):
        return iter(self.b)

    def __hash__(self):
        return hash(self.native())

    def __add__(self, o):
        it = byte_items(o)
        if it is None:
            return NotImplemented
        return mkbytes(self.b + list(it))

    def __radd__(self, o):
        it = byte_items(o)
        if it is None:
            return NotImplemented
        return mkbytes(list(it) + self.b)

    def __repr__(self):
        return 'SymBytes<%d>' % len(self.b)


class SBytearray(_BytesBase):
    """bytearray (always used in symbolic mode)"""
    __slots__ = ()
    _name = 'bytearray'
    __hash__ = None

    def _mk(self, items):
        return SBytearray(list(items))

    def __iter__(self):
        i = 0
        while i < len(self.b):
            yield self.b[i]
            i += 1

    def append(self, v):
        self.b.append(check_byte(v))

    def extend(self, it):
        x = byte_items(it)
        if x is None:
            if is_str(it):
                raise TypeError("expected iterable of integers; got: 'str'")
            x = [check_byte(v) for v in it]
        self.b.extend(list(x))

    def insert(self, i, v):
        self.b.insert(int(i), check_byte(v))

    def pop(self, i=-1):
        return self.b.pop(int(i))

    def remove(self, v):
        i = self.find(v)
        if bool(i == -1):
            raise ValueError('value not found in bytearray')
        del self.b[int(i)]

    def reverse(self):
        self.b.reverse()

    def clear(self):
        del self.b[:]

    def copy(self):
        return SBytearray(list(self.b))

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.b[conc_slice(i, len(self.b))] = bytes_from(v)
        else:
            if isinstance(i, (SymInt, SymBool)):
                i = i.__index__()
            self.b[i] = check_byte(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self.b[conc_slice(i, len(self.b))]
        else:
            del self.b[int(i)]

    def __add__(self, o):
        it = byte_items(o)
        if it is None:
            return NotImplemented
        return SBytearray(self.b + list(it))

    def __radd__(self, o):
        it = byte_items(o)
        if it is None:
            return NotImplemented
        return mkbytes(list(it) + self.b)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __copy__(self):
        return SBytearray(list(self.b))

    def __deepcopy__(self, memo):
        return SBytearray(list(self.b))

    def __repr__(self):
        return 'SBytearray<%d>' % len(self.b)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(bytearray, name):
            raise AttributeError("'bytearray' object has no attribute %r" % name)
        return getattr(bytearray(self.native()), name)
