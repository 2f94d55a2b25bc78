"""Backtracking interpreter for Python regular expressions over symbolic strings.
Works on the parse tree produced by CPython's own regex parser; every test of a symbolic
character forks, so the semantics (priority of alternatives, greediness) is that of `re`."""
import re as _re
import re._parser as _parser
import re._constants as K
from . import core, strs
from .core import SymInt, SymBool, ite, band, bor, bnot, EngineError
from .strs import SymStr, mkstr, cps_of, in_class, nat

_cat = {K.CATEGORY_DIGIT: ('isdecimal', False), K.CATEGORY_NOT_DIGIT: ('isdecimal', True),
        K.CATEGORY_SPACE: ('isspace', False), K.CATEGORY_NOT_SPACE: ('isspace', True),
        K.CATEGORY_WORD: ('word', False), K.CATEGORY_NOT_WORD: ('word', True)}

_ascii_digit = lambda c: band(c >= 48, c <= 57)


def _category(cat, c, flags):
    name, neg = _cat[cat]
    if flags & _re.ASCII:
        if name == 'isdecimal':
            r = _ascii_digit(c)
        elif name == 'isspace':
            r = bor(c == 32, band(c >= 9, c <= 13))
        else:
            r = bor(_ascii_digit(c), band(c >= 65, c <= 90), band(c >= 97, c <= 122), c == 95)
    else:
        r = in_class(c, name)
    return bnot(r) if neg else r


def _variants(lit):
    ch = chr(lit)
    return sorted({ord(x) for x in (ch, ch.lower(), ch.upper()) if len(x) == 1})


def _lit(lit, c, flags):
    if flags & _re.IGNORECASE:
        return bor(*[c == v for v in _variants(lit)])
    return c == lit


def _in(items, c, flags):
    neg = False
    conds = []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            conds.append(_lit(av, c, flags))
        elif op is K.RANGE:
            lo, hi = av
            conds.append(band(c >= lo, c <= hi))
            if flags & _re.IGNORECASE:
                for a, b, d in ((65, 90, 32), (97, 122, -32)):
                    x, y = max(lo, a), min(hi, b)
                    if x <= y:
                        conds.append(band(c >= x + d, c <= y + d))
        elif op is K.CATEGORY:
            conds.append(_category(av, c, flags))
        else:
            raise EngineError('regex set op %s' % op)
    r = bor(*conds)
    return bnot(r) if neg else r


class Matcher(object):
    def __init__(self, cps, flags, pos, endpos):
        self.c = cps
        self.flags = flags
        self.pos0 = pos
        self.n = endpos
        self.memo = {}

    def char(self, i, op, av, flags):
        key = (i, id(av) if isinstance(av, list) else av, op, flags)
        r = self.memo.get(key)
        if r is None:
            c = self.c[i]
            if op is K.LITERAL:
                r = _lit(av, c, flags)
            elif op is K.NOT_LITERAL:
                r = bnot(_lit(av, c, flags))
            elif op is K.ANY:
                r = True if flags & _re.DOTALL else (c != 10)
            else:
                r = _in(av, c, flags)
            self.memo[key] = r
        return bool(r)

    def word(self, i):
        if i < 0 or i >= self.n:
            return False
        return bool(in_class(self.c[i], 'word'))

    # generator of (pos, groups)
    def m(self, nodes, k, i, g, flags):
        if k == len(nodes):
            yield i, g
            return
        op, av = nodes[k]
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            if i < self.n and self.char(i, op, av, flags):
                yield from self.m(nodes, k + 1, i + 1, g, flags)
        elif op is K.AT:
            if self.at(av, i, flags):
                yield from self.m(nodes, k + 1, i, g, flags)
        elif op is K.SUBPATTERN:
            gid, addf, delf, p = av
            for j, h in self.m(p, 0, i, g, (flags | addf) & ~delf):
                if gid is not None:
                    h = dict(h)
                    h[gid] = (i, j)
                    h['last'] = gid
                yield from self.m(nodes, k + 1, j, h, flags)
        elif op is K.BRANCH:
            for p in av[1]:
                for j, h in self.m(p, 0, i, g, flags):
                    yield from self.m(nodes, k + 1, j, h, flags)
        elif op is K.MAX_REPEAT:
            lo, hi, p = av
            for j, h in self.greedy(p, lo, hi, i, g, flags, 0):
                yield from self.m(nodes, k + 1, j, h, flags)
        elif op is K.MIN_REPEAT:
            lo, hi, p = av
            for j, h in self.lazy(p, lo, hi, i, g, flags, 0):
                yield from self.m(nodes, k + 1, j, h, flags)
        elif op is K.ASSERT or op is K.ASSERT_NOT:
            d, p = av
            if d < 0:
                w = p.getwidth()[0]
                it = self.m(p, 0, i - w, g, flags) if i - w >= 0 else iter(())
            else:
                it = self.m(p, 0, i, g, flags)
            r = next(it, None)
            if (r is not None) == (op is K.ASSERT):
                yield from self.m(nodes, k + 1, i, r[1] if (r and op is K.ASSERT) else g, flags)
        elif op is K.GROUPREF:
            sp = g.get(av)
            if sp is not None:
                a = self.c[sp[0]:sp[1]]
                b = self.c[i:i + len(a)]
                if len(b) == len(a) and i + len(a) <= self.n and bool(strs.seq_eq(a, b)):
                    yield from self.m(nodes, k + 1, i + len(a), g, flags)
        elif op is K.GROUPREF_EXISTS:
            gid, y, nn = av
            p = y if g.get(gid) is not None else nn
            if p is None:
                yield from self.m(nodes, k + 1, i, g, flags)
            else:
                for j, h in self.m(p, 0, i, g, flags):
                    yield from self.m(nodes, k + 1, j, h, flags)
        elif op is K.ATOMIC_GROUP:
            for j, h in self.m(av, 0, i, g, flags):
                yield from self.m(nodes, k + 1, j, h, flags)
                break
        elif op is K.POSSESSIVE_REPEAT:
            lo, hi, p = av
            for j, h in self.greedy(p, lo, hi, i, g, flags, 0):
                yield from self.m(nodes, k + 1, j, h, flags)
                break
        else:
            raise EngineError('regex op %s' % op)

    def greedy(self, p, lo, hi, i, g, flags, n):
        if len(p) == 1 and p[0][0] in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            op, av = p[0]
            j = i
            while (hi is K.MAXREPEAT or j - i < hi) and j < self.n and self.char(j, op, av, flags):
                j += 1
            while j - i >= lo:
                yield j, g
                j -= 1
            return
        if hi is K.MAXREPEAT or n < hi:
            for j, h in self.m(p, 0, i, g, flags):
                if j == i and n >= lo:
                    continue
                yield from self.greedy(p, lo, hi, j, h, flags, n + 1)
        if n >= lo:
            yield i, g

    def lazy(self, p, lo, hi, i, g, flags, n):
        if n >= lo:
            yield i, g
        if hi is K.MAXREPEAT or n < hi:
            for j, h in self.m(p, 0, i, g, flags):
                if j == i and n >= lo:
                    continue
                yield from self.lazy(p, lo, hi, j, h, flags, n + 1)

    def at(self, av, i, flags):
        if av is K.AT_BEGINNING:
            if flags & _re.MULTILINE:
                return i == 0 or bool(self.c[i - 1] == 10)
            return i == 0
        if av is K.AT_BEGINNING_STRING:
            return i == 0
        if av is K.AT_END:
            if i == self.n:
                return True
            if flags & _re.MULTILINE:
                return bool(self.c[i] == 10)
            return i == self.n - 1 and bool(self.c[i] == 10)
        if av is K.AT_END_STRING:
            return i == self.n
        if av in (K.AT_BOUNDARY, K.AT_UNI_BOUNDARY):
            return self.word(i - 1) != self.word(i)
        if av in (K.AT_NON_BOUNDARY, K.AT_UNI_NON_BOUNDARY):
            return self.word(i - 1) == self.word(i)
        raise EngineError('regex at %s' % av)


class SMatch(object):
    def __init__(self, pat, string, start, end, g, pos=0, endpos=None):
        self.re = pat
        self.string = string
        self._s = start
        self._e = end
        self._g = g
        self.pos = pos
        self.endpos = len(string) if endpos is None else endpos

    def _gid(self, k):
        if isinstance(k, (SymInt,)):
            k = k.concretize()
        if isinstance(k, int):
            if k < 0 or k > self.re.groups:
                raise IndexError('no such group')
            return k
        try:
            return self.re.groupindex[nat(k)]
        except KeyError:
            raise IndexError('no such group')

    def span(self, k=0):
        k = self._gid(k)
        if k == 0:
            return (self._s, self._e)
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        if a < 0:
            return default
        return mkstr(cps_of(self.string)[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from .coll import SDict
        d = SDict()
        for name in self.re.groupindex:
            d[name] = self._one(name, default)
        return d

    @property
    def lastindex(self):
        return self._g.get('last')

    def expand(self, t):
        raise EngineError('Match.expand')

    def __bool__(self):
        return True


class SPattern(object):
    """Pattern object: native `re` for concrete strings, symbolic interpretation otherwise."""
    _cache = {}

    def __init__(self, pattern, flags=0):
        self.nat = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.nat.flags
        self.groups = self.nat.groups
        self.groupindex = dict(self.nat.groupindex)
        key = (pattern, flags)
        t = SPattern._cache.get(key)
        if t is None:
            t = SPattern._cache[key] = _parser.parse(pattern, flags)
        self.tree = t

    def _range(self, s, pos, endpos):
        n = len(s)
        pos = max(0, min(int(pos), n))
        endpos = n if endpos is None else max(0, min(int(endpos), n))
        return pos, endpos

    def _at(self, s, i, endpos, full=False):
        cps = cps_of(s)
        mt = Matcher(cps, self.flags, i, endpos)
        for j, g in mt.m(self.tree, 0, i, {}, self.flags):
            if full and j != endpos:
                continue
            return SMatch(self, s, i, j, g)
        return None

    def match(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self.nat.match(s, int(pos), len(s) if endpos is None else int(endpos))
        pos, endpos = self._range(s, pos, endpos)
        return self._at(s, pos, endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self.nat.fullmatch(s, int(pos), len(s) if endpos is None else int(endpos))
        pos, endpos = self._range(s, pos, endpos)
        return self._at(s, pos, endpos, True)

    def search(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self.nat.search(s, int(pos), len(s) if endpos is None else int(endpos))
        pos, endpos = self._range(s, pos, endpos)
        for i in range(pos, endpos + 1):
            m = self._at(s, i, endpos)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self.nat.finditer(s, int(pos), len(s) if endpos is None else int(endpos))
        return self._finditer(s, pos, endpos)

    def _finditer(self, s, pos, endpos):
        pos, endpos = self._range(s, pos, endpos)
        i = pos
        must = None
        while i <= endpos:
            m = self._at(s, i, endpos)
            if m is None or (m.end() == i and must == i):
                i += 1
                continue
            yield m
            if m.end() == m.start():
                must = None
                i = m.end() + 1
            else:
                i = must = m.end()

    def findall(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self.nat.findall(s, int(pos), len(s) if endpos is None else int(endpos))
        out = []
        for m in self._finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(m.groups(''))
        return out

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.nat.split(s, maxsplit)
        out = []
        last = 0
        for m in self._finditer(s, 0, None):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
        out.append(s[last:])
        return out

    def sub(self, repl, s, count=0):
        if not isinstance(s, SymStr) and not isinstance(repl, SymStr) and isinstance(repl, str):
            return self.nat.sub(repl, s, count)
        if isinstance(repl, str) and '\\' in repl:
            return self.nat.sub(repl, nat(s), count)
        out = []
        last = 0
        n = 0
        cps = cps_of(s)
        for m in self._finditer(s, 0, None):
            if count and n >= count:
                break
            n += 1
            out += cps[last:m.start()]
            out += cps_of(repl(m) if callable(repl) else repl)
            last = m.end()
        return mkstr(out + cps[last:])

    def __eq__(self, o):
        return isinstance(o, SPattern) and o.pattern == self.pattern and o.flags == self.flags

    def __hash__(self):
        return hash((self.pattern, self.flags))

    def __repr__(self):
        return repr(self.nat)


def compile_(pattern, flags=0):
    if isinstance(pattern, SPattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        return SPattern(pattern.pattern, pattern.flags & ~_re.UNICODE)
    if isinstance(pattern, (bytes,)):
        return _re.compile(pattern, flags)
    return SPattern(nat(pattern), int(flags))


class ReModule(object):
    """stand-in for the module `re`"""
    compile = staticmethod(compile_)
    error = _re.error
    Pattern = SPattern
    Match = SMatch

    def __getattr__(self, name):
        return getattr(_re, name)

    def match(self, p, s, flags=0):
        return compile_(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return compile_(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return compile_(p, flags).search(s)

    def finditer(self, p, s, flags=0):
        return compile_(p, flags).finditer(s)

    def findall(self, p, s, flags=0):
        return compile_(p, flags).findall(s)

    def split(self, p, s, maxsplit=0, flags=0):
        return compile_(p, flags).split(s, maxsplit)

    def sub(self, p, repl, s, count=0, flags=0):
        return compile_(p, flags).sub(repl, s, count)

    def escape(self, s):
        return _re.escape(nat(s))
