"""datetime stand-ins with symbolic fields."""
import datetime as _dt
import math
from fractions import Fraction
from . import core, strs, rx
from .core import SymInt, SymBool, SymRat, ite, band, bor, bnot, num, EngineError

tzinfo = _dt.tzinfo


def _exact(v):
    """numeric argument -> (n, d) with n int|SymInt"""
    v = num(v)
    if isinstance(v, SymRat):
        return v.n, v.d
    return v, 1


class timedelta(object):
    """timedelta as (total seconds, microseconds in [0,10**6))"""
    __slots__ = ('s', 'us')

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        tot = 0                     # microseconds
        whole = 0                   # seconds
        for v, sec in ((days, 86400), (seconds, 1), (minutes, 60), (hours, 3600), (weeks, 604800)):
            if isinstance(v, (int, SymInt, SymBool)):
                whole = whole + v * sec
                continue
            n, d = _exact(v)
            f = Fraction(sec, d)
            n = n * f.numerator
            d = f.denominator
            q = n // d
            r = n % d
            whole = whole + q
            if not (isinstance(r, int) and r == 0):
                tot = tot + core.SymRat.of(SymRat(r * 1000000, d)).__round__() if isinstance(r, SymInt) else tot + round(Fraction(r * 1000000, d))
        for v, us in ((microseconds, 1), (milliseconds, 1000)):
            if isinstance(v, (int, SymInt, SymBool)):
                tot = tot + v * us
            else:
                n, d = _exact(v)
                x = SymRat.of(SymRat(n, d) * us)
                tot = tot + (x.__round__() if isinstance(x.n, SymInt) else round(Fraction(x.n, x.d)))
        self.s = whole + tot // 1000000
        self.us = tot % 1000000
        lim = 86400 * 1000000000
        ok = band(self.s > -lim, self.s < lim)
        if ok is not True and not bool(ok):
            raise OverflowError('days out of range; must have magnitude <= 999999999')

    @staticmethod
    def _mk(s, us):
        t = timedelta.__new__(timedelta)
        t.s = s
        t.us = us
        return t

    @property
    def days(self):
        return self.s // 86400

    @property
    def seconds(self):
        return self.s % 86400

    @property
    def microseconds(self):
        return self.us

    def total_seconds(self):
        if isinstance(self.us, int) and self.us == 0:
            if isinstance(self.s, int):
                return float(self.s)
            return SymRat(self.s, 1)
        n = self.s * 1000000 + self.us
        return SymRat(n, 1000000)._norm()

    def _tot(self):
        return self.s * 1000000 + self.us

    @staticmethod
    def _fromtot(t):
        return timedelta._mk(t // 1000000, t % 1000000)

    def __add__(self, o):
        if isinstance(o, timedelta):
            u = self.us + o.us
            return timedelta._mk(self.s + o.s + u // 1000000, u % 1000000)
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        u = -self.us
        return timedelta._mk(-self.s + u // 1000000, u % 1000000)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self + (-o)
        return NotImplemented

    def __abs__(self):
        return -self if bool(self.s < 0) else self

    def __mul__(self, k):
        if isinstance(k, (int, SymInt, SymBool)):
            u = self.us * k
            return timedelta._mk(self.s * k + u // 1000000, u % 1000000)
        k = num(k)
        if k is None:
            return NotImplemented
        r = SymRat.of(SymRat(self._tot(), 1) * k)
        return timedelta._fromtot(r.__round__() if isinstance(r.n, SymInt) else round(Fraction(r.n, r.d)))
    __rmul__ = __mul__

    def _simple(self, o):
        return isinstance(self.us, int) and self.us == 0 and isinstance(o.us, int) and o.us == 0

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            return self.s // o.s if self._simple(o) else self._tot() // o._tot()
        return timedelta._fromtot(self._tot() // o)

    def __mod__(self, o):
        if self._simple(o):
            return timedelta._mk(self.s % o.s, 0)
        return timedelta._fromtot(self._tot() % o._tot())

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            a, b = (self.s, o.s) if self._simple(o) else (self._tot(), o._tot())
            return a / b
        r = SymRat.of(SymRat(self._tot(), 1) / o)
        return timedelta._fromtot(r.__round__() if isinstance(r.n, SymInt) else round(Fraction(r.n, r.d)))

    def _eq(self, o):
        return band(self.s == o.s, self.us == o.us)

    def __eq__(self, o):
        if not isinstance(o, timedelta):
            return False
        return self._eq(o)

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def _lt(self, o):
        return bor(self.s < o.s, band(self.s == o.s, self.us < o.us))

    def __lt__(self, o):
        return self._lt(o) if isinstance(o, timedelta) else NotImplemented

    def __le__(self, o):
        return bnot(o._lt(self)) if isinstance(o, timedelta) else NotImplemented

    def __gt__(self, o):
        return o._lt(self) if isinstance(o, timedelta) else NotImplemented

    def __ge__(self, o):
        return bnot(self._lt(o)) if isinstance(o, timedelta) else NotImplemented

    def __bool__(self):
        return bool(bor(self.s != 0, self.us != 0))

    def native(self):
        return _dt.timedelta(seconds=int(self.s), microseconds=int(self.us))

    def __hash__(self):
        return hash(self.native())

    def __repr__(self):
        return repr(self.native())

    def __str__(self):
        return str(self.native())


timedelta.min = timedelta._mk(-999999999 * 86400, 0)
timedelta.max = timedelta._mk(999999999 * 86400 + 86399, 999999)
timedelta.resolution = timedelta._mk(0, 1)

_dim = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def is_leap(y):
    return band(y % 4 == 0, bor(y % 100 != 0, y % 400 == 0))


def days_in_month(y, m):
    if isinstance(m, int):
        d = _dim[m]
        return d if m != 2 else ite(is_leap(y), 29, 28)
    return core.ite(m == 2, ite(is_leap(y), 29, 28), core.select(_dim + [0] * 3, m))


_cum = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def ordinal(y, m, d):
    p = y - 1
    n = p * 365 + p // 4 - p // 100 + p // 400
    c = _cum[m] if isinstance(m, int) else core.select(_cum + [0] * 3, m)
    leap = ite(band(m > 2, is_leap(y)), 1, 0)
    return n + c + leap + d


class datetime(object):
    __slots__ = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold')

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
        def rng(name, v, lo, hi):
            ok = band(v >= lo, v <= hi)
            if ok is not True and not bool(ok):
                raise ValueError('%s must be in %d..%d' % (name, lo, hi) if name != 'year' else 'year is out of range')
            if isinstance(v, SymInt) and (v.lo < lo or v.hi > hi):
                a, b = max(v.lo, lo), min(v.hi, hi)
                v = core.mkint(core.towidth(v.e, core.sbits(a, b)), a, b)
            return v
        self.year = rng('year', year, 1, 9999)
        self.month = rng('month', month, 1, 12)
        self.day = rng('day', day, 1, 31)
        ok = self.day <= days_in_month(self.year, self.month)
        if ok is not True and not bool(ok):
            raise ValueError('day is out of range for month')
        self.hour = rng('hour', hour, 0, 23)
        self.minute = rng('minute', minute, 0, 59)
        self.second = rng('second', second, 0, 59)
        self.microsecond = rng('microsecond', microsecond, 0, 999999)
        self.tzinfo = tzinfo
        self.fold = fold

    def replace(self, **k):
        f = dict(year=self.year, month=self.month, day=self.day, hour=self.hour, minute=self.minute,
                 second=self.second, microsecond=self.microsecond, tzinfo=self.tzinfo)
        if set(k) == {'tzinfo'}:
            n = datetime.__new__(datetime)
            for a in f:
                object.__setattr__(n, a, f[a])
            n.fold = 0
            n.tzinfo = k['tzinfo']
            return n
        f.update(k)
        return datetime(**f)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(self)

    def dst(self):
        return None if self.tzinfo is None else self.tzinfo.dst(self)

    def _abs(self):
        """seconds since day 0 (naive)"""
        return ordinal(self.year, self.month, self.day) * 86400 + self.hour * 3600 + self.minute * 60 + self.second

    def _utc(self):
        o = self.utcoffset()
        s = self._abs()
        return s if o is None else s - o.s

    def _naive_eq(self, o):
        return band(*[getattr(self, f) == getattr(o, f) for f in
                      ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')])

    def __eq__(self, o):
        if not isinstance(o, datetime):
            return False
        if self.tzinfo is o.tzinfo:
            return self._naive_eq(o)
        a, b = self.utcoffset(), o.utcoffset()
        if (a is None) != (b is None):
            return False
        if a is None:
            return self._naive_eq(o)
        return band(self._utc() == o._utc(), self.microsecond == o.microsecond)

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def _lt(self, o):
        a, b = self._utc(), o._utc()
        return bor(a < b, band(a == b, self.microsecond < o.microsecond))

    def __lt__(self, o):
        return self._lt(o)

    def __gt__(self, o):
        return o._lt(self)

    def __le__(self, o):
        return bnot(o._lt(self))

    def __ge__(self, o):
        return bnot(self._lt(o))

    def __sub__(self, o):
        if isinstance(o, datetime):
            u = self.microsecond - o.microsecond
            return timedelta._mk(self._utc() - o._utc() + u // 1000000, u % 1000000)
        if isinstance(o, timedelta):
            return self + (-o)
        return NotImplemented

    def native(self, tz=True):
        off = self.utcoffset() if tz else None
        return _dt.datetime(int(self.year), int(self.month), int(self.day), int(self.hour), int(self.minute),
                            int(self.second), int(self.microsecond),
                            _dt.timezone(off.native()) if off is not None else None)

    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        n = self.native(False) + o.native()
        return datetime(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond, self.tzinfo)

    def astimezone(self, tz=None):
        off = self.utcoffset()
        n = self.native(False) - off.native()
        new = datetime(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond, tz)
        o2 = new.utcoffset()
        n = n + o2.native()
        return datetime(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond, tz)

    def __hash__(self):
        return hash(self.native())

    def isoformat(self, *a):
        return self.native().isoformat(*a)

    def __repr__(self):
        return repr(self.native())

    def __str__(self):
        return str(self.native())

    def __format__(self, spec):
        return strs.nat(self.strftime(spec)) if spec else str(self)

    def timetuple(self):
        return self.native().timetuple()

    def toordinal(self):
        return ordinal(self.year, self.month, self.day)

    def weekday(self):
        return (self.toordinal() + 6) % 7

    def strftime(self, fmt):
        cps = strs.cps_of(fmt)
        out = []
        i = 0

        def two(v):
            out.extend(strs.cps_of(strs.mkstr([v // 10 + 48, v % 10 + 48])))
        while i < len(cps):
            if cps[i] == 37 and i + 1 < len(cps):
                d = chr(cps[i + 1])
                i += 2
                if d == 'y':
                    two(self.year % 100)
                elif d == 'Y':
                    out.extend(strs.cps_of(strs.format_value(self.year, 'd')))
                elif d == 'm':
                    two(self.month)
                elif d == 'd':
                    two(self.day)
                elif d == 'H':
                    two(self.hour)
                elif d == 'M':
                    two(self.minute)
                elif d == 'S':
                    two(self.second)
                elif d == '%':
                    out.append(37)
                else:
                    return self.native().strftime(strs.nat(fmt))
            else:
                out.append(cps[i])
                i += 1
        return strs.mkstr(out)

    @staticmethod
    def strptime(s, fmt):
        fmt = strs.nat(fmt)
        if not isinstance(s, strs.SymStr):
            n = _dt.datetime.strptime(s, fmt)
            tz = n.tzinfo
            return datetime(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond, tz)
        import _strptime
        cps = s.c
        # fast path: only two-digit directives and literals, all fields in their plain two-digit range
        plan = []
        i = 0
        ok = True
        while i < len(fmt):
            if fmt[i] == '%':
                if fmt[i + 1] not in 'ymdHMS':
                    ok = False
                    break
                plan.append(fmt[i + 1])
                i += 2
            else:
                plan.append(ord(fmt[i]))
                i += 1
        if ok and len(set(p for p in plan if isinstance(p, str))) == len([p for p in plan if isinstance(p, str)]) \
                and not any(isinstance(p, int) and (chr(p).isspace() or chr(p).isalpha()) for p in plan):
            need = sum(2 if isinstance(p, str) else 1 for p in plan)
            if need == len(cps):
                conds = []
                f = {}
                j = 0
                rng = {'y': (0, 99), 'm': (1, 12), 'd': (1, 31), 'H': (0, 23), 'M': (0, 59), 'S': (0, 59)}
                for p in plan:
                    if isinstance(p, int):
                        conds.append(cps[j] == p)
                        j += 1
                        continue
                    a, b = cps[j], cps[j + 1]
                    j += 2
                    conds += [a >= 48, a <= 57, b >= 48, b <= 57]

                    def dig(x):
                        v = x - 48
                        return v if isinstance(v, int) else core.mkint(core.towidth(v.e, 5), max(0, v.lo), min(9, v.hi))
                    if conds[-4] is False or conds[-3] is False or conds[-2] is False or conds[-1] is False:
                        f[p] = 0
                        continue
                    v = dig(a) * 10 + dig(b)
                    f[p] = v
                    conds += [v >= rng[p][0], v <= rng[p][1]]
                if bool(band(*conds)):
                    return datetime._from_fields(f)
        tre = _strptime._TimeRE_cache
        pat = rx.SPattern(tre.pattern(fmt), rx._re.IGNORECASE)
        m = pat.match(s)
        if m is None:
            raise ValueError('time data does not match format')
        if m.end() != len(cps):
            raise ValueError('unconverted data remains')
        f = {}
        for k in pat.groupindex:
            if k not in 'yYmdHMS':
                return datetime.strptime(strs.nat(s), fmt)
            g = m.group(k)
            f[k] = strs.parse_int(g) if isinstance(g, strs.SymStr) else int(g)
        if 'S' in f and bool(f['S'] > 59):
            # datetime() rejects leap seconds
            raise ValueError('second must be in 0..59')
        return datetime._from_fields(f)

    @staticmethod
    def _from_fields(f):
        def clip(v, a, b):
            return v if isinstance(v, int) else core.mkint(core.towidth(v.e, core.sbits(a, b)), max(a, v.lo), min(b, v.hi))
        y = f.get('Y')
        if y is None:
            if 'y' in f:
                y = clip(f['y'], 0, 99)
                y = ite(y <= 68, y + 2000, y + 1900)
            else:
                y = 1900
        return datetime(y, f.get('m', 1), f.get('d', 1), f.get('H', 0), f.get('M', 0), f.get('S', 0))

    @staticmethod
    def now(tz=None):
        raise EngineError('datetime.now()')

    utcnow = now


class timezone(tzinfo):
    def __init__(self, offset, name=None):
        self._o = offset

    def utcoffset(self, d):
        return self._o

    def dst(self, d):
        return None


timezone.utc = timezone(timedelta(0))


class Module(object):
    datetime = datetime
    timedelta = timedelta
    tzinfo = tzinfo
    timezone = timezone

    def __getattr__(self, name):
        return getattr(_dt, name)
