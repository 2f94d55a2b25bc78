import vlib as V
from datetime import datetime, timedelta
from gsmmodem import pdu
from gsmmodem.util import SimpleOffsetTzInfo
from harness import spec

BOUNDS = 'every valid date and time of the years 1969..2068, every zone of -79..79 quarter hours, 0..2 following octets'
OUTSIDE = 'zones that are not a multiple of 15 minutes or 20 hours and more from UTC (not representable); years outside 1969..2068'
EXPECT = ('east', 'west', 'utc')


def fields():
    y = V.int('y', 1969, 2068)
    mo = V.int('mo', 1, 12)
    d = V.int('d', 1, 31)
    h = V.int('h', 0, 23)
    mi = V.int('mi', 0, 59)
    s = V.int('s', 0, 59)
    return y, mo, d, h, mi, s


def side(q):
    return 'west' if q < 0 else ('east' if q > 0 else 'utc')


def same(t, f):
    y, mo, d, h, mi, s = f
    V.observe('fields', [t.year, t.month, t.day, t.hour, t.minute, t.second])
    V.check(V.And(t.year == y, t.month == mo, t.day == d), 'the date is kept')
    V.check(V.And(t.hour == h, t.minute == mi, t.second == s), 'the local time is kept')


def roundtrip(p):
    f = fields()
    y, mo, d, h, mi, s = f
    q = V.int('q', -79, 79)
    sd = side(q)
    V.reach(sd)
    tz = SimpleOffsetTzInfo(q * 0.25) if p['kind'] == 'util' else None
    if tz is None:
        z = spec.stamp(0, 0, 0, 0, 0, 0, -q if sd == 'west' else q, sd == 'west')[6]
        sw = ((z & 15) << 4) | (z >> 4)
        tz = pdu.SmsPduTzInfo('%02X' % sw)
    try:
        t = datetime(y, mo, d, h, mi, s, V.int('us', 0, 999999), tz)
    except ValueError:
        V.stop()
    enc = pdu._encodeTimestamp(t)
    V.observe('enc', enc)
    want = spec.stamp(y % 100, mo, d, h, mi, s, -q if sd == 'west' else q, sd == 'west')
    V.check(list(enc) == want, 'seven swapped-BCD octets, zone in quarter hours with the sign bit')
    rest = V.bytes('junk', p['junk'])
    it = iter(bytearray(list(enc) + list(rest)))
    t2 = pdu._decodeTimestamp(it)
    same(t2, f)
    V.check(t2.utcoffset() == timedelta(minutes=15 * q), 'the UTC offset is kept')
    V.check(list(it) == list(rest), 'exactly seven octets are read')


def decode(p):
    f = fields()
    y, mo, d, h, mi, s = f
    try:
        datetime(y, mo, d, h, mi, s)
    except ValueError:
        V.stop()
    neg = V.bool('neg')
    q = V.int('q', 0, 79)
    o = bytearray(spec.stamp(y % 100, mo, d, h, mi, s, q, True if neg else False))
    t = pdu._decodeTimestamp(iter(o))
    same(t, f)
    V.check(t.utcoffset() == timedelta(minutes=15 * (-q if neg else q)), 'the UTC offset is the coded one')
    V.check(V.eq(list(pdu._encodeTimestamp(t))[:6], list(o)[:6]), 're-encoding gives the same date octets')
    if neg and q == 0:
        return
    V.check(V.eq(list(pdu._encodeTimestamp(t)), list(o)), 're-encoding gives the same octets')


def naive(p):
    f = fields()
    try:
        t = datetime(*f)
    except ValueError:
        V.stop()
    try:
        pdu._encodeTimestamp(t)
        V.check(False, 'a date without zone is refused')
    except ValueError:
        V.check(True, 'a date without zone is refused')


def jobs(tier):
    ks = ('util', 'pdu')
    return [('roundtrip-%s-%d' % (k, n), 'roundtrip', {'junk': n, 'kind': k}) for k in ks for n in (0, 2)] + \
        [('decode', 'decode', {}), ('naive', 'naive', {})]
