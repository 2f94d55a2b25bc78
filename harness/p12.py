import vlib as V
from datetime import datetime, timedelta
from gsmmodem.util import parseTextModeTimeStr, SimpleOffsetTzInfo

BOUNDS = 'every valid date and time of the years 1969..2068 with every zone of -95..95 quarter hours; SimpleOffsetTzInfo for every multiple of 1/60 hour'
OUTSIDE = 'malformed time strings; zones of a day or more'
EXPECT = ('east', 'west')


def d2(v):
    return chr(48 + v // 10) + chr(48 + v % 10)


def parse(p):
    y = V.int('y', 1969, 2068)
    mo = V.int('mo', 1, 12)
    d = V.int('d', 1, 31)
    h = V.int('h', 0, 23)
    mi = V.int('mi', 0, 59)
    s = V.int('s', 0, 59)
    q = V.int('q', 0, 95)
    neg = p['neg']
    try:
        datetime(y, mo, d, h, mi, s)
    except ValueError:
        V.stop()
    txt = d2(y % 100) + '/' + d2(mo) + '/' + d2(d) + ',' + d2(h) + ':' + d2(mi) + ':' + d2(s) + ('-' if neg else '+') + d2(q)
    V.reach('west' if neg else 'east')
    t = parseTextModeTimeStr(txt)
    V.observe('t', [t.year, t.month, t.day, t.hour, t.minute, t.second])
    V.check(V.And(t.year == y, t.month == mo, t.day == d), 'the date is kept')
    V.check(V.And(t.hour == h, t.minute == mi, t.second == s), 'the time is kept')
    V.check(t.utcoffset() == timedelta(minutes=15 * (-q if neg else q)), 'the UTC offset is zz quarter hours')
    V.check(t.dst() == timedelta(0), 'no daylight saving')


def zone(p):
    m = V.int('m', -1439, 1439)
    k = V.choice('unit', 3)
    if k == 0:
        V.assume(m % 60 == 0)
        tz = SimpleOffsetTzInfo(m // 60)
    elif k == 1:
        V.assume(m % 15 == 0)
        tz = SimpleOffsetTzInfo((m // 15) * 0.25)
    else:
        V.assume(m % 30 == 0)
        tz = SimpleOffsetTzInfo((m // 30) / 2.0)
    t = datetime(2020, 1, 2, 3, 4, 5, 0, tz)
    V.check(t.utcoffset() == timedelta(minutes=m), 'the zone has the given offset')


def jobs(tier):
    return [('parse-east', 'parse', {'neg': 0}), ('parse-west', 'parse', {'neg': 1}), ('zone', 'zone', {})]
