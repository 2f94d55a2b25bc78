import vlib as V
from datetime import timedelta
from gsmmodem import pdu

BOUNDS = 'all 256 codes; every duration from -366 days to 20000 days in whole seconds, with every microsecond part'
OUTSIDE = 'durations beyond 20000 days; durations of 0..5 minutes (not representable, refused or not is left open)'
EXPECT = ('minutes', 'halfhours', 'days', 'weeks', 'refused')
MIN, HOUR, DAY, WEEK = 60, 3600, 86400, 604800


def table(c):
    """seconds of code c, by GSM 03.40 9.2.3.12.1"""
    return V.ite(c <= 143, (c + 1) * 5 * MIN,
                 V.ite(c <= 167, 12 * HOUR + (c - 143) * 30 * MIN, V.ite(c <= 196, (c - 166) * DAY, (c - 192) * WEEK)))


def decode(p):
    c = V.int('c', 0, 255)
    t = pdu._decodeRelativeValidityPeriod(c)
    V.check(t == timedelta(seconds=table(c)), 'duration of the code')
    V.check(pdu._encodeRelativeValidityPeriod(t) == c, 'coding the duration gives the code back')


def encode(p):
    lo, hi = p['range']
    s = V.int('s', lo, hi - 1)
    us = V.int('us', 0, 999999)
    V.reach(p['kind'])
    t = timedelta(seconds=s, microseconds=us)
    try:
        c = pdu._encodeRelativeValidityPeriod(t)
    except ValueError:
        V.check(False, 'a representable duration is not refused')
        return
    V.observe('code', c)
    V.check(V.And(c >= 0, c <= 255), 'one octet')
    V.check(table(c) <= s, 'not longer than requested')
    if c < 255:
        V.check(table(c + 1) > s, 'no longer representable duration fits')


def refused(p):
    lo, hi = p['range']
    s = V.int('s', lo, hi - 1)
    t = timedelta(seconds=s, microseconds=V.int('us', 0, 999999))
    V.reach('refused')
    try:
        pdus = pdu.encodeSmsSubmitPdu('123', 'x', validity=t)
    except ValueError:
        V.check(True, 'refused')
        return
    V.check(False, 'a duration that cannot be coded is refused with ValueError')


def jobs(tier):
    W = 63 * WEEK
    j = [('decode', 'decode', {})]
    for k, lo, hi in (('minutes', 5 * MIN, 12 * HOUR), ('halfhours', 12 * HOUR, DAY), ('days', DAY, 31 * DAY), ('weeks', 31 * DAY, W + 1)):
        j.append(('encode-' + k, 'encode', {'kind': k, 'range': [lo, hi]}))
    j.append(('refused-long', 'refused', {'range': [W + DAY, 20000 * DAY]}))
    j.append(('refused-negative', 'refused', {'range': [-366 * DAY, 0]}))
    return j
