import vlib as V
from gsmmodem import pdu
from harness import spec

BOUNDS = {'quick': 'texts of up to 2 arbitrary Unicode code points (0..10FFFF); code sequences of up to 4 arbitrary 7-bit codes; '
                   'texts of up to 8 table characters',
          'thorough': 'texts of up to 3 arbitrary Unicode code points; code sequences of up to 5 arbitrary 7-bit codes; '
                      'texts of up to 24 table characters'}
OUTSIDE = 'longer texts (the coder keeps no state between characters except one pending escape)'
ASSUMPTIONS = ['reference tables in harness/spec.py transcribe GSM 03.38 (code 0x09 = U+00C7, as in the library and its tests)']
EXPECT = ('accepted', 'rejected', 'escape')


def encode(p):
    t = V.str('t', p['n'])
    want = spec.enc7(t)
    try:
        got = pdu.encodeGsm7(t)
    except ValueError:
        V.reach('rejected')
        V.check(want is None, 'ValueError only for a character outside the tables')
        V.stop()
    V.check(want is not None, 'characters outside the tables are refused with ValueError')
    V.reach('accepted')
    V.observe('codes', got)
    V.check(list(got) == want, 'codes of the standard tables')
    V.check(pdu.decodeGsm7(got) == t, 'decoding returns the text')


def discard(p):
    t = V.str('t', p['n'])
    got = pdu.encodeGsm7(t, True)
    want = []
    for ch in t:
        w = spec.enc7(ch)
        if w is not None:
            want.extend(w)
    V.observe('codes', got)
    V.check(list(got) == want, 'discarding keeps exactly the characters that have a code')


def table(p):
    """long texts of table characters"""
    t = V.str('t', p['n'], spec.BASICCHARS)
    got = pdu.encodeGsm7(t)
    V.check(list(got) == spec.enc7(t), 'codes of the standard tables')
    V.check(pdu.decodeGsm7(got) == t, 'decoding returns the text')


def decode(p):
    codes = V.bytes('c', p['n'], 0, 127)
    want = spec.dec7(codes)
    arg = codes
    if p.get('raw'):
        arg = ''.join([chr(c) for c in codes])
    got = pdu.decodeGsm7(arg)
    V.observe('text', got)
    if any([c == spec.ESC for c in codes]):
        V.reach('escape')
    V.check(got == want, 'every code or escape pair maps to its table character')


def jobs(tier):
    q = tier == 'quick'
    j = [('encode-%d' % n, 'encode', {'n': n}) for n in range(0, 3 if q else 4)]
    j += [('discard-%d' % n, 'discard', {'n': n}) for n in range(1, 3 if q else 4)]
    j += [('table-%d' % n, 'table', {'n': n}) for n in ((8,) if q else (8, 16, 24))]
    j += [('decode-%d' % n, 'decode', {'n': n}) for n in range(0, 5 if q else 6)]
    j += [('decode-raw-%d' % n, 'decode', {'n': n, 'raw': 1}) for n in range(1, 3)]
    return j
