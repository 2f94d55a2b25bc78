import vlib as V
from gsmmodem import pdu
from harness import spec

BOUNDS = {'quick': 'every digit string of 0..12 digits; decoding with 0..3 arbitrary following octets',
          'thorough': 'every digit string of 0..20 digits; decoding with 0..4 arbitrary following octets'}
OUTSIDE = 'longer digit strings'
EXPECT = ('odd', 'even')


def roundtrip(p):
    n = p['n']
    ds = [V.int('d%d' % i, 0, 9) for i in range(n)]
    s = spec.digitstr(ds)
    enc = pdu.encodeSemiOctets(s)
    V.observe('enc', enc)
    V.check(list(enc) == spec.semi(ds), 'nibble placement with F filler')
    V.reach('odd' if n % 2 else 'even')
    dec = pdu.decodeSemiOctets(enc)
    V.observe('dec', dec)
    V.check(dec == s, 'decoding returns the digits')


def stated(p):
    """decoding a stated number of octets from an iterator leaves the rest unread"""
    n, junk = p['n'], p['junk']
    ds = [V.int('d%d' % i, 0, 9) for i in range(n)]
    octets = spec.semi(ds)
    m = len(octets)
    rest = V.bytes('junk', junk)
    it = iter(bytearray(octets + list(rest)))
    dec = pdu.decodeSemiOctets(it, m)
    V.observe('dec', dec)
    V.check(dec == spec.digitstr(ds), 'decoding returns the digits')
    left = list(it)
    V.check(left == list(rest), 'exactly the stated octets are consumed')


def hexarg(p):
    n = p['n']
    ds = [V.int('d%d' % i, 0, 9) for i in range(n)]
    octets = spec.semi(ds)
    h = ''.join(['%02X' % o for o in octets])
    V.check(pdu.decodeSemiOctets(h) == spec.digitstr(ds), 'decoding a hex string returns the digits')


def terminator(p):
    """an F high nibble ends the number"""
    n, junk = p['n'], p['junk']
    ds = [V.int('d%d' % i, 0, 9) for i in range(n)]
    rest = V.bytes('junk', junk)
    it = iter(bytearray(spec.semi(ds) + list(rest)))
    dec = pdu.decodeSemiOctets(it)
    V.check(dec == spec.digitstr(ds), 'the F nibble ends the number')
    V.check(list(it) == list(rest), 'nothing is read past the F nibble')


def early(p):
    """an F nibble before the stated number of octets ends the number there"""
    n, junk = p['n'], p['junk']
    ds = [V.int('d%d' % i, 0, 9) for i in range(n)]
    rest = V.bytes('junk', junk)
    octets = spec.semi(ds)
    it = iter(bytearray(octets + list(rest)))
    dec = pdu.decodeSemiOctets(it, len(octets) + V.int('more', 1, junk))
    V.check(dec == spec.digitstr(ds), 'the F nibble ends the number')
    V.check(list(it) == list(rest), 'nothing is read past the F nibble')


def jobs(tier):
    q = tier == 'quick'
    N = 12 if q else 20
    j = [('roundtrip-%d' % n, 'roundtrip', {'n': n}) for n in range(0, N + 1)]
    j += [('stated-%d-%d' % (n, k), 'stated', {'n': n, 'junk': k}) for n in range(1, 9 if q else 13) for k in (0, 1, 3)]
    j += [('hex-%d' % n, 'hexarg', {'n': n}) for n in range(0, 5)]
    j += [('term-%d-%d' % (n, k), 'terminator', {'n': n, 'junk': k}) for n in range(1, 8, 2) for k in (0, 2)]
    j += [('early-%d' % n, 'early', {'n': n, 'junk': 3}) for n in range(1, 8 if q else 14, 2)]
    return j
