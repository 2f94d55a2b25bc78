import vlib as V
from gsmmodem import pdu
from harness import spec

BOUNDS = {'quick': 'every sequence of 0..40 arbitrary 7-bit codes, plus 152..160; all seven alignments after a header of 0..20 octets',
          'thorough': 'every sequence of 0..160 arbitrary 7-bit codes; all seven alignments; all lengths'}
OUTSIDE = 'sequences of more than 160 codes (one message holds at most 160)'
ASSUMPTIONS = ['inputs are 7-bit codes held in a bytearray, a byte iterator or a latin-1 string, as the callers pass them']
EXPECT = ('pack', 'unpack', 'ambiguous')


def pack(p):
    n = p['n']
    codes = V.bytes('c', n, 0, 127)
    kind = p.get('kind', 'bytearray')
    arg = codes
    if kind == 'iter':
        arg = iter(codes)
    elif kind == 'str':
        arg = ''.join([chr(c) for c in codes])
    got = pdu.packSeptets(arg)
    V.observe('packed', got)
    V.reach('pack')
    V.check(len(got) == (7 * n + 7) // 8, 'ceil(7n/8) octets')
    V.check(list(got) == spec.pack(list(codes)), 'code i occupies bits 7i..7i+6, unused bits zero')
    # and back
    arg2 = got
    if kind == 'iter':
        arg2 = iter(got)
    elif kind == 'str':
        arg2 = ''.join([chr(c) for c in got])
    back = pdu.unpackSeptets(arg2)
    V.observe('back', back)
    V.reach('unpack')
    if n > 0 and n % 8 == 0:
        V.reach('ambiguous')
        V.check(V.Or(V.eq(list(back), list(codes)), V.And(codes[n - 1] == 0, V.eq(list(back), list(codes[:n - 1])))),
                'unpacking returns the codes (a final 0 that fills the last octet may be taken for padding)')
    else:
        V.check(V.eq(list(back), list(codes)), 'unpacking returns the codes')


def limited(p):
    """unpacking a stated number of octets ignores what follows"""
    n = p['n']
    codes = V.bytes('c', n, 0, 127)
    packed = bytearray(spec.pack(list(codes)))
    m = len(packed)
    packed.extend(V.bytes('junk', 3))
    back = pdu.unpackSeptets(packed, m)
    V.observe('back', back)
    if n % 8 == 0:
        V.check(V.Or(V.eq(list(back), list(codes)), V.And(codes[n - 1] == 0, V.eq(list(back), list(codes[:n - 1])))),
                'unpacking a stated number of octets returns the codes and ignores what follows')
    else:
        V.check(V.eq(list(back), list(codes)), 'unpacking a stated number of octets returns the codes and ignores what follows')


def padded(p):
    """packing after a header of h octets (length octet included)"""
    n, h = p['n'], p['h']
    codes = V.bytes('c', n, 0, 127)
    got = pdu.packSeptets(codes, padBits=(h * 8) % 7)
    V.observe('packed', got)
    V.check(list(got) == spec.pack(list(codes), spec.fillbits(h)), 'codes follow the fill bits after a header')


def jobs(tier):
    q = tier == 'quick'
    ns = list(range(0, 41)) + list(range(152, 161)) if q else list(range(0, 161))
    j = [('pack-%d' % n, 'pack', {'n': n}) for n in ns]
    j += [('pack-%s-%d' % (k, n), 'pack', {'n': n, 'kind': k}) for k in ('iter', 'str') for n in (0, 1, 6, 7, 8, 9, 16, 17)]
    j += [('limited-%d' % n, 'limited', {'n': n}) for n in (range(1, 25) if q else range(1, 100))]
    hs = (1, 2, 3, 4, 5, 6, 7, 12)
    j += [('padded-%d-%d' % (h, n), 'padded', {'n': n, 'h': h}) for h in hs
          for n in ((1, 2, 3, 6, 7, 8, 9, 14, 15, 16, 17) if q else range(1, 60))]
    return j
