import vlib as V
from gsmmodem import pdu
from harness import spec

BOUNDS = {'quick': 'numbers of 1..12 digits (national or international), names of 1..11 GSM-7 characters (1..3 with every mix of '
                   'default/extension characters, longer ones of default characters), 0..2 arbitrary following octets',
          'thorough': 'numbers of 1..20 digits, names of 1..11 characters (1..4 with every mix of default/extension characters), '
                      '0..3 arbitrary following octets'}
OUTSIDE = 'empty addresses handed to the encoder; digits other than ASCII 0-9; names longer than 11 characters'
ASSUMPTIONS = ['the length of a name field is counted in whole octets (twice the octets), as the library and its tests define it']
EXPECT = ('intl', 'national', 'name')


def number(p):
    n = p['n']
    intl = V.choice('intl', 2) == 1
    V.reach('intl' if intl else 'national')
    ds = [V.int('d%d' % i, 0, 9) for i in range(n)]
    s = ('+' if intl else '') + spec.digitstr(ds)
    if p['smsc']:
        enc = pdu._encodeAddressField(s, smscField=True)
        want = spec.smsc_field(ds, intl)
    else:
        enc = pdu._encodeAddressField(s)
        want = spec.address(ds, intl)
    V.observe('enc', enc)
    V.check(list(enc) == want, 'number field coding')
    decode(enc, s, p)


def decode(enc, s, p):
    rest = V.bytes('junk', p.get('junk', 1))
    it = iter(bytearray(list(enc) + list(rest)))
    val, size = pdu._decodeAddressField(it, smscField=bool(p.get('smsc')))
    V.observe('dec', val)
    V.check(val == s, 'decoding returns the address', known=p.get('known'))
    V.check(size == len(enc), 'reported size')
    V.check(list(it) == list(rest), 'the iterator is left at the octet after the field')


def name(p):
    n = p['n']
    s = V.str('s', n, spec.ALLCHARS if p['mix'] else p.get('chars', spec.BASICCHARS))
    # a name: not all digits, not a plus followed by digits only
    d = [V.And(c >= '0', c <= '9') for c in s]
    V.assume(V.Not(V.And(*d)))
    if n > 1:
        V.assume(V.Not(V.And(s[0] == '+', *d[1:])))
    codes = spec.enc7(s)
    V.reach('name')
    enc = pdu._encodeAddressField(s)
    V.observe('enc', enc)
    o = spec.pack(codes)
    V.check(list(enc) == [2 * len(o), 0xD0] + o, 'name field coding')
    known = None
    if len(codes) % 8 == 0:
        known = ('P04-name-final-at', codes[-1] == 0)
    decode(enc, s, {'known': known, 'junk': p.get('junk', 1)})


def plus(p):
    """a lone plus, or plus followed by something else, is a name"""
    s = '+' + V.str('s', p['n'], '0123456789abcXYZ ')
    V.assume(V.Not(V.And(*[V.And(c >= '0', c <= '9') for c in s[1:]])))
    enc = pdu._encodeAddressField(s)
    V.check(enc[1] == 0xD0, 'not a number: coded as a name')
    decode(enc, s, p)


def empty(p):
    rest = V.bytes('junk', p['junk'])
    field = [0] if p['smsc'] else [0, V.int('toa', 0x80, 0xFF)]      # a message address has its type octet even if empty
    it = iter(bytearray(field + list(rest)))
    val, size = pdu._decodeAddressField(it, smscField=bool(p['smsc']))
    V.check(V.Not(val), 'zero length means no address')
    V.check(size == len(field), 'size of the empty field')
    V.check(list(it) == list(rest), 'the iterator is left at the octet after the field')


def unknown_ton(p):
    """numbers of any non-alphanumeric type decode to their digits"""
    n = p['n']
    ds = [V.int('d%d' % i, 0, 9) for i in range(n)]
    toa = V.int('toa', 0x80, 0xFF)
    V.assume(V.Not(toa & 0x70 == 0x50))
    f = spec.address(ds, False)
    f[1] = toa
    rest = V.bytes('junk', 1)
    it = iter(bytearray(f + list(rest)))
    val, size = pdu._decodeAddressField(it)
    intl = toa & 0x70 == 0x10
    V.check(val == ('+' if intl else '') + spec.digitstr(ds), 'digits, with plus exactly for the international type')
    V.check(size == len(f), 'reported size')
    V.check(list(it) == list(rest), 'the iterator is left at the octet after the field')


def jobs(tier):
    q = tier == 'quick'
    j = []
    for n in (range(1, 13) if q else range(1, 21)):
        j.append(('num-%d' % n, 'number', {'n': n, 'smsc': 0, 'junk': n % 3}))
        j.append(('smsc-%d' % n, 'number', {'n': n, 'smsc': 1, 'junk': n % 3}))
    j += [('name-%d' % n, 'name', {'n': n, 'mix': 0, 'junk': n % 3}) for n in range(1, 12)]
    j += [('name-mix-%d' % n, 'name', {'n': n, 'mix': 1}) for n in range(1, 3 if q else 4)]
    j += [('plus-%d' % n, 'plus', {'n': n}) for n in range(1, 4)]
    j += [('empty-%d-%d' % (s, k), 'empty', {'smsc': s, 'junk': k}) for s in (0, 1) for k in (0, 2)]
    j += [('ton-%d' % n, 'unknown_ton', {'n': n}) for n in range(1, 6)]
    return j
