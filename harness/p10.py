import vlib as V
from gsmmodem import pdu

BOUNDS = 'every reference and port of 0..65535, every total and number of 0..255, unknown elements of 0..8 (thorough: 0..20) arbitrary octets, sequences of 1..3 (thorough: 1..4) elements'
OUTSIDE = 'values beyond 16 bits; known elements with a wrong length'
EXPECT = ('wide', 'narrow', 'unknown')


def put(e):
    o = e.encode()
    V.observe('enc', o)
    V.check(o[1] == len(o) - 2, 'length octet')
    V.check(len(e) == len(o), 'len() counts identifier and length octets')
    return o


def take(o, junk):
    it = iter(bytearray(list(o) + list(junk)))
    e = pdu.InformationElement.decode(it)
    V.check(list(it) == list(junk), 'decoding reads exactly the element')
    V.check(V.And(e.id == o[0], e.dataLength == o[1], len(e) == len(o)), 'identifier and length kept')
    V.check(V.eq(list(e.data), list(o[2:])), 'payload kept')
    return e


def concat(p):
    ref = V.int('ref', 0, 0xFFFF)
    tot, num = V.int('tot', 0, 255), V.int('num', 0, 255)
    e = pdu.Concatenation()
    e.reference, e.parts, e.number = ref, tot, num
    o = put(e)
    if ref > 0xFF:
        V.reach('wide')
        V.check(V.eq(list(o), [8, 4, ref >> 8, ref & 0xFF, tot, num]), '16-bit concatenation element')
    else:
        V.reach('narrow')
        V.check(V.eq(list(o), [0, 3, ref, tot, num]), '8-bit concatenation element')
    d = take(o, V.bytes('junk', p['junk']))
    V.check(isinstance(d, pdu.Concatenation), 'decoded as concatenation')
    V.check(V.And(d.reference == ref, d.parts == tot, d.number == num), 'values kept')
    V.check(V.eq(list(d.encode()), list(o)), 're-encoding gives the same octets')


def ports(p):
    dst, src = V.int('dst', 0, 0xFFFF), V.int('src', 0, 0xFFFF)
    e = pdu.PortAddress()
    e.destination, e.source = dst, src
    o = put(e)
    if V.Or(dst > 0xFF, src > 0xFF):
        V.reach('wide')
        V.check(V.eq(list(o), [5, 4, dst >> 8, dst & 0xFF, src >> 8, src & 0xFF]), '16-bit port element')
    else:
        V.reach('narrow')
        V.check(V.eq(list(o), [4, 2, dst, src]), '8-bit port element')
    d = take(o, V.bytes('junk', p['junk']))
    V.check(isinstance(d, pdu.PortAddress), 'decoded as ports')
    V.check(V.And(d.destination == dst, d.source == src), 'values kept')
    V.check(V.eq(list(d.encode()), list(o)), 're-encoding gives the same octets')


KNOWN = {0: 3, 8: 4, 4: 2, 5: 4}


def unknown(p):
    n = p['n']
    iei = V.int('iei', 0, 255)
    for k in KNOWN:
        V.assume(iei != k)
    V.reach('unknown')
    data = V.bytes('data', n)
    o = bytearray([iei, n] + list(data))
    d = take(o, V.bytes('junk', p['junk']))
    V.check(V.Not(V.Or(isinstance(d, pdu.Concatenation), isinstance(d, pdu.PortAddress))), 'no known kind')
    V.check(V.eq(list(d.encode()), list(o)), 're-encoding gives the same octets')


def wire(p):
    """known elements as received, in either width, and re-encoded"""
    iei = p['iei']
    n = KNOWN[iei]
    data = [V.int('x%d' % i, 0, 255) for i in range(n)]
    o = bytearray([iei, n] + data)
    d = take(o, [])
    if iei in (0, 8):
        ref = data[0] if iei == 0 else data[0] * 256 + data[1]
        V.check(V.And(d.reference == ref, d.parts == data[-2], d.number == data[-1]), 'concatenation values')
        e = take(d.encode(), [])
        V.check(isinstance(e, pdu.Concatenation), 'kind kept by re-encoding')
        V.check(V.And(e.reference == ref, e.parts == data[-2], e.number == data[-1]), 'values kept by re-encoding')
    else:
        dst = data[0] if iei == 4 else data[0] * 256 + data[1]
        src = data[1] if iei == 4 else data[2] * 256 + data[3]
        V.check(V.And(d.destination == dst, d.source == src), 'port values')
        e = take(d.encode(), [])
        V.check(isinstance(e, pdu.PortAddress), 'kind kept by re-encoding')
        V.check(V.And(e.destination == dst, e.source == src), 'values kept by re-encoding')


def sequence(p):
    """elements one after the other in a header, as the user data decoder reads them"""
    kinds = p['kinds']
    o = []
    want = []
    for i in range(len(kinds)):
        k = kinds[i]
        if k < 0:
            n = -k
            iei = V.int('iei%d' % i, 16, 255)
        else:
            n = KNOWN[k]
            iei = k
        data = [V.int('x%d_%d' % (i, m), 0, 255) for m in range(n)]
        want.append((iei, data))
        o += [iei, n] + data
    text = [V.int('t%d' % i, 32, 90) for i in range(3)]
    ud = iter(bytearray([len(o)] + o + text))
    r = pdu._decodeUserData(ud, len(o) + 1 + 3, 1, True)
    V.check(len(r['udh']) == len(want), 'every element of the header')
    for e, w in zip(r['udh'], want):
        V.check(V.And(e.id == w[0], V.eq(list(e.data), w[1])), 'element in order')
    V.check(r['text'] == ''.join([chr(c) for c in text]), 'the text after the header')
    again = bytearray()
    for e in r['udh']:
        again.extend(e.encode())
    if all(k < 0 or k in (0, 4) for k in kinds):
        V.check(V.eq(list(again), o), 're-encoding the elements gives the header')


def jobs(tier):
    q = tier == 'quick'
    j = [('concat-%d' % n, 'concat', {'junk': n}) for n in (0, 2)] + [('ports-%d' % n, 'ports', {'junk': n}) for n in (0, 2)]
    j += [('unknown-%d' % n, 'unknown', {'n': n, 'junk': n % 3}) for n in range(0, 9 if q else 21)]
    j += [('wire-%d' % k, 'wire', {'iei': k}) for k in KNOWN]
    seqs = [[0], [8], [4], [5], [-1], [0, 4], [8, 5], [-2, 0], [5, -3, 0], [4, 0, -1]]
    if not q:
        seqs += [[a, b, c] for a in (0, 8, 4, 5, -1, -4) for b in (0, 5, -2) for c in (8, 4, -1)] + [[0, 5, -2, 8], [-1, -1, -1, -1]]
    j += [('seq-%s' % '_'.join([str(x) for x in s]), 'sequence', {'kinds': s}) for s in seqs]
    return j
