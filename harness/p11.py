import vlib as V
from gsmmodem import pdu
from gsmmodem.exceptions import EncodingError

BOUNDS = {'quick': 'every octet string of 0..6 octets; every PDU whose first fields are well formed and with two neighbouring octets of a time stamp, an address field of up to 4 octets, '
                   'the header, lengths and user data (up to 4 octets), or the fields of a SUBMIT (2 octets) arbitrary, or which is cut off anywhere; every text of 0..4 characters as hex argument',
          'thorough': 'every octet string of 0..9 octets; the same templates with 4..9 arbitrary octets (whole time stamps included); every text of 0..6 characters'}
BUDGET = {'quick': 300, 'thorough': 5400}
OUTSIDE = 'longer wholly arbitrary octet strings; arguments that are not octets or text'
EXPECT = ('ok', 'refused')
TYPES = ('SMS-DELIVER', 'SMS-SUBMIT', 'SMS-STATUS-REPORT')
TS = [0x12, 0x30, 0x41, 0x51, 0x00, 0x00, 0x80]


def attempt(arg):
    try:
        r = pdu.decodeSmsPdu(arg)
    except EncodingError:
        V.reach('refused')
        V.check(True, 'refused')
        return None
    V.reach('ok')
    V.check(r['type'] in TYPES, 'a known message type')
    return r


def raw(p):
    attempt(bytearray(V.bytes('o', p['n'])))


def hexed(p):
    n = p['n']
    if p.get('valid'):
        arg = ''.join([V.pick('h%d' % i, '0123456789ABCDEFabcdef') for i in range(0)]) + V.str('h', n, '0123456789ABCDEFabcdef')
    else:
        arg = V.str('h', n, p.get('chars', (0, 0x10FFFF)))
    attempt(arg)


def template(p):
    k = p['k']
    x = [V.int('x%d' % i, 0, 255) for i in range(k)]
    kind = p['kind']
    if kind in ('time', 'stime', 'rtime') and 'at' in p:
        x = TS[:p['at']] + x + TS[p['at'] + k:]
    if kind == 'time':
        o = [0, 0x04, 2, 0x91, 0x21, 0, 0] + x[:7] + [1, 0x41]
    elif kind == 'stime':
        o = [0, 0x19, 1, 2, 0x91, 0x21, 0, 0] + x[:7] + [1, 0x41]
    elif kind == 'rtime':
        o = [0, 0x06, 1, 2, 0x91, 0x21] + TS + x[:7] + [0]
    elif kind == 'addr':
        o = [0, 0x04] + x + [0, 0] + TS + [2, 0x41, 0x42]
    elif kind == 'smsc':
        o = x + [0x04, 2, 0x91, 0x21, 0, 0] + TS + [0]
    elif kind == 'ud':
        # arbitrary coding and user data, no header
        o = [0, 0x04, 2, 0x91, 0x21, 0, x[0]] + TS + x[1:]
    elif kind == 'udh':
        if p['small']:
            V.assume(V.Or(x[0] < 12, x[0] > 250))
        o = [0, 0x44, 2, 0x91, 0x21, 0, p['dcs']] + TS + x
    elif kind == 'submit':
        o = [0, 0x01 | (x[0] & 0xFC), 7, 2, 0x91, 0x21, 0, 0] + x[1:]
    elif kind == 'report':
        o = [0, 0x02 | (x[0] & 0xFC), 7, 2, 0x91, 0x21] + TS + TS[:p['cut']]
    elif kind == 'cut':
        full = [1 + 1, 0x91, 0x21, 0x44, 3, 0xA1, 0x21, 0xF3, 0, x[0]] + TS + [x[1], 5, 0, 3, x[2], 2, 1, x[3], 0x41, 0x36]
        o = full[:p['cut']]
    attempt(bytearray(o))


def jobs(tier):
    q = tier == 'quick'
    j = [('raw-%d' % n, 'raw', {'n': n}) for n in range(0, 7 if q else 10)]
    j += [('text-%d' % n, 'hexed', {'n': n}) for n in range(0, 5 if q else 7)]
    j += [('hex-%d' % n, 'hexed', {'n': n, 'valid': 1}) for n in ((2, 4, 5) if q else (2, 4, 5, 6, 8, 10))]
    for kind in ('time', 'stime', 'rtime'):
        if q:
            j += [(kind + '-%d' % at, 'template', {'kind': kind, 'k': 2, 'at': at}) for at in range(0, 6)]
        else:
            j += [(kind + '-%d' % at, 'template', {'kind': kind, 'k': 4, 'at': at}) for at in range(0, 4)]
            j.append((kind, 'template', {'kind': kind, 'k': 7}))
    for k in ((3, 4) if q else (3, 5, 7)):
        j.append(('addr-%d' % k, 'template', {'kind': 'addr', 'k': k}))
        j.append(('smsc-%d' % k, 'template', {'kind': 'smsc', 'k': k}))
    for k in ((2, 3) if q else (2, 4, 5, 6)):
        j.append(('ud-%d' % k, 'template', {'kind': 'ud', 'k': k}))
        for dcs in (0, 4, 8):
            if q and k == 3 and dcs == 0:
                continue
            j.append(('udh-%d-%d' % (dcs, k + 1), 'template', {'kind': 'udh', 'k': k + 1, 'dcs': dcs, 'small': q}))
    for k in ((2,) if q else (2, 3, 4, 5, 9)):
        j.append(('submit-%d' % k, 'template', {'kind': 'submit', 'k': k}))
    for c in range(0, 8):
        j.append(('report-%d' % c, 'template', {'kind': 'report', 'k': 1, 'cut': c}))
    for c in (range(0, 28) if not q else range(0, 28, 3)):
        j.append(('cut-%d' % c, 'template', {'kind': 'cut', 'k': 6, 'cut': c}))
    return j
