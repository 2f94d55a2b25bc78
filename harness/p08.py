import vlib as V
from gsmmodem import pdu
from harness import spec

BOUNDS = {'quick': 'texts of up to 4 parts: GSM-7 texts of 158..163, 304..309 and 457..461 characters and UCS-2 texts of 68..72, 132..137 and 200..203, '
                   'with every choice of escaped (or non-BMP) characters among the 4-7 positions around each part boundary and the last one, those characters arbitrary, '
                   'the others fixed and position-dependent; every reference 0..255',
          'thorough': 'as quick with 7 positions around each boundary, every length 1..8 beyond each boundary and texts of up to 6 parts; '
                      'GSM-7 texts of 161 wholly arbitrary characters'}
OUTSIDE = 'texts of more than 6 parts; more than 255 parts cannot be numbered'
EXPECT = ('single', 'multi', 'escaped', 'astral', 'ucs2')
FILL = 'abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ.,:;+-'
UFILL = ''.join([chr(0x410 + i) for i in range(61)])


def verify(s, pdus, ref, gsm, num):
    size = 0
    sizes = []
    texts = []
    heads = []
    V.observe('n', len(pdus))
    total = len(pdus)
    for i in range(total):
        p = pdus[i]
        o = list(p.data)
        r = spec.read_submit(o)
        V.check(r['tpdulen'] == p.tpduLength, 'reported TPDU length')
        V.check(r['mti'] == 1, 'an SMS-SUBMIT')
        V.check(r['da'] == num, 'destination in every part')
        alpha = (r['dcs'] >> 2) & 3
        V.check(alpha == (0 if gsm else 2), 'coding')
        V.check(len(r['ud']) <= 140, 'at most 140 octets of user data')
        V.check(r['udl'] <= (160 if gsm else 140), 'at most 160 septets or 140 octets')
        ies, t, ok = spec.read_text(r)
        V.check(ok, 'user data length matches')
        V.check(len(t) > 0 or len(s) == 0, 'no part is empty')
        texts.append(t)
        if total == 1:
            V.check(V.Not(r['udhi']), 'a text that fits has no header')
        else:
            V.check(r['udhi'], 'header present')
            V.check(len(ies) == 1, 'one header element')
            iei, data = ies[0]
            if len(data) == 3:
                V.check(iei == 0, '8-bit concatenation element')
                pr, pt, pn = data
            else:
                V.check(V.And(iei == 8, len(data) == 4), '16-bit concatenation element')
                pr, pt, pn = data[0] << 8 | data[1], data[2], data[3]
            V.check(pr == ref, 'same reference in every part')
            V.check(pt == total, 'total number of parts')
            V.check(pn == i + 1, 'own number')
    V.check(''.join(texts) == s, 'the parts in order make up the text')
    units = 0
    if gsm:
        units = len(spec.enc7(s))
    else:
        units = len(spec.utf16(s)) // 2
    fits = units <= (160 if gsm else 70)
    V.reach('single' if fits else 'multi')
    V.check(fits == (total == 1), 'one part exactly if the text fits')
    return texts


def build(p):
    """text of n characters, the positions in p['at'] each plain or special"""
    gsm = p['gsm']
    n = V.pick('n', p['n'])
    fill = FILL if gsm else UFILL
    out = []
    for i in range(n):
        special = False
        if i in p['at'] or i - n in p['at']:
            special = V.choice('sp%d' % i, 2) == 1
            if not special and (p['symbolic'] or p.get('plain')):
                out.append(V.str('c%d' % i, 1, spec.BASICCHARS if gsm else (0x400, 0xD7FF)))
                continue
        if special:
            if gsm:
                V.reach('escaped')
                out.append(V.str('e%d' % i, 1, spec.EXTSTR) if p['symbolic'] else spec.EXTSTR[i % len(spec.EXTSTR)])
            else:
                V.reach('astral')
                out.append(chr(V.int('e%d' % i, 0x10000, 0x10FFFF)))
        else:
            out.append(fill[(i + i // len(fill)) % len(fill)])
    return ''.join(out)


def split(p):
    gsm = p['gsm']
    if not gsm:
        V.reach('ucs2')
    s = build(p)
    ref = V.int('ref', 0, 255)
    num = '+12345'
    pdus = pdu.encodeSmsSubmitPdu(num, s, reference=ref)
    verify(s, pdus, ref, gsm, num)
    if p.get('decode'):
        texts = []
        for q in pdus:
            d = pdu.decodeSmsPdu(q.data)
            texts.append(d['text'])
            if len(pdus) > 1:
                c = d['udh'][0]
                V.check(V.And(c.reference == ref, c.parts == len(pdus), c.number == len(texts)), 'decoder: concatenation element')
        V.check(''.join(texts) == s, 'decoder: text')


def arbitrary(p):
    """every character arbitrary"""
    n = p['n']
    s = V.str('s', n, spec.BASICCHARS) if p['gsm'] else V.str('s', n, (0x400, 0xD7FF))
    ref = V.int('ref', 0, 255)
    pdus = pdu.encodeSmsSubmitPdu('+12345', s, reference=ref)
    verify(s, pdus, ref, p['gsm'], '+12345')


def jobs(tier):
    q = tier == 'quick'
    j = []
    w = 2 if q else 3

    def around(*b):
        return sorted(set(x + d for x in b for d in range(-w, w + 1)))
    # a single part up to the limit
    j.append(('gsm-1', 'split', {'gsm': 1, 'n': list(range(158, 164)), 'at': around(153) + [-1], 'symbolic': 0, 'decode': 1}))
    j.append(('gsm-1b', 'split', {'gsm': 1, 'n': list(range(151, 163)), 'at': [3, 70, 152, -1], 'symbolic': 0}))
    j.append(('gsm-2', 'split', {'gsm': 1, 'n': list(range(304, 310)), 'at': around(153) + [-1], 'symbolic': 0}))
    j.append(('gsm-2b', 'split', {'gsm': 1, 'n': list(range(304, 310)), 'at': around(305) + [10, -1], 'symbolic': 0}))
    j.append(('gsm-3', 'split', {'gsm': 1, 'n': [457, 459, 460], 'at': [152, 304, 305, -1], 'symbolic': 0}))
    j.append(('gsm-x', 'split', {'gsm': 1, 'n': [160, 161], 'at': [152], 'symbolic': 1, 'decode': 1}))
    j.append(('ucs-1', 'split', {'gsm': 0, 'n': list(range(66, 73)), 'at': around(67) + [-1], 'symbolic': 1, 'decode': 1}))
    j.append(('ucs-2', 'split', {'gsm': 0, 'n': list(range(132, 137)), 'at': around(67) + [-1], 'symbolic': 1}))
    j.append(('ucs-2b', 'split', {'gsm': 0, 'n': list(range(132, 137)), 'at': around(133) + [5, -1], 'symbolic': 1}))
    j.append(('ucs-3', 'split', {'gsm': 0, 'n': [200, 201, 202], 'at': [66, 132, 133, -1], 'symbolic': 1}))
    if not q:
        for name, func, prm in list(j):
            if name.startswith('gsm') and not prm['symbolic']:
                j.append((name + '-plain', func, dict(prm, plain=1)))
        for b in (612, 765):
            j.append(('gsm-%d' % b, 'split', {'gsm': 1, 'n': list(range(b - 4, b + 8)), 'at': [152, 305, b - 154, b - 1, -1], 'symbolic': 0, 'decode': 1}))
        for b in (268, 335):
            j.append(('ucs-%d' % b, 'split', {'gsm': 0, 'n': list(range(b - 4, b + 8)), 'at': [66, 133, b - 68, b - 1, -1], 'symbolic': 1, 'decode': 1}))
        j.append(('arb-gsm-161', 'arbitrary', {'gsm': 1, 'n': 161}))
        j.append(('arb-ucs-71', 'arbitrary', {'gsm': 0, 'n': 71}))
        j.append(('gsm-xx', 'split', {'gsm': 1, 'n': [159, 160, 161], 'at': [151, 152, 153], 'symbolic': 1, 'decode': 1}))
    return j
