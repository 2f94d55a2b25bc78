import vlib as V
from datetime import datetime, timedelta
from gsmmodem import pdu
from gsmmodem.util import SimpleOffsetTzInfo
from harness import spec

BOUNDS = {'quick': 'texts: every text of 0..2 characters (all of Unicode except lone surrogates), GSM-7 texts of 3, 6..9 and 15 characters, of 3 with an '
                   'escaped one at any place, UCS-2 texts of 3 and 10; destinations of 1..15 digits or names of 1..11 characters; every reference 0..255, service '
                   'centre of 0..14 digits, every flag combination, no/relative (every duration)/absolute (every date) validity',
          'thorough': 'texts: every text of 0..3 characters, GSM-7 texts of 4..160 characters, UCS-2 texts of 4..70; rest as quick'}
OUTSIDE = 'names that end in @ and fill whole octets (the recorded finding of P04); destinations that are neither digits (with or without +) nor GSM-7 names; references above 255'
ASSUMPTIONS = ['the number format octet may be any with the right type of number']
EXPECT = ('gsm7', 'ucs2', 'flash', 'relative', 'absolute', 'name', 'smsc', 'decoded')
# all of Unicode but the surrogates
UNI = [(0, 0xD7FF), (0xE000, 0x10FFFF)]


def unichar(name):
    c = V.int(name, 0, 0x10FFFF)
    V.assume(V.Or(c < 0xD800, c > 0xDFFF))
    return chr(c)


def has7(ch):
    return V.Or(V.And(spec.DEFSTR.find(ch) >= 0, ch != '\uffff'), spec.EXTSTR.find(ch) >= 0)


def verify(pdus, number, text, want):
    """want: ref, smsc, srr, rd, flash, and a function checking the validity"""
    V.check(len(pdus) == 1, 'one PDU')
    p = pdus[0]
    o = list(p.data)
    V.observe('pdu', o)
    r = spec.read_submit(o)
    V.check(r['mti'] == 1, 'an SMS-SUBMIT')
    V.check(p.tpduLength == r['tpdulen'], 'reported TPDU length')
    V.check(r['smsc'] == want['smsc'], 'service centre')
    V.check(r['mr'] == want['ref'], 'message reference')
    V.check(V.eq(r['rd'], want['rd']), 'reject-duplicates flag')
    V.check(V.eq(r['srr'], want['srr']), 'status-report-request flag')
    V.check(V.Not(r['rp']), 'no reply path')
    V.check(V.Not(r['udhi']), 'no header in a short message')
    if number is not None:
        V.check(r['da'] == number, 'destination')
        V.check(r['toa'] & 0x80 == 0x80, 'type-of-address top bit')
        if 'dafill' in r:
            V.check(r['dafill'] == 15, 'odd digits end in F')
    V.check(r['pid'] == 0, 'no higher-level protocol')
    want['validity'](r)
    gsm = V.And(*[has7(c) for c in text])
    alpha = (r['dcs'] >> 2) & 3
    V.check(V.Or(alpha == 0, alpha == 2), 'GSM-7 or UCS-2')
    V.check(V.eq(alpha == 0, gsm), 'GSM-7 exactly if every character has a GSM-7 code')
    V.reach('gsm7' if alpha == 0 else 'ucs2')
    V.check(V.eq(V.And(r['dcs'] & 0x10 != 0, r['dcs'] & 3 == 0), want['flash']), 'flash class')
    V.check(V.Implies(V.Not(want['flash']), r['dcs'] & 0xF3 == 0), 'no class unless flash')
    V.check(r['dcs'] & 0xE0 == 0, 'general data coding, not compressed')
    ies, t, ok = spec.read_text(r)
    V.check(ok, 'user data length')
    V.check(t == text, 'text')
    return p, r


def decoded(p, number, text, want, r):
    for arg in (p.data, str(p)):
        d = pdu.decodeSmsPdu(arg)
        V.reach('decoded')
        V.check(d['type'] == 'SMS-SUBMIT', 'decoder: type')
        V.check(d['number'] == number, 'decoder: number')
        V.check(d['text'] == text, 'decoder: text')
        V.check(d['reference'] == want['ref'], 'decoder: reference')
        V.check(d['smsc'] == want['smsc'], 'decoder: service centre')
        V.check(d['tpdu_length'] == p.tpduLength, 'decoder: TPDU length')
        V.check(d['protocol_id'] == 0, 'decoder: protocol id')
        V.check('udh' not in d or len(d['udh']) == 0, 'decoder: no header')
    return d


def novalid(r):
    V.check(r['vpf'] == 0, 'no validity period')


def text(p):
    kind, n = p['kind'], p['n']
    if kind == 'any':
        s = ''.join([unichar('c%d' % i) for i in range(n)])
    elif kind == 'gsm':
        s = V.str('s', n, spec.BASICCHARS)
    elif kind == 'ext':
        i = V.choice('at', n)
        s = V.str('s', n - 1, spec.BASICCHARS)
        e = V.str('e', 1 if n == 1 else p.get('k', 1), spec.EXTSTR)
        s = s[:i] + e + s[i:]
    elif kind == 'ucs':
        s = V.str('s', n, (0x400, 0xD7FF))
    elif kind == 'ucsat':
        # one character without GSM-7 code anywhere forces UCS-2
        i = V.choice('at', n)
        s = V.str('s', n - 1, spec.ALLCHARS)
        s = s[:i] + V.str('e', 1, (0x400, 0xD7FF)) + s[i:]
    elif kind == 'astral':
        i = V.choice('at', n)
        s = V.str('s', n - 1, spec.ALLCHARS)
        s = s[:i] + V.str('e', 1, (0x10000, 0x10FFFF)) + s[i:]
    ref = V.int('ref', 0, 255)
    flash = V.bool('flash') if p.get('flash') else False
    num = '+4179' + p.get('tail', '')
    want = {'ref': ref, 'smsc': None, 'srr': True, 'rd': False, 'flash': flash, 'validity': novalid}
    pdus = pdu.encodeSmsSubmitPdu(num, s, reference=ref, sendFlash=flash)
    q, r = verify(pdus, num, s, want)
    decoded(q, num, s, want, r)


def flags(p):
    n, m = p['n'], p['m']
    num = ('+' if p['intl'] else '') + spec.digitstr([V.int('d%d' % i, 0, 9) for i in range(n)])
    smsc = None
    if m:
        smsc = ('+' if p['sintl'] else '') + spec.digitstr([V.int('e%d' % i, 0, 9) for i in range(m)])
        V.reach('smsc')
    ref = V.int('ref', 0, 255)
    srr, rd = V.bool('srr'), V.bool('rd')
    flash = False if p['val'] == 'rel' else V.bool('flash')
    if flash:
        V.reach('flash')
    s = V.pick('text', ('Ab1', '\u0417'))
    val = None
    check = novalid
    if p['val'] == 'rel':
        secs = V.int('secs', 300, 63 * 604800)
        val = timedelta(seconds=secs)
        V.reach('relative')

        def check(r):
            V.check(r['vpf'] == 2, 'relative validity')
            c = r['vp']
            t = V.ite(c <= 143, (c + 1) * 300, V.ite(c <= 167, 43200 + (c - 143) * 1800, V.ite(c <= 196, (c - 166) * 86400, (c - 192) * 604800)))
            nx = c + 1
            t2 = V.ite(nx <= 143, (nx + 1) * 300, V.ite(nx <= 167, 43200 + (nx - 143) * 1800, V.ite(nx <= 196, (nx - 166) * 86400, (nx - 192) * 604800)))
            V.check(t <= secs, 'validity not longer than requested')
            V.check(V.Or(c == 255, t2 > secs), 'longest validity that fits')
    elif p['val'] == 'abs':
        y, mo, d = V.int('y', 1969, 2068), V.int('mo', 1, 12), V.int('day', 1, 28)
        h, mi, sec = V.int('h', 0, 23), V.int('mi', 0, 59), V.int('sec', 0, 59)
        q = V.int('q', -79, 79)
        val = datetime(y, mo, d, h, mi, sec, 0, SimpleOffsetTzInfo(q * 0.25))
        V.reach('absolute')

        def check(r):
            V.check(r['vpf'] == 3, 'absolute validity')
            V.check(V.eq(spec.unstamp(r['vp']), [y % 100, mo, d, h, mi, sec, q]), 'validity date')
    want = {'ref': ref, 'smsc': smsc, 'srr': srr, 'rd': rd, 'flash': flash, 'validity': check}
    pdus = pdu.encodeSmsSubmitPdu(num, s, reference=ref, validity=val, smsc=smsc, requestStatusReport=srr, rejectDuplicates=rd, sendFlash=flash)
    o, r = verify(pdus, num, s, want)
    res = decoded(o, num, s, want, r)
    if p['val'] == 'abs':
        v = res['validity']
        V.check(V.And(v.year == y, v.month == mo, v.day == d, v.hour == h, v.minute == mi, v.second == sec), 'decoder: validity date')
        V.check(v.utcoffset() == timedelta(minutes=15 * q), 'decoder: validity zone')
    elif p['val'] == 'rel':
        v = res['validity']
        V.check(V.And(v <= val), 'decoder: validity')
        V.check(pdu._encodeRelativeValidityPeriod(v) == r['vp'], 'decoder: validity code')
    else:
        V.check('validity' not in res, 'decoder: no validity')


def name(p):
    n = p['n']
    nm = V.str('nm', n, spec.BASICCHARS)
    V.assume(V.Not(V.And(*[V.And(c >= '0', c <= '9') for c in nm])))
    if n > 1:
        V.assume(V.Not(V.And(nm[0] == '+', *[V.And(c >= '0', c <= '9') for c in nm[1:]])))
    V.reach('name')
    codes = spec.enc7(nm)
    s = V.str('s', 2, spec.BASICCHARS)
    want = {'ref': 7, 'smsc': None, 'srr': False, 'rd': True, 'flash': False, 'validity': novalid}
    pdus = pdu.encodeSmsSubmitPdu(nm, s, reference=7, requestStatusReport=False, rejectDuplicates=True)
    if len(codes) % 8 == 0:
        V.assume(codes[-1] != 0)      # see P04-name-final-at
    o, r = verify(pdus, None, s, want)
    V.check(r['toa'] & 0x70 == 0x50, 'alphanumeric destination')
    V.check(V.eq(r['daoctets'], spec.pack(codes)), 'name octets')
    decoded(o, nm, s, want, r)


def badvalid(p):
    v = V.pick('v', (5, '1 day', 1.5, [1]))
    try:
        pdu.encodeSmsSubmitPdu('123', 'x', validity=v)
        V.check(False, 'a validity of another type is refused')
    except TypeError:
        V.check(True, 'refused')


def jobs(tier):
    q = tier == 'quick'
    j = [('any-%d' % n, 'text', {'kind': 'any', 'n': n, 'flash': n < 2, 'tail': '123'[:n]}) for n in range(0, 3 if q else 4)]
    j += [('gsm-%d' % n, 'text', {'kind': 'gsm', 'n': n, 'flash': n == 3}) for n in ((3, 6, 7, 8, 9, 15) if q else list(range(4, 70)) + list(range(70, 161, 7)) + [158, 159, 160])]
    j += [('ext-%d' % n, 'text', {'kind': 'ext', 'n': n}) for n in ((3,) if q else range(4, 17))]
    j += [('ext2-%d' % n, 'text', {'kind': 'ext', 'n': n, 'k': 2}) for n in (() if q else range(2, 8))]
    j += [('ucs-%d' % n, 'text', {'kind': 'ucs', 'n': n}) for n in ((3, 10) if q else range(4, 71))]
    j += [('ucsat-%d' % n, 'text', {'kind': 'ucsat', 'n': n}) for n in ((2,) if q else (3, 4, 6))]
    j += [('astral-%d' % n, 'text', {'kind': 'astral', 'n': n}) for n in ((3,) if q else (4, 6))]
    for n, m in ((1, 0), (11, 12), (10, 1)) if q else ((1, 0), (2, 5), (11, 12), (15, 14), (10, 1), (7, 11)):
        for val in ('none', 'rel', 'abs'):
            if q and val != 'none' and n != 11:
                continue
            j.append(('flags-%d-%d-%s' % (n, m, val), 'flags', {'n': n, 'm': m, 'intl': n % 2, 'sintl': m % 2 == 0, 'val': val}))
    j += [('name-%d' % n, 'name', {'n': n}) for n in ((1, 7, 8) if q else range(1, 12))]
    j.append(('badvalid', 'badvalid', {}))
    return j
