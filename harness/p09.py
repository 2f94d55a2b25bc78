import vlib as V
from datetime import timedelta
from gsmmodem import pdu
from harness import spec

BOUNDS = {'quick': 'SMS-DELIVER with GSM-7 texts of 0..9, 16, 17, 40 arbitrary non-escape codes and of 100, 159 and 160 codes with every ninth arbitrary (0..2 codes fully arbitrary), 8-bit and UCS-2 texts of '
                   '0..4 units (octets/units arbitrary); no header or headers of 3..15 octets made of 1..3 elements with arbitrary contents; senders: 0..12 digits '
                   'of any number type, names of 1..11 characters; service centre of 0..12 digits; every date, zone, protocol id, class; status reports '
                   'with every reference, status and date pair',
          'thorough': 'as quick with GSM-7 texts of 0..40 and 150..160 codes (0..4 fully arbitrary), 8-bit and UCS-2 texts of 0..70 units, headers of 3..40 octets'}
OUTSIDE = ('data coding groups other than the general uncompressed one (the library documents that it ignores them); concatenation and port elements of the wrong '
           'length; names that end in @ and fill whole octets (recorded under P04)')
ASSUMPTIONS = ['the PDU ends with its user data, as modems deliver it']
EXPECT = ('gsm', 'ucs', 'data', 'header', 'name', 'report', 'nosender')


def sender(p, tag='oa'):
    kind = p.get('from', 'num')
    n = p.get('n', 5)
    if kind == 'num':
        ds = [V.int('%s%d' % (tag, i), 0, 9) for i in range(n)]
        toa = V.int(tag + 'toa', 0x80, 0xFF)
        V.assume(V.Not(toa & 0x70 == 0x50))
        f = spec.address(ds, False)
        f[1] = toa
        intl = toa & 0x70 == 0x10
        return f, ('+' if intl else '') + spec.digitstr(ds)
    if kind == 'empty':
        V.reach('nosender')
        return [0, V.int(tag + 'toa', 0x80, 0xFF)], None
    codes = [V.int('%s%d' % (tag, i), 0, 127) for i in range(n)]
    for c in codes:
        V.assume(c != 27)
    if n % 8 == 0:
        V.assume(codes[-1] != 0)
    V.reach('name')
    o = spec.pack(codes)
    # the length counts useful semi-octets: 7n bits in units of 4
    return [(7 * n + 3) // 4, 0xD0 | V.int(tag + 'npi', 0, 15)] + o, spec.dec7(codes)


def moment(tag):
    """(octets, check) of an arbitrary valid time stamp"""
    yy, mo, d = V.int(tag + 'y', 0, 99), V.int(tag + 'mo', 1, 12), V.int(tag + 'd', 1, 28)
    h, mi, s = V.int(tag + 'h', 0, 23), V.int(tag + 'mi', 0, 59), V.int(tag + 's', 0, 59)
    q = V.int(tag + 'q', 0, 79)
    neg = V.choice(tag + 'neg', 2) == 1

    def check(t, what):
        V.check(V.And(t.year % 100 == yy, t.year >= 1969, t.year <= 2068, t.month == mo, t.day == d), what + ': date')
        V.check(V.And(t.hour == h, t.minute == mi, t.second == s), what + ': time')
        V.check(t.utcoffset() == timedelta(minutes=15 * (-q if neg else q)), what + ': zone')
    return spec.stamp(yy, mo, d, h, mi, s, q, neg), check


def fixed(tag):
    """a time stamp with only the minutes arbitrary (for jobs about other fields)"""
    mi = V.int(tag + 'mi', 0, 59)

    def check(t, what):
        V.check(V.And(t.year == 2021, t.month == 3, t.day == 14, t.hour == 15, t.minute == mi, t.second == 9), what + ': date and time')
        V.check(t.utcoffset() == timedelta(hours=-3), what + ': zone')
    return spec.stamp(21, 3, 14, 15, mi, 9, 12, True), check


def centre(p):
    m = p.get('smsc', 0)
    if not m:
        return [0], None
    ds = [V.int('sc%d' % i, 0, 9) for i in range(m)]
    intl = V.choice('scintl', 2) == 1
    return spec.smsc_field(ds, intl), ('+' if intl else '') + spec.digitstr(ds)


def feed(octets, form):
    if form == 'hex':
        digits = '0123456789ABCDEF'
        out = []
        for x in octets:
            out.append(V.nth([ord(c) for c in digits], x >> 4))
            out.append(V.nth([ord(c) for c in digits], x & 15))
        return pdu.decodeSmsPdu(''.join([chr(c) for c in out]))
    return pdu.decodeSmsPdu(bytearray(octets))


def header(lens):
    """(octets, [(iei, data)])"""
    ies = []
    body = []
    for k in range(len(lens)):
        n = lens[k]
        iei = V.int('iei%d' % k, 0, 255)
        # the known elements have a fixed length
        if n != 3:
            V.assume(iei != 0)
        if n != 4:
            V.assume(V.And(iei != 8, iei != 5))
        if n != 2:
            V.assume(iei != 4)
        data = [V.int('ie%d_%d' % (k, i), 0, 255) for i in range(n)]
        ies.append((iei, data))
        body += [iei, n] + data
    return [len(body)] + body, ies


def deliver(p):
    sc, scval = centre(p)
    oa, oaval = sender(p)
    first = V.int('first', 0, 255)
    V.assume(first & 0x43 == (0x40 if p.get('hdr') else 0))
    pid = V.int('pid', 0, 255)
    dcs = V.int('dcs', 0, 255)
    alpha = p['alpha']
    V.assume(V.And(dcs & 0xE0 == 0, (dcs >> 2) & 3 == {'gsm': 0, 'data': 1, 'ucs': 2}[alpha]))
    ts, tcheck = (moment if p.get('time') else fixed)('t')
    hd, ies = ([], [])
    if p.get('hdr'):
        hd, ies = header(p['hdr'])
        V.reach('header')
    V.reach(alpha)
    k = p['len']
    h = len(hd)
    if alpha == 'gsm':
        if p.get('sparse'):
            codes = [V.int('c%d' % i, 0, 127) if i % 9 == 0 or i > k - 3 else 97 + i % 26 for i in range(k)]
        else:
            codes = [V.int('c%d' % i, 0, 127) for i in range(k)]
        if not p.get('esc'):
            for c in codes:
                V.assume(c != 27)
        fill = spec.fillbits(h) if h else 0
        body = spec.pack(codes, fill)
        if fill and k and p.get('fillbits'):
            # the fill bits are not meaningful
            body[0] = body[0] | V.int('fill', 0, (1 << fill) - 1)
        if k == 0:
            body = []
            fill = fill
        udl = k + (8 * h + fill) // 7
        want = spec.dec7(codes)
    elif alpha == 'data':
        body = [V.int('c%d' % i, 0, 255) for i in range(k)]
        udl = h + k
        want = ''.join([chr(c) for c in body])
    else:
        units = [V.int('c%d' % i, 0, 0xFFFF) for i in range(k)]
        if not p.get('surr'):
            for u in units:
                V.assume(V.Or(u < 0xD800, u > 0xDFFF))
        body = []
        for u in units:
            body += [u >> 8, u & 255]
        udl = h + 2 * k
        want = spec.unutf16(body)
    o = sc + [first] + oa + [pid, dcs] + ts + [udl] + hd + body
    d = feed(o, p.get('form'))
    V.observe('text', d['text'])
    V.check(d['type'] == 'SMS-DELIVER', 'type')
    V.check(d['smsc'] == scval, 'service centre')
    V.check(d['tpdu_length'] == len(o) - len(sc), 'TPDU length')
    if oaval is None:
        V.check(V.Not(d['number']), 'no sender')
    else:
        V.check(d['number'] == oaval, 'sender')
    V.check(d['protocol_id'] == pid, 'protocol id')
    tcheck(d['time'], 'time stamp')
    V.check(d['text'] == want, 'text')
    if ies:
        V.check(len(d['udh']) == len(ies), 'number of header elements')
        for i in range(len(ies)):
            e = d['udh'][i]
            iei, data = ies[i]
            V.check(e.id == iei, 'element identifier')
            V.check(V.eq(list(e.data), data), 'element data')
            if len(data) == 3:
                if iei == 0:
                    V.check(V.And(e.reference == data[0], e.parts == data[1], e.number == data[2]), '8-bit concatenation')
            elif len(data) == 4:
                if iei == 8:
                    V.check(V.And(e.reference == data[0] * 256 + data[1], e.parts == data[2], e.number == data[3]), '16-bit concatenation')
                elif iei == 5:
                    V.check(V.And(e.destination == data[0] * 256 + data[1], e.source == data[2] * 256 + data[3]), '16-bit ports')
            elif len(data) == 2:
                if iei == 4:
                    V.check(V.And(e.destination == data[0], e.source == data[1]), '8-bit ports')
    else:
        V.check('udh' not in d or len(d['udh']) == 0, 'no header elements')


def report(p):
    V.reach('report')
    sc, scval = centre(p)
    ra, raval = sender(p)
    first = V.int('first', 0, 255)
    V.assume(first & 3 == 2)
    mr = V.int('mr', 0, 255)
    t1, c1 = (moment if p['time'] == 1 else fixed)('t')
    t2, c2 = (moment if p['time'] == 2 else fixed)('u')
    st = V.int('st', 0, 255)
    o = sc + [first, mr] + ra + t1 + t2 + [st] + list(V.bytes('more', p.get('more', 0)))
    d = feed(o, p.get('form'))
    V.check(d['type'] == 'SMS-STATUS-REPORT', 'type')
    V.check(d['smsc'] == scval, 'service centre')
    V.check(d['tpdu_length'] == len(o) - len(sc), 'TPDU length')
    V.check(d['reference'] == mr, 'reference')
    V.check(d['number'] == raval, 'recipient')
    c1(d['time'], 'time stamp')
    c2(d['discharge'], 'discharge time')
    V.check(d['status'] == st, 'status')


def jobs(tier):
    q = tier == 'quick'
    j = []
    # senders, service centres
    for n in range(1, 13):
        j.append(('num-%d' % n, 'deliver', {'n': n, 'alpha': 'gsm', 'len': 1, 'smsc': (n * 5) % 13, 'form': 'hex' if n % 3 == 0 else ''}))
    for n in range(1, 12):
        j.append(('name-%d' % n, 'deliver', {'n': n, 'from': 'name', 'alpha': 'gsm', 'len': 2}))
    j.append(('nosender', 'deliver', {'from': 'empty', 'alpha': 'gsm', 'len': 2, 'smsc': 3}))
    # time stamps
    j.append(('time', 'deliver', {'n': 3, 'alpha': 'gsm', 'len': 1, 'time': 1}))
    # GSM-7 texts
    for k in (list(range(0, 10)) + [16, 17, 40] if q else list(range(0, 41)) + list(range(150, 161))):
        j.append(('gsm-%d' % k, 'deliver', {'n': 3, 'alpha': 'gsm', 'len': k}))
    for k in (100, 159, 160):
        j.append(('gsm-sparse-%d' % k, 'deliver', {'n': 3, 'alpha': 'gsm', 'len': k, 'sparse': 1}))
    for k in range(1, 3 if q else 5):
        j.append(('esc-%d' % k, 'deliver', {'n': 3, 'alpha': 'gsm', 'len': k, 'esc': 1}))
    hdrs = [[m] for m in range(0, 13)] + [[3, 2], [0, 4], [2, 0, 3]]
    if not q:
        hdrs += [[m] for m in range(13, 37)] + [[3, 4, 2], [4, 4, 4], [1, 1, 1, 1]]
    for hd in hdrs:
        nm = '.'.join([str(x) for x in hd])
        for k in ((0, 1, 2, 8) if q else range(0, 18)):
            j.append(('gsm-h%s-%d' % (nm, k), 'deliver', {'n': 1, 'alpha': 'gsm', 'len': k, 'hdr': hd, 'fillbits': k % 2 == 1}))
        for k in ((2,) if q else (0, 1, 5)):
            j.append(('ucs-h%s-%d' % (nm, k), 'deliver', {'n': 1, 'alpha': 'ucs', 'len': k, 'hdr': hd}))
            j.append(('data-h%s-%d' % (nm, k), 'deliver', {'n': 1, 'alpha': 'data', 'len': k, 'hdr': hd}))
    for k in (range(0, 5) if q else list(range(0, 30)) + [69, 70]):
        j.append(('ucs-%d' % k, 'deliver', {'n': 2, 'alpha': 'ucs', 'len': k, 'form': 'hex' if k == 2 else ''}))
        j.append(('data-%d' % k, 'deliver', {'n': 2, 'alpha': 'data', 'len': k, 'form': 'hex' if k == 3 else ''}))
    for k in range(1, 4 if q else 6):
        j.append(('surr-%d' % k, 'deliver', {'n': 2, 'alpha': 'ucs', 'len': k, 'surr': 1}))
    for t in (0, 1, 2):
        j.append(('report-t%d' % t, 'report', {'n': 4, 'time': t, 'smsc': t}))
    for n in (1, 2, 11, 12):
        j.append(('report-n%d' % n, 'report', {'n': n, 'time': 0, 'smsc': n, 'more': n % 3, 'form': 'hex' if n == 2 else ''}))
    j.append(('report-name', 'report', {'from': 'name', 'n': 5, 'time': 0}))
    return j
