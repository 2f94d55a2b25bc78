"""Independent reference of the parts of GSM 03.38 / 03.40 used by the PDU properties.
Written from the standard, shares no code with the library under check."""
import vlib as V

# GSM 03.38 default alphabet: code -> code point
DEF = [0x40, 0xA3, 0x24, 0xA5, 0xE8, 0xE9, 0xF9, 0xEC, 0xF2, 0xC7, 0x0A, 0xD8, 0xF8, 0x0D, 0xC5, 0xE5,
       0x394, 0x5F, 0x3A6, 0x393, 0x39B, 0x3A9, 0x3A0, 0x3A8, 0x3A3, 0x398, 0x39E, None, 0xC6, 0xE6, 0xDF, 0xC9,
       0x20, 0x21, 0x22, 0x23, 0xA4, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x2B, 0x2C, 0x2D, 0x2E, 0x2F,
       0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0x3E, 0x3F,
       0xA1, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4A, 0x4B, 0x4C, 0x4D, 0x4E, 0x4F,
       0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5A, 0xC4, 0xD6, 0xD1, 0xDC, 0x60,
       0xBF, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F,
       0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0xE4, 0xF6, 0xF1, 0xFC, 0xE0]
# extension table: code -> code point
EXT = {0x0A: 0x0C, 0x14: 0x5E, 0x28: 0x7B, 0x29: 0x7D, 0x2F: 0x5C, 0x3C: 0x5B, 0x3D: 0x7E, 0x3E: 0x5D, 0x40: 0x7C,
       0x65: 0x20AC}
ESC = 0x1B
# note: the library (like the common tables) maps code 0x09 to U+00C7

DEFSTR = ''.join([chr(c) if c is not None else '\uffff' for c in DEF])
EXTSTR = ''.join([chr(EXT[k]) for k in sorted(EXT)])
EXTCODES = sorted(EXT)
BASICCHARS = ''.join([chr(c) for c in DEF if c is not None])
ALLCHARS = BASICCHARS + EXTSTR

# decode tables as plain lists of code points (for merged lookups)
DEFCP = [c if c is not None else 0x20 for c in DEF]
# second code of an escape pair: extension character, else the default character, a space for a second escape
PAIRCP = [EXT.get(i, DEFCP[i]) for i in range(128)]


def enc7(text):
    """list of codes, or None if some character has no code"""
    out = []
    for ch in text:
        i = DEFSTR.find(ch)
        if i >= 0 and ch != '\uffff':
            out.append(i)
        else:
            j = EXTSTR.find(ch)
            if j < 0:
                return None
            out.append(ESC)
            out.append(EXTCODES[j])
    return out


def dec7(codes):
    out = []
    i = 0
    n = len(codes)
    while i < n:
        c = codes[i]
        if c == ESC:
            if i + 1 < n:
                out.append(chr(PAIRCP[codes[i + 1]]))
            i += 2
        else:
            out.append(chr(DEFCP[c]))
            i += 1
    return ''.join(out)


def pack(codes, fill=0):
    """octets holding the codes LSB first after `fill` zero bits"""
    nbits = fill + 7 * len(codes)
    noct = (nbits + 7) // 8
    out = []
    for k in range(noct):
        v = 0
        for i in range(len(codes)):
            start = fill + 7 * i - 8 * k          # bit position of the code relative to the octet
            if -7 < start < 8:
                if start >= 0:
                    v = v | ((codes[i] << start) & 0xFF)
                else:
                    v = v | (codes[i] >> -start)
        out.append(v)
    return out


def unpack(octets, n, fill=0):
    """n codes read from the octets after `fill` bits (None if there are not enough bits)"""
    out = []
    for i in range(n):
        bit = fill + 7 * i
        k, s = bit // 8, bit % 8
        if bit + 7 > 8 * len(octets):
            return None
        v = octets[k] >> s
        if s > 1:
            v = v | (octets[k + 1] << (8 - s))
        out.append(v & 0x7F)
    return out


def fillbits(headeroctets):
    """fill bits after a user data header of that many octets (including its length octet)"""
    return (-8 * headeroctets) % 7


def semi(digits):
    """swapped nibbles of a list of digit values (F filler)"""
    d = list(digits)
    if len(d) % 2:
        d.append(15)
    return [d[i] | (d[i + 1] << 4) for i in range(0, len(d), 2)]


def digitstr(digits):
    return ''.join([chr(48 + d) for d in digits])


def utf16(text):
    out = []
    for ch in text:
        c = ord(ch)
        if c > 0xFFFF:
            c = c - 0x10000
            hi = 0xD800 + (c >> 10)
            lo = 0xDC00 + (c & 0x3FF)
            out.extend([hi >> 8, hi & 255, lo >> 8, lo & 255])
        else:
            out.extend([c >> 8, c & 255])
    return out


def unutf16(octets):
    out = []
    i = 0
    while i + 1 < len(octets):
        u = (octets[i] << 8) | octets[i + 1]
        i += 2
        if u >= 0xD800 and u <= 0xDBFF and i + 1 < len(octets):
            w = (octets[i] << 8) | octets[i + 1]
            if w >= 0xDC00 and w <= 0xDFFF:
                out.append(chr(0x10000 + ((u - 0xD800) << 10) + (w - 0xDC00)))
                i += 2
                continue
        out.append(chr(u))
    return ''.join(out)


def address(digits, intl):
    """TP address of a list of digits"""
    return [len(digits), 0x91 if intl else 0xA1] + semi(digits)


def smsc_field(digits, intl):
    o = semi(digits)
    return [len(o) + 1, 0x91 if intl else 0xA1] + o


def two(v):
    return (v % 10) << 4 | (v // 10)


def stamp(yy, mo, d, h, mi, s, q, neg):
    """7 octets; q = quarter hours (non-negative), neg = west of Greenwich (bool)"""
    z = two(q)
    if neg:
        z = z | 0x08
    return [two(yy), two(mo), two(d), two(h), two(mi), two(s), z]


# ------------------------------------------------------------------ reading a SUBMIT PDU by the rules of GSM 03.40
def read_digits(octets, n):
    out = []
    for i in range(n):
        v = octets[i // 2]
        d = (v >> 4) if i % 2 else (v & 15)
        out.append(chr(48 + d))
    return ''.join(out)


def unstamp(o):
    """[yy, mo, d, h, mi, s, quarter hours (signed)]"""
    v = [(x & 15) * 10 + (x >> 4) for x in o[:6]]
    z = o[6]
    q = (z & 7) * 10 + (z >> 4)
    return v + [V.ite((z & 8) != 0, -q, q)]


def read_submit(o):
    """fields of an SMS-SUBMIT given as a list of octets (None if the layout is broken)"""
    r = {}
    i = 0
    n = o[0]
    i = 1
    r['smsc'] = None
    if n != 0:
        toa = o[1]
        digits = 2 * (n - 1)
        if o[n] >> 4 == 15:
            digits -= 1
        r['smsc'] = ('+' if toa & 0x70 == 0x10 else '') + read_digits(o[2:1 + n], digits)
        r['smsctoa'] = toa
        i = 1 + n
    r['tpdulen'] = len(o) - i
    f = o[i]
    r['mti'] = f & 3
    r['rd'] = (f & 4) != 0
    r['vpf'] = (f >> 3) & 3
    r['srr'] = (f & 0x20) != 0
    r['udhi'] = (f & 0x40) != 0
    r['rp'] = (f & 0x80) != 0
    r['mr'] = o[i + 1]
    n = o[i + 2]
    toa = o[i + 3]
    i += 4
    k = (n + 1) // 2
    r['toa'] = toa
    if toa & 0x70 == 0x50:
        r['da'] = None
        r['daoctets'] = o[i:i + k]
    else:
        r['da'] = ('+' if toa & 0x70 == 0x10 else '') + read_digits(o[i:i + k], n)
        if n % 2:
            r['dafill'] = o[i + k - 1] >> 4
    i += k
    r['pid'] = o[i]
    r['dcs'] = o[i + 1]
    i += 2
    if r['vpf'] == 2:
        r['vp'] = o[i]
        i += 1
    elif r['vpf'] != 0:
        r['vp'] = o[i:i + 7]
        i += 7
    r['udl'] = o[i]
    r['ud'] = o[i + 1:]
    return r


def read_text(r):
    """(header elements, text, well formed) of the user data; elements as (iei, data)"""
    ud = r['ud']
    h = 0
    ies = []
    ok = True
    if r['udhi']:
        h = ud[0] + 1
        j = 1
        while j < h:
            ies.append((ud[j], ud[j + 2:j + 2 + ud[j + 1]]))
            j += 2 + ud[j + 1]
        ok = j == h
    alpha = (r['dcs'] >> 2) & 3
    if alpha == 0:
        fill = fillbits(h)
        n = r['udl'] - (8 * h + fill) // 7
        codes = unpack(ud[h:], n, fill) if n >= 0 else None
        if codes is None:
            return ies, None, False
        return ies, dec7(codes), V.And(ok, len(ud) == h + (fill + 7 * n + 7) // 8)
    if alpha == 2:
        return ies, unutf16(ud[h:]), V.And(ok, r['udl'] == len(ud), (len(ud) - h) % 2 == 0)
    return ies, None, False
