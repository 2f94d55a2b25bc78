"""The message memories of a modem, behind harness.mdm: what is read, deleted, listed and submitted, and where."""
import vlib as V
from harness import mdm, spec
from datetime import timedelta

STAT = ['REC UNREAD', 'REC READ', 'STO UNSENT', 'STO SENT', 'ALL']


class Entry(object):
    """one stored message; rd/ls: header of the +CMGR / +CMGL answer after the name (and index), body: its lines"""
    def __init__(self, stat, rd, ls, body, decodable=True):
        self.stat, self.rd, self.ls, self.body, self.decodable = stat, rd, ls, body, decodable
        self.ix = None           # its index as text, if not that of the place

    def name(self, k):
        return str(k) if self.ix is None else self.ix


class Box(object):
    def __init__(self, model, sep=' '):
        self.model = model
        self.mem = {'ME': {}, 'SM': {}, 'SR': {}}
        self.cur = 'ME'
        self.ops = []
        self.sent = []           # (announcement, body)
        self.pending = None
        self.onlist = None       # called after a listing has been answered
        self.onsend = None       # fn(k, announcement, body) -> lines
        self.onprompt = None     # fn(k, announcement) -> text
        self.sep = sep
        model.hook = self.dev

    def put(self, mem, idx, e):
        self.mem[mem][idx] = e

    def dev(self, d):
        if self.pending is not None:
            a, self.pending = self.pending, None
            V.check(d.endswith('\x1a'), 'nothing but the message is written at the prompt')
            self.sent.append((a, d[:-1]))
            return self.onsend(len(self.sent) - 1, a, d[:-1])
        if d.startswith('AT+CPMS="'):
            self.cur = d[9:11]
            V.check(d[9:-2] in self.mem, 'a known memory is selected')
            return ['OK']
        if d.startswith('AT+CMGR='):
            i = d[8:-1]
            self.ops.append(('read', self.cur, i))
            e = self.find(i)
            if e is None:
                return ['+CMS ERROR: 321']
            return ['+CMGR:' + self.sep + e.rd] + e.body + ['OK']
        if d.startswith('AT+CMGD='):
            i, f = d[8:-1].split(',')
            if f == '0':
                self.ops.append(('delete', self.cur, i))
                m = self.mem[self.cur]
                for k in list(m):
                    if m[k].name(k) == i:
                        del m[k]
            else:
                self.ops.append(('delall', self.cur, f))
                gone = {'1': (1,), '2': (1, 3), '3': (1, 2, 3), '4': (0, 1, 2, 3)}[f]
                m = self.mem[self.cur]
                for k in list(m):
                    if m[k].stat in gone:
                        del m[k]
            return ['OK']
        if d.startswith('AT+CMGL='):
            st = d[8:-1]
            if st.startswith('"'):
                st = STAT.index(st[1:-1])
            else:
                st = int(st)
            self.ops.append(('list', self.cur, st))
            out = []
            m = self.mem[self.cur]
            for k in sorted(m):
                if st == 4 or m[k].stat == st:
                    out.append('+CMGL:' + self.sep + m[k].name(k) + ',' + m[k].ls)
                    out.extend(m[k].body)
            if self.onlist is not None:
                self.onlist()
            return out + ['OK']
        if d.startswith('AT+CMGS='):
            k = len(self.sent)
            r = self.onprompt(k, d[8:-1]) if self.onprompt is not None else '\r\n> '
            if r.endswith('> '):
                self.pending = d[8:-1]
            return r
        return None

    def find(self, i):
        m = self.mem[self.cur]
        for k in m:
            if m[k].name(k) == i:
                return m[k]
        return None


HEX = [ord(c) for c in '0123456789ABCDEF']


def hexed(octets):
    out = []
    for x in octets:
        out.append(chr(V.nth(HEX, x >> 4)))
        out.append(chr(V.nth(HEX, x & 15)))
    return ''.join(out)


def unhex(s):
    return [int(s[i:i + 2], 16) for i in range(0, len(s), 2)]


# the fields of a message as the user sees them
class Msg(object):
    pass


def when(tag, full=False):
    m = Msg()
    if full:
        m.f = [V.int(tag + 'y', 0, 68), V.int(tag + 'mo', 1, 12), V.int(tag + 'd', 1, 28), V.int(tag + 'h', 0, 23), V.int(tag + 'mi', 0, 59), V.int(tag + 's', 0, 59)]
        m.q = V.int(tag + 'q', -47, 48)
    else:
        m.f = [21, 3, 14, 15, V.int(tag + 'mi', 0, 59), 9]
        m.q = -12
    return m


def two(n):
    return chr(48 + n // 10) + chr(48 + n % 10)


def tstext(m):
    """yy/mm/dd,hh:mm:ss+zz"""
    y, mo, d, h, mi, s = m.f
    q = -m.q if m.q < 0 else m.q
    return two(y) + '/' + two(mo) + '/' + two(d) + ',' + two(h) + ':' + two(mi) + ':' + two(s) + ('-' if m.q < 0 else '+') + two(q)


def tsocts(m):
    y, mo, d, h, mi, s = m.f
    neg = m.q < 0
    return spec.stamp(y, mo, d, h, mi, s, -m.q if neg else m.q, neg)


def sametime(t, m, what):
    y, mo, d, h, mi, s = m.f
    V.check(V.And(t.year == 2000 + y, t.month == mo, t.day == d, t.hour == h, t.minute == mi, t.second == s), what + ': date and time')
    V.check(t.utcoffset() == timedelta(minutes=15 * m.q), what + ': zone')


def pdu_deliver(digits, intl, text, ts):
    """octets of an SMS-DELIVER in GSM-7"""
    codes = spec.enc7(text)
    return [0, 0x04] + spec.address(digits, intl) + [0, 0] + tsocts(ts) + [len(codes)] + spec.pack(codes)


def pdu_report(ref, digits, intl, ts, dt, st):
    return [0, 0x06, ref] + spec.address(digits, intl) + tsocts(ts) + tsocts(dt) + [st]


def pdu_submit(digits, intl, text, ref=0):
    codes = spec.enc7(text)
    return [0, 0x01, ref] + spec.address(digits, intl) + [0, 0] + [len(codes)] + spec.pack(codes)


def pdu_entry(stat, octets, alpha='', decodable=True):
    return Entry(stat, '%d,%s,%d' % (stat, alpha, len(octets) - 1), '%d,%s,%d' % (stat, alpha, len(octets) - 1), [hexed(octets)], decodable)


def text_entry(stat, number, ts, lines, alpha=''):
    h = '"' + STAT[stat] + '","' + number + '",' + alpha + ',"' + (tstext(ts) if ts is not None else '') + '"'
    return Entry(stat, h, h, list(lines))


def report_entry(stat, ref, number, ts, dt, st, quoted=True):
    """a status report in text mode"""
    h = ('"' + STAT[stat] + '"' if quoted else '') + ',6,' + str(ref) + ',"' + number + '",145,"' + tstext(ts) + '","' + tstext(dt) + '",' + str(st)
    return Entry(stat, h, h, [])
