import threading
import vlib as V
from harness import mdm, smsbox, calls
from harness.smsbox import Box
from gsmmodem.exceptions import TimeoutException, CommandError

BOUNDS = {'quick': 'every ordered pair of modem families, connected in either order, with eight scenarios on the observed modem (incoming and outgoing calls, tones, messages, delivery reports, queries) and every operation on the other one at every point of them, out of: incoming call, dialling, '
                   'sending, receiving, changing the message format, setting the service centre, a USSD request, an error result, a delivery report with any reference, closing (the other); arbitrary texts of 1 character; one modem waiting for a response (or between two '
                   'retries of a busy command) while the other is used',
          'thorough': 'two operations on the other'}
OUTSIDE = 'two objects opened on the same port'
EXPECT = ('pair', 'blocked') + ('ring', 'dial', 'tones', 'hangup', 'send', 'sms', 'format', 'smsc', 'ussd', 'error', 'close', 'report')
BUDGET = {'thorough': 2400}
OPS = ('ring', 'dial', 'send', 'sms', 'format', 'smsc', 'ussd', 'error', 'report')
FOLLOW = {'ring': ('ring', 'answer', 'hangup'), 'dial': ('answered', 'hangup', 'ended')}
FAM = ('generic', 'huawei', 'wavecom', 'zte')


class Unit(object):
    """a modem and what its user sees of it"""
    def __init__(self, family, char):
        self.seen = []
        self.char = char
        self.family = family
        self.m, self.model = mdm.attach(family, incomingCallCallbackFunc=self.on_ring, smsReceivedCallbackFunc=self.on_sms, smsStatusReportCallback=self.on_report)
        self.box = Box(self.model)
        self.inner = self.box.dev
        self.model.hook = self.dev
        self.box.onsend = lambda k, a, b: ['+CMGS: %d' % (40 + k), 'OK']
        self.sent = []
        self.ref = 40
        self.text = False
        self.call = None
        self.k = 0
        self.open = True

    def dev(self, d):
        if d == 'AT+CUSD=1,"*1#",15\r':
            return ['OK', '+CUSD: 0,"' + self.char + '",15']
        if d == 'AT+BAD\r':
            return ['+CME ERROR: 16']
        return self.inner(d)

    def on_ring(self, c):
        self.call = c
        self.seen.append(('ring', c.id, c.number, c.ringCount, c.type))

    def on_sms(self, s):
        self.seen.append(('sms', s.number, s.text, s.status))

    def on_report(self, r):
        self.seen.append(('report', r.reference, r.number))

    def on_status(self, c):
        self.seen.append(('status', c.id, c.answered, c.active))

    def do(self, op):
        m, model = self.m, self.model
        self.k += 1
        if op in ('ring', 'answer', 'hangup', 'dial', 'send', 'sms', 'format', 'smsc', 'ussd', 'error', 'tones', 'close', 'report'):
            V.reach(op)
        if op == 'ring':
            mdm.notify(model, ['+CRING: VOICE', '+CLIP: "77",129'])
        elif op == 'answer':
            self.call.answer()
        elif op == 'hangup':
            self.call.hangup()
        elif op == 'tones':
            try:
                self.call.sendDtmfTone('1')
            except Exception as e:
                self.seen.append(('tones', type(e).__name__))
        elif op == 'dial':
            self.call = mdm.dial(m, model, '555', 1, self.on_status)
            self.seen.append(('dialled', self.call.id, self.call.number))
        elif op in ('answered', 'ended'):
            mdm.report(m, model, op, 1, '555')
        elif op == 'send':
            s = m.sendSms('+12', self.char)
            self.sent.append(s)
            self.seen.append(('sent', s.number, s.text, s.reference))
        elif op == 'sms':
            ts = smsbox.Msg()
            ts.f, ts.q = [21, 3, 14, 15, 16, 5], 8
            self.box.put('SM', self.k, smsbox.text_entry(0, '+19', ts, [self.char]) if self.text else
                         smsbox.pdu_entry(0, smsbox.pdu_deliver([1, 9], True, self.char, ts)))
            mdm.notify(model, ['+CMTI: "SM",%d' % self.k])
        elif op == 'report':
            # of the last message sent, or of another
            ref = self.sent[-1].reference if self.sent else self.ref
            at, dt = smsbox.Msg(), smsbox.Msg()
            at.f, at.q = dt.f, dt.q = [21, 3, 14, 15, 16, 5], 8
            self.box.put('SR', self.k, smsbox.report_entry(0, ref, '+19', at, dt, 0) if self.text else
                         smsbox.pdu_entry(0, smsbox.pdu_report(ref, [1, 9], True, at, dt, 0)))
            mdm.notify(model, ['+CDSI: "SR",%d' % self.k])
        elif op == 'format':
            self.text = not self.text
            m.smsTextMode = self.text
        elif op == 'smsc':
            m.smsc = '+4%d' % self.k
        elif op == 'ussd':
            u = m.sendUssd('*1#')
            self.seen.append(('ussd', u.message, u.sessionActive))
        elif op == 'error':
            try:
                m.write('AT+BAD')
            except CommandError as e:
                self.seen.append(('error', type(e).__name__, e.code))
        elif op == 'close':
            m.close()
            self.open = False
        self.state()

    def state(self):
        m = self.m
        self.seen.append(('state', m.smsTextMode, m.smsc, [(k, c.number, c.answered, c.active) for k, c in sorted(m.activeCalls.items())], m.alive,
                          [(s.reference, s.status, s.report is not None) for s in self.sent]))

    def close(self):
        if self.open:
            self.m.close()


def choose(tag, n, last):
    """operations that make sense one after the other"""
    ops = []
    opts = OPS
    for i in range(n):
        o = V.pick('%s%d' % (tag, i), opts + (('close',) if last and i == n - 1 else ()))
        ops.append(o)
        if o == 'close':
            break
        if o in FOLLOW:
            opts = FOLLOW[o] + ('send',)
        elif o in ('answer', 'answered'):
            opts = ('tones', 'hangup')
        elif o in ('hangup', 'ended'):
            opts = OPS
        elif o == 'tones':
            opts = ('tones', 'hangup')
    return ops


SCEN = {'in': ('ring', 'answer', 'tones', 'hangup'), 'out': ('dial', 'answered', 'tones', 'ended'), 'sms': ('format', 'sms', 'send'), 'misc': ('smsc', 'ussd', 'error'),
        'rep': ('send', 'report', 'send', 'report'), 'in2': ('ring', 'ring', 'hangup'), 'out2': ('dial', 'hangup', 'dial'), 'pdu': ('sms', 'send', 'send')}


def pair(p):
    a, b = p['families']
    ch = V.char('x', [(0x61, 0x7A)])
    aops = SCEN[p['scen']]
    bops = choose('b', p['k'], True)
    at = V.choice('at', len(aops) + 1)
    alone = Unit(a, ch)
    alone.state()
    for op in aops:
        alone.do(op)
    want, sent = alone.seen, [x for x in alone.model.log if x != 'AT+CLCC\r']
    alone.close()
    V.reach('pair')
    if V.bool('first'):
        u = Unit(a, ch)
        w = Unit(b, 'y')
    else:
        w = Unit(b, 'y')
        u = Unit(a, ch)
    if 'report' in bops and 'send' not in bops and 'format' not in bops:
        w.ref = V.int('ref', 0, 255)
    u.state()
    for i in range(len(aops) + 1):
        if i == at:
            n = len(u.model.log), len(u.seen)
            for op in bops:
                w.do(op)
            V.check([x for x in u.model.log[n[0]:] if x != 'AT+CLCC\r'] == [], 'using one modem writes nothing to another')
            V.check(len(u.seen) == n[1], 'nor runs its callbacks')
        if i < len(aops):
            n = len(w.seen)
            u.do(aops[i])
            V.check(len(w.seen) == n, 'one modem does not run the callbacks of another')
    V.check(len(u.seen) == len(want), 'a modem behaves as if it were the only one')
    for x, y in zip(u.seen, want):
        V.check(x == y, 'a modem behaves as if it were the only one')
    got = [x for x in u.model.log if x != 'AT+CLCC\r']
    V.check(got == sent, 'a modem is sent what it would be sent alone')
    u.close()
    w.close()


def blocked(p):
    """one modem keeps its user waiting"""
    u = Unit(p['families'][0], 'x')
    w = Unit(p['families'][1], 'y')
    V.reach('blocked')
    res = []
    inner = w.dev
    w.model.hook = lambda d: ([] if p['how'] == 'silent' else ['+CMS ERROR: 14']) if d == 'AT+SLOW\r' else inner(d)

    def slow():
        try:
            w.m.write('AT+SLOW')
        except (TimeoutException, CommandError):
            res.append(V.sched.now)
    t = threading.Thread(target=slow)
    t.daemon = True
    t0 = V.sched.now
    t.start()
    V.sched.drain()
    op = V.pick('op', OPS)
    t1 = V.sched.now
    u.do(op)
    if u.family != 'generic' or op != 'dial':
        V.check(V.sched.now - t1 < 1, 'a modem is not held up by another')
    V.check(len(res) == 0, 'which still waits')
    w.model.hook = inner
    t.join()
    u.close()
    w.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for a in FAM:
        for b in FAM:
            if a == b and a in ('zte', 'generic') and q:
                continue
            for f in sorted(SCEN):
                if q and f in ('in2', 'out2', 'pdu') and b != 'huawei':
                    continue
                j.append(('pair-%s-%s-%s' % (a, b, f), 'pair', {'families': (a, b), 'scen': f, 'k': 1 if q else 2}))
    for a in FAM:
        for h in ('silent', 'busy'):
            j.append(('blocked-%s-%s' % (a, h), 'blocked', {'families': (a, 'huawei'), 'how': h}))
    return j
