import threading, time
import vlib as V
from harness import mdm, smsbox, spec, calls
from harness.smsbox import Box

BOUNDS = {'quick': 'every callback (message received, incoming call, change of an outgoing call, delivery report) with every action in it (a command with an arbitrary answer of 2 characters, sending with and without waiting for the '
                   'delivery report, reading a list, a USSD request, dialling, answering and hanging up, closing), and every kind of second notification (or none) that arrives while the callback runs, and in the same burst; '
                   'another thread that uses the modem at the same time under 1 preemption at synchronisation calls',
          'thorough': 'two actions in a row; 2 preemptions'}
OUTSIDE = 'callbacks that raise or never return; a notification that arrives while a command awaits its response (recorded under P26); the fatal-error callback, which runs on the reader thread'
EXPECT = ('sms', 'ring', 'status', 'report', 'write', 'send', 'sendwait', 'list', 'ussd', 'dial', 'hangup', 'close', 'second', 'burst', 'race')
BUDGET = {'thorough': 2400}
RING = '\r\n+CRING: VOICE\r\n\r\n+CLIP: "77",129\r\n'


def ts(k):
    t = smsbox.Msg()
    t.f, t.q = [21, 3, 14, 15, 16, k], 8
    return t


class World(object):
    def __init__(self, p):
        self.p = p
        self.sms, self.rings, self.reports, self.updates = [], [], [], []
        self.first = None
        self.m, self.model = mdm.attach('huawei', textmode=True, smsReceivedCallbackFunc=self.on_sms, incomingCallCallbackFunc=self.on_ring, smsStatusReportCallback=self.on_report)
        self.box = Box(self.model)
        self.inner = self.box.dev
        self.model.hook = self.dev
        self.box.onsend = self.onsend
        self.done = 0
        self.closed = False
        self.fed = 0
        self.expected = []
        self.nested = 0
        self.answer = V.str('answer', 2, [(0x61, 0x7A)])

    def dev(self, d):
        if d == 'AT+CSQ\r':
            return [self.answer, 'OK']
        if d == 'AT+COPS?\r':
            return ['+COPS: 0,0,"op"', 'OK']
        if d.startswith('AT+CUSD=1'):
            return ['OK', '+CUSD: 0,"balance",15']
        if d.startswith('ATD'):
            self.model.cmds.append(d[:-1])
            return ['OK', '^ORIG:%d,0' % (3 + self.nested)]
        return self.inner(d)

    def onsend(self, k, a, b):
        V.check(b == 'reply', 'the text sent')
        self.box.put('SR', 50 + k, smsbox.report_entry(1, 50 + k, '+123', ts(5), ts(6), 0))
        out = ['+CMGS: %d' % (50 + k), 'OK']
        if self.p['act'] == 'sendwait':
            out.append('+CDSI: "SR",%d' % (50 + k))
        return out

    # ------------------------------------------------------------ callbacks
    def on_sms(self, s):
        self.sms.append(s)
        self.event('sms', s)

    def on_ring(self, c):
        self.rings.append(c)
        self.event('ring', c)

    def on_report(self, r):
        self.reports.append(r)
        self.event('report', r)

    def on_status(self, c):
        self.updates.append((c, c.answered, c.active))
        self.event('status', c)

    def event(self, kind, obj):
        if kind == self.p['cb'] and self.first is None:
            self.first = obj
            V.reach(kind)
            if self.p['second'] and not self.p['burst']:
                # it arrives while the callback runs
                S = V.sched
                V.reach('second')
                n = len(S.tasks)
                with self.m._txLock:
                    self.feed(self.p['second'])
                    S.block(lambda: len(S.tasks) > n and not self.model.port.rx)
            for a in self.p['acts']:
                self.act(a, obj)
            self.done += 1

    def act(self, a, obj):
        m = self.m
        V.reach(a)
        if a == 'write':
            V.check(m.write('AT+CSQ') == [self.answer, 'OK'], 'a command in a callback gets its own response')
        elif a == 'send':
            n = len(self.box.sent)
            s = m.sendSms('+123', 'reply')
            V.check(len(self.box.sent) == n + 1 and s.reference == 50 + n, 'a message is sent from a callback')
        elif a == 'sendwait':
            s = m.sendSms('+123', 'reply', waitForDeliveryReport=True)
            V.check(s.report is not None and s.status == s.DELIVERED, 'and its report is waited for')
        elif a == 'list':
            r = m.listStoredSms(memory='ME')
            V.check([x.text for x in r] == ['stored'], 'messages are listed in a callback')
        elif a == 'ussd':
            u = m.sendUssd('*1#')
            V.check(u.message == 'balance', 'a USSD request is answered in a callback')
        elif a == 'dial':
            self.nested += 1
            c = m.dial('555')
            V.check(c.active and m.activeCalls.get(c.id) is c, 'a call is dialled in a callback')
        elif a == 'hangup':
            n = len(self.model.cmds)
            if self.p['cb'] == 'ring':
                obj.answer()
                V.check(obj.answered and self.model.cmds[n:] == ['ATA'], 'a call is answered in its callback')
                n += 1
            obj.hangup()
            V.check(not obj.active and self.model.cmds[n:] == ['ATH'], 'a call is hung up in its callback')
        elif a == 'close':
            m.close()
            self.closed = True
            V.check(self.model.port.closed, 'the connection is closed in a callback')

    # ------------------------------------------------------------ notifications
    def feed(self, what):
        self.model.port.feed(self.text(what))

    def text(self, what):
        if what == 'sms':
            k = 4 + self.fed
            self.fed += 1
            self.expected.append('m%d' % k)
            self.box.put('SM', k, smsbox.text_entry(0, '+1%d' % k, ts(k), ['m%d' % k]))
            return '\r\n+CMTI: "SM",%d\r\n' % k
        if what == 'ring':
            return RING
        if what == 'report':
            k = 9 + self.fed
            self.fed += 1
            self.box.put('SR', k, smsbox.report_entry(1, k, '+123', ts(5), ts(6), 0))
            return '\r\n+CDSI: "SR",%d\r\n' % k
        if what == 'status':
            return '\r\n^CONN:1,0\r\n'


def run(p):
    w = World(p)
    m, model = w.m, w.model
    w.box.put('ME', 1, smsbox.text_entry(1, '+15', ts(1), ['stored']))
    call = None
    if p['cb'] == 'status' or p['second'] == 'status':
        call = mdm.dial(m, model, '555', 1, w.on_status)
    w.updates[:] = []
    w.first = None
    w.done = 0
    text = w.text(p['cb'])
    if p['second'] and p['burst']:
        V.reach('burst')
        text += w.text(p['second'])
    got = []
    if p['race']:
        V.reach('race')
        V.schedule(p['pre'], fine=(), blocks=5)

        def user():
            if p['race'] == 'write':
                got.append(m.write('AT+CSQ'))
            elif p['race'] == 'name':
                got.append(m.networkName)
        S = V.sched
        with m._txLock:
            n = len(S.tasks)
            w.model.port.feed(text)
            S.block(lambda: len(S.tasks) > n and not model.port.rx)
        t = threading.Thread(target=user)
        t.start()
        t.join()
        S.drain()
        V.schedule_off()
    else:
        model.port.feed(text)
        V.sched.drain()
        if 'close' in p['acts']:
            time.sleep(3)
            V.sched.drain()
    V.check(w.done == 1, 'the callback completes')
    want = [p['cb']] + ([p['second']] if p['second'] else [])
    if not w.closed:
        V.check(len(w.sms) == want.count('sms'), 'every message is delivered once')
        V.check(sorted(x.text for x in w.sms) == w.expected, 'every message is delivered')
        V.check(len(w.reports) == want.count('report'), 'every report is handed over once')
        V.check(len(w.rings) == want.count('ring'), 'every ring is announced once')
        if 'hangup' not in p['acts']:
            V.check(len([u for u in w.updates if u[0] is call]) == want.count('status'), 'every change of the call is reported once')
        if want.count('ring') == 2 and 'hangup' not in p['acts']:
            V.check(w.rings[0] is w.rings[1] and w.rings[0].ringCount == 2, 'rings of the same call')
        V.check(m.write('AT+CSQ') == [w.answer, 'OK'], 'the modem is usable afterwards')
    if p['race'] == 'write':
        V.check(got == [[w.answer, 'OK']], 'a command at the same time gets its own response')
    if p['race'] == 'name':
        V.check(got == ['op'], 'a query at the same time gets its own response')
    mdm.fine()
    if not w.closed:
        m.close()


CBS = ('sms', 'ring', 'status', 'report')
ACTS = ('write', 'send', 'sendwait', 'list', 'ussd', 'dial', 'hangup', 'close')


def jobs(tier):
    q = tier == 'quick'
    j = []
    for c in CBS:
        for a in ACTS:
            if a == 'hangup' and c not in ('ring', 'status') or a == 'dial' and c == 'status':
                continue
            for s in (None,) + CBS:
                for b in (False, True):
                    if s is None and b or a == 'close' and b or s == 'status' and c == 'status' or a == 'dial' and s == 'status':
                        continue
                    for a2 in ((None,) if q else (None,) + ACTS[:5]):
                        if a2 and a in ('close', 'sendwait'):
                            continue
                        j.append(('run-%s-%s-%s-%s%d' % (c, a, a2, s, b), 'run', {'cb': c, 'act': a, 'acts': (a,) + ((a2,) if a2 else ()), 'second': s, 'burst': b, 'race': None}))
            for r in ('write', 'name'):
                if a in ('close', 'hangup', 'sendwait', 'ussd', 'dial'):
                    continue                 # their notifications arrive while the other command waits (P26)
                j.append(('race-%s-%s-%s' % (c, a, r), 'run', {'cb': c, 'act': a, 'acts': (a,), 'second': None, 'burst': False, 'race': r, 'pre': 1 if q else 2}))
    return j
