import threading, time
import vlib as V
from harness import ser, mdm, smsbox, p24
from harness.port import Port
from harness.smsbox import Box
from gsmmodem.exceptions import TimeoutException

BOUNDS = {'quick': 'link: the first connection receives every stream of 0..4 arbitrary characters (in two bursts, idle or while a command waits for its response or its prompt) and is then closed, or its port fails; the second one '
                   'receives an arbitrary notification of 1 character and answers a command with an arbitrary line; schedules with up to 1 preemption of the last steps of the first connection. Modem: every operation (call, message, '
                   'format, service centre, USSD) in the first connection, ended in either way, and every operation in the second; up to three connections',
          'thorough': 'streams of 0..6 characters; 2 preemptions; two operations in each'}
OUTSIDE = 'connecting while still connected; calls that were listed when the connection ended (they stay listed until reported ended)'
EXPECT = ('closed', 'failed', 'waiting', 'prompt', 'idle', 'modem', 'third')
BUDGET = {'thorough': 2400}


class Ports(object):
    """a new port for every connection"""
    def __init__(self):
        self.all = []

    def __call__(self, *a, **k):
        V.check(all(p.closed for p in self.all), 'a new port is opened when the old one is closed')
        p = Port(**k)
        self.all.append(p)
        return p


def link(p):
    from gsmmodem.serial_comms import SerialComms
    ports = Ports()
    V.set_serial(ports)
    got, errors = [], []
    s = SerialComms('dev', notifyCallbackFunc=lambda l: got.append(list(l)), fatalErrorCallbackFunc=errors.append)
    s.connect()
    V.sched.drain()
    one = ports.all[0]
    text = [V.char('c%d' % i) for i in range(p['n'])]
    cut = V.choice('cut', p['n'] + 1)
    if p['pre']:
        V.schedule(p['pre'], fine=True, blocks=3)
    res = []
    if p['state'] != 'idle':
        V.reach('prompt' if p['state'] == 'prompt' else 'waiting')

        def cmd():
            try:
                res.append(s.write('AT\r', timeout=2, expectedResponseTermSeq='> ' if p['state'] == 'prompt' else None))
            except Exception as e:
                res.append(e)
        t = threading.Thread(target=cmd)
        t.start()
        V.sched.block(lambda: len(one.log) > 0)
    else:
        V.reach('idle')
    one.feed(text[:cut])
    if not p['pre']:
        V.sched.drain()
    one.feed(text[cut:])
    if p['how'] == 'fail':
        V.reach('failed')
        one.error = V.serial.SerialException('gone')
        V.sched.drain()
    else:
        V.reach('closed')
        s.close()
    if p['state'] != 'idle':
        t.join()
        V.check(len(res) == 1, 'a command of the first connection ends')
    V.sched.drain()
    V.schedule_off()
    n = len(errors)
    V.check(n == (1 if p['how'] == 'fail' else 0), 'a failure is reported once, closing is not')
    V.check(one.closed, 'the first port is closed')
    r1 = one.reads
    w1 = len(one.log)
    got[:] = []
    s.connect()
    V.check(len(ports.all) == 2, 'one port is opened')
    two = ports.all[1]
    V.sched.drain()
    V.check(s.alive, 'the second connection is alive')
    V.check(got == [], 'nothing of the first connection is delivered in the second')
    x = V.char('x')
    y = V.str('y', 1)
    V.assume(V.And(x != '\r', x != '\n'))
    V.assume(V.And(y != '\r', y != '\n'))
    two.feed(x + '\r\n')
    V.sched.drain()
    ser.same(ser.flat(got), [x], 'exactly the lines of the second connection are delivered')
    two.onwrite = lambda d: two.feed(y + '\r\nOK\r\n')
    V.check(s.write('AT2\r') == [y, 'OK'], 'a command gets its response')
    V.check(two.log == ['AT2\r'], 'on the new port')
    two.feed(y + '\r\n')
    V.sched.drain()
    ser.same(ser.flat(got), [x, y], 'exactly the lines of the second connection are delivered')
    time.sleep(3)
    V.sched.drain()
    V.check(len(one.log) == w1 and one.reads <= r1 + 1, 'the old port is left alone')
    s.close()
    V.check(two.closed and not s.alive and len(errors) == n, 'and closing works as the first time')
    ser.alive_reader()


# ------------------------------------------------------------------ the whole modem
OPS = ('ring', 'dial', 'send', 'sms', 'format', 'smsc', 'ussd', 'silent')


class Session(object):
    def __init__(self, family):
        self.family = family
        self.rings, self.sms, self.upd = [], [], []
        self.m, self.model = mdm.attach(family, incomingCallCallbackFunc=self.rings.append, smsReceivedCallbackFunc=self.sms.append)
        self.box = Box(self.model)
        self.inner = self.box.dev
        self.text = False
        self.smsc = '+27'
        self.box.onsend = lambda k, a, b: ['+CMGS: %d' % (40 + k), 'OK']
        self.model.hook = self.dev
        self.k = 0

    def dev(self, d):
        if d == 'AT+CUSD=1,"*1#",15\r':
            return ['OK', '+CUSD: 0,"x",15']
        if d == 'AT+SILENT\r':
            return ['+PART: 1']
        if d.startswith('AT+CPMS='):
            if d[8] == '?':
                return None
            self.box.cur = d[9:11]
            return ['OK']
        if d.startswith('AT+CMGF='):
            self.text = d[8] == '1'
            return ['OK']
        if d.startswith('AT+CSCA='):
            self.smsc = d[9:-2]
            return ['OK']
        if d == 'AT+CSCA?\r':
            return ['+CSCA: "' + self.smsc + '",145', 'OK']
        return self.inner(d)

    def again(self):
        """the modem is reset; a new port"""
        self.model.port = Port()
        self.model.port.onwrite = self.model.written
        self.text = None
        self.box.cur = None
        self.box.pending = None
        self.m.connect()
        V.sched.drain()

    def do(self, op):
        m, model = self.m, self.model
        self.k += 1
        k = self.k
        if op == 'ring':
            n = len(self.rings)
            mdm.notify(model, ['+CRING: VOICE', '+CLIP: "7%d",129' % k])
            V.check(len(self.rings) == n + 1 and self.rings[n].number == '7%d' % k and self.rings[n].ringCount == 1, 'an incoming call is announced')
            n = len(model.cmds)
            self.rings[-1].hangup()
            V.check(model.cmds[n:] == ['ATH'] and m.activeCalls == {}, 'and can be hung up')
        elif op == 'dial':
            del self.upd[:]
            c = mdm.dial(m, model, '555', 1, lambda c: self.upd.append((c.answered, c.active)))
            V.check(list(m.activeCalls.values()) == [c], 'the call is listed')
            mdm.report(m, model, 'answered', c.id, '555')
            V.check(c.answered and self.upd == [(True, True)], 'its answer is noticed')
            mdm.report(m, model, 'ended', c.id, '555')
            V.check(not c.active and m.activeCalls == {}, 'and its end')
        elif op == 'send':
            n = len(self.box.sent)
            s = m.sendSms('+12', 'ab')
            V.check(len(self.box.sent) == n + 1 and s.reference == 40 + n, 'a message is sent')
            if self.text:
                V.check(self.box.sent[n] == ('"+12"', 'ab'), 'in the format set')
            else:
                p24.whole([self.box.sent[n]], '+12', 'ab')
        elif op == 'sms':
            n = len(self.sms)
            ts = smsbox.Msg()
            ts.f, ts.q = [21, 3, 14, 15, 16, 5], 8
            mem = V.pick('mem%d' % k, ['SM', 'ME'])
            self.box.put(mem, k, smsbox.text_entry(0, '+19', ts, ['m%d' % k]) if self.text else
                         smsbox.pdu_entry(0, smsbox.pdu_deliver([1, 9], True, 'm%d' % k, ts)))
            mdm.notify(model, ['+CMTI: "%s",%d' % (mem, k)])
            V.check([s.text for s in self.sms[n:]] == ['m%d' % k], 'a message is delivered once')
            V.check(self.box.mem[mem] == {}, 'and deleted')
        elif op == 'format':
            m.smsTextMode = not m.smsTextMode
        elif op == 'smsc':
            m.smsc = '+4%d' % k
        elif op == 'ussd':
            V.check(m.sendUssd('*1#').message == 'x', 'a USSD request is answered')
        elif op == 'silent':
            try:
                m.write('AT+SILENT', timeout=1)
                V.check(False, 'no answer')
            except TimeoutException as e:
                V.check(e.data == ['+PART: 1'], 'no answer')
        self.state()

    def state(self):
        V.check(self.m.smsTextMode == self.text, 'modem and library use the same format')
        V.check(self.m.smsc == self.smsc, 'the service centre number is that of the modem')
        V.check(self.m.alive, 'the connection is alive')
        mdm.fine()

    def end(self, how, rest):
        port = self.model.port
        if how == 'close':
            V.reach('closed')
            port.feed(rest)
            self.m.close()
        else:
            V.reach('failed')
            port.feed(rest)
            port.error = V.serial.SerialException('gone')
            V.sched.drain()
            port.error = None
        V.check(port.closed and not self.m.alive, 'the connection is down')


def modem(p):
    s = Session(p['family'])
    V.reach('modem')
    for i in range(p['k']):
        s.do(p['first'] if i == 0 else V.pick('a%d' % i, OPS))
    fmt, smsc = s.m.smsTextMode, s.m.smsc
    s.end(p['how'], V.pick('rest', ['', '+CM', '+CMTI: "SM",1\r']))
    s.again()
    V.check(s.m.smsTextMode == fmt, 'the format chosen stays')
    V.check(s.m.smsc == smsc, 'the service centre number stays')
    s.state()
    for i in range(p['k']):
        s.do(V.pick('b%d' % i, OPS))
    if p['third']:
        V.reach('third')
        s.end(V.pick('how', ['close', 'fail']), '')
        s.again()
        s.do(V.pick('c', OPS))
    s.m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for h in ('close', 'fail'):
        for st in ('idle', 'waiting', 'prompt'):
            for n in range(0, 5 if q else 7):
                j.append(('link-%s-%s-%d' % (h, st, n), 'link', {'how': h, 'state': st, 'n': n, 'pre': 0}))
            for n in (1, 2) if q else (2, 3):
                j.append(('sched-%s-%s-%d' % (h, st, n), 'link', {'how': h, 'state': st, 'n': n, 'pre': 1 if q else 2}))
        for f in ('generic', 'huawei', 'wavecom', 'zte'):
            for op in OPS:
                j.append(('modem-%s-%s-%s' % (f, op, h), 'modem', {'family': f, 'how': h, 'first': op, 'k': 1 if q else 2, 'third': f == 'huawei'}))
    return j
