import threading
import vlib as V
from harness import mdm, smsbox, spec, p24
from harness.smsbox import Box
from gsmmodem.exceptions import CommandError, CmsError

BOUNDS = {'quick': 'every history of 3 operations (set text or PDU mode, accepted, refused with any error of 3 digits or plain; send; arrival of a message; listing) starting in either mode; arbitrary text of 2 characters of the last '
                   'message; the mode chosen before connecting, changed while closed; an arrival handled, a message sent or a listing made by another thread during a change under 1 preemption at accesses of shared state',
          'thorough': 'histories of 4 operations; 2 preemptions'}
OUTSIDE = 'texts that are a final result (recorded under P26, P27); a modem that changes the format on its own'
EXPECT = ('set-ok', 'set-refused', 'send', 'arrive', 'list', 'closed', 'race', 'same')
BUDGET = {'thorough': 2400}
CHARS = [(0x20, 0x23), (0x25, 0x3F), (0x41, 0x5A), (0x61, 0x7A)]     # same code in GSM-7 and ASCII


class Modes(object):
    """a modem that answers in the format it is set to"""
    def __init__(self, text, **kw):
        self.text = None
        self.refuse = None
        self.switches = []
        self.got = []
        self.texts = {}

        def prepare(model):
            model.hook = self.early
        self.m, self.model = mdm.attach('generic', textmode=text, prepare=prepare, smsReceivedCallbackFunc=self.got.append, **kw)
        self.box = Box(self.model)
        self.inner = self.box.dev
        self.model.hook = self.dev
        self.formats = []
        self.box.onsend = self.onsend
        self.serial = 0

    def early(self, d):
        if d.startswith('AT+CMGF='):
            self.text = d[8:-1] == '1'
        return None

    def dev(self, d):
        if self.box.pending is None and d.startswith('AT+CMGF='):
            V.check(d in ('AT+CMGF=0\r', 'AT+CMGF=1\r'), 'the format is 0 or 1')
            self.switches.append(d)
            if self.refuse is not None:
                return self.refuse
            self.text = d == 'AT+CMGF=1\r'
            for mem in self.box.mem:
                for k in self.box.mem[mem]:
                    self.put(mem, k)
            return ['OK']
        if d.startswith('AT+CMGL='):
            V.check((d[8] == '"') == self.text, 'the listing is asked for in the format of the modem')
        if d.startswith('AT+CMGS='):
            V.check((d[8] == '"') == self.text, 'a message is announced in the format of the modem')
        return self.inner(d)

    def onsend(self, k, a, b):
        self.formats.append(self.text)
        return ['+CMGS: %d' % k, 'OK']

    def store(self, mem, k, text):
        self.texts[k] = text
        self.put(mem, k)

    def put(self, mem, k):
        ts = smsbox.Msg()
        ts.f, ts.q = [21, 3, 14, 15, 16, k % 60], 8
        t = self.texts[k]
        if self.text:
            self.box.put(mem, k, smsbox.text_entry(1, '+1%d' % k, ts, [t]))
        else:
            self.box.put(mem, k, smsbox.pdu_entry(1, smsbox.pdu_deliver([1] + [int(c) for c in str(k)], True, t, ts)))


def some(tag, last):
    if not last:
        return 'm' + tag
    t = V.str(tag, 2, CHARS)
    V.assume(t != 'OK')          # P26-final-result-line
    return t


def sent_ok(w, n, text, textmode):
    """the message n submitted carries the text, in that format"""
    V.check(len(w.box.sent) == n + 1, 'the message is submitted once')
    a, b = w.box.sent[n]
    if textmode:
        V.check(V.And(a == '"+123"', b == text), 'in text mode, as it is')
    else:
        p24.whole([(a, b)], '+123', text)


def operate(w, k, op, mode, last=True):
    """one operation by the user -> the mode afterwards"""
    m = w.m
    if op in ('text', 'pdu'):
        n = len(w.switches)
        want = op == 'text'
        w.refuse = V.pick('refuse%d' % k, [None, ['ERROR'], ['+CMS ERROR: 3'], ['+CME ERROR: 4']])
        if w.refuse is not None and mode != want:
            if w.refuse[0] != 'ERROR':
                w.refuse = [w.refuse[0] + chr(V.int('code%d' % k, 48, 57))]
            e = None
            try:
                m.smsTextMode = want
            except CommandError as x:
                e = x
            V.reach('set-refused')
            V.check(e is not None, 'a refused change is reported')
            V.check(len(w.switches) == n + 1, 'the change is asked for once')
        else:
            m.smsTextMode = want
            V.check(w.switches[n:] == ([] if mode == want else ['AT+CMGF=%d\r' % want]), 'the format is changed if it differs')
            V.reach('set-ok' if mode != want else 'same')
            mode = want
        w.refuse = None
    elif op == 'send':
        V.reach('send')
        n = len(w.box.sent)
        text = some('t%d' % k, last)
        s = m.sendSms('+123', text)
        V.check(s.text == text and s.number == '+123', 'the message')
        sent_ok(w, n, text, mode)
    elif op == 'arrive':
        V.reach('arrive')
        n = len(w.got)
        text = some('t%d' % k, last)
        w.store('ME', 20 + k, text)
        mdm.notify(w.model, ['+CMTI: "ME",%d' % (20 + k)])
        arrived(w, n, 20 + k, text)
    else:
        V.reach('list')
        text = some('t%d' % k, last)
        w.store('SM', 30 + k, text)
        r = m.listStoredSms(memory='SM', delete=True)
        V.check(len(r) == 1, 'the stored message is listed')
        V.check(r[0].text == text and r[0].number == '+1%d' % (30 + k) and r[0].status == 1, 'as it is')
        V.check(w.box.mem['SM'] == {}, 'and deleted')
    V.check(m.smsTextMode == mode and w.text == mode, 'library and modem use the same format')
    return mode


def arrived(w, n, k, text):
    V.check(len(w.got) == n + 1, 'the message is delivered once')
    s = w.got[n]
    V.check(s.text == text and s.number == '+1%d' % k and s.status == 1, 'as it is')
    V.check(k not in w.box.mem['ME'], 'and deleted')


OPS = ['text', 'pdu', 'send', 'arrive', 'list']


def history(p):
    w = Modes(p['text'])
    mode = p['text']
    V.check(w.text == mode, 'connecting sets the format chosen')
    mode = operate(w, 0, p['first'], mode, False)
    for k in range(1, p['n']):
        mode = operate(w, k, V.pick('op%d' % k, OPS), mode, k == p['n'] - 1)
    mdm.fine()
    w.m.close()


def closed(p):
    """the format chosen while closed is the one of the next connection"""
    w = Modes(p['text'])
    w.m.close()
    n = len(w.switches)
    a = V.bool('a')
    w.m.smsTextMode = a
    V.check(w.switches[n:] == [], 'nothing is sent while closed')
    w.model.port.closed = False

    def again(d):
        if d.startswith('AT+CMGF='):
            w.switches.append(d)
            w.text = d == 'AT+CMGF=1\r'
        return None
    w.model.hook = again
    w.m.connect()
    w.model.hook = w.dev
    V.reach('closed')
    V.check(w.switches[n:] == ['AT+CMGF=%d\r' % a], 'the format is set on connecting')
    mode = operate(w, 1, V.pick('op', OPS), bool(a))
    mdm.fine()
    w.m.close()


def race(p):
    """a change of the format while the modem is in use"""
    mode = p['text']
    w = Modes(mode)
    m = w.m
    errs = []
    text = 'm'

    def change():
        try:
            m.smsTextMode = not mode
        except Exception as e:
            errs.append(e)

    def use():
        try:
            if p['use'] == 'send':
                m.sendSms('+123', text)
            elif p['use'] == 'list':
                r = m.listStoredSms(memory='SM')
                V.check(len(r) == 1, 'the stored message is listed')
                V.check(r[0].text == text, 'as it is')
            elif p['use'] == 'change':
                m.smsTextMode = mode
        except Exception as e:
            errs.append(e)
    if p['use'] in ('list', 'arrive'):
        w.store('SM' if p['use'] == 'list' else 'ME', 5, text)
    V.reach('race')
    S = V.sched
    ts = [threading.Thread(target=change)]
    if p['use'] != 'arrive':
        ts.append(threading.Thread(target=use))
    V.schedule(p['pre'], fine=('_smsTextMode',) if p['use'] == 'arrive' else ('_smsTextMode', '_smsMemReadDelete'), blocks=5)
    if p['use'] == 'arrive':
        # reported before the change is asked for
        with m._txLock:
            n = len(S.tasks)
            w.model.port.feed('\r\n+CMTI: "ME",5\r\n')
            S.block(lambda: len(S.tasks) > n and not w.model.port.rx)
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    S.drain()
    V.schedule_off()
    V.check(len(errs) == 0, 'nothing fails')
    if p['use'] == 'arrive':
        arrived(w, 0, 5, text)
    if p['use'] == 'send':
        sent_ok(w, 0, text, w.formats[0])
    V.check(m.smsTextMode == w.text, 'library and modem use the same format')
    mdm.fine()
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for t in (False, True):
        for f in OPS:
            j.append(('history-%d-%s' % (t, f), 'history', {'text': t, 'n': 3 if q else 4, 'first': f}))
        j.append(('closed-%d' % t, 'closed', {'text': t}))
        for u in ('send', 'list', 'arrive', 'change'):
            j.append(('race-%d-%s' % (t, u), 'race', {'text': t, 'use': u, 'pre': 1 if q else 2}))
    return j
