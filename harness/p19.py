import vlib as V
from harness import mdm, ser
from gsmmodem.modem import Call, IncomingCall, ReceivedSms, StatusReport

BOUNDS = {'quick': 'every unknown line of 0..9 arbitrary characters for each modem family, known notifications with 0..5 arbitrary characters of text inside, alone and in every pair of kinds in one burst, '
                   'malformed known notifications with 0..4 arbitrary characters',
          'thorough': 'unknown lines of up to 16 characters, texts of up to 9, malformed ones of up to 8, triples of kinds'}
OUTSIDE = 'notification handling that races with another notification\'s'
ASSUMPTIONS = ['notifications of different bursts are handled in the order of their arrival']
EXPECT = ('unknown', 'ring', 'cmti', 'cdsi', 'cusd', 'progress')
BUDGET = {'thorough': 2400}

DELIVER = '0001000A81102143658700000000'       # only its shape matters: replaced below
PDU_DELIVER = '07917238010010F5040BC87238880900F10000993092516195800AE8329BFD4697D9EC37'
PDU_REPORT = '07917238010010F506050B917238880900F1993092516195809930925161958000'


class Rig(object):
    def __init__(self, family, **kw):
        self.calls = []
        self.sms = []
        self.reports = []
        self.m, self.model = mdm.attach(family, incomingCallCallbackFunc=self.calls.append,
                                        smsReceivedCallbackFunc=self.sms.append, smsStatusReportCallback=self.reports.append, **kw)
        self.model.t['AT+CMGR=3'] = ['+CMGR: 0,,24', PDU_DELIVER, 'OK']
        self.model.t['AT+CMGR=7'] = ['+CMGR: 0,,24', PDU_REPORT, 'OK']

    def counts(self):
        return [len(self.calls), len(self.sms), len(self.reports)]


def state(m):
    return sorted([(c.id, c.number, c.active, c.answered, c.__class__.__name__) for c in m.activeCalls.values()])


KNOWN = ('RING', '+CRING', '+CMTI', '+CDSI', '+CUSD')


def starts(l, k):
    return l[:len(k)] == k if len(l) >= len(k) else False


def is_report(family, l):
    """call-progress lines of the family"""
    if family in ('huawei', 'huaweiman'):
        return V.Or(starts(l, '^ORIG:'), starts(l, '^CONN:'), starts(l, '^CEND:'))
    if family == 'wavecom':
        return V.Or(l == 'OK', starts(l, '+WIND: 5,'), starts(l, '+WIND: 6,'))
    if family == 'zte':
        return V.Or(l == 'OK', l == 'CONNECT', starts(l, 'HANGUP:'))
    return False


def unknown(p):
    f = p['family']
    r = Rig(f)
    m, model = r.m, r.model
    if p['calls']:
        c = mdm.dial(m, model, '5', 2)
        mdm.notify(model, ['RING', '+CLIP: "7",129'])
    l = V.str('l', p['n'], ser.BYTES)
    for k in KNOWN:
        V.assume(V.Not(starts(l, k)))
    V.assume(V.Not(is_report(f, l)))
    before, n, k = state(m), len(model.cmds), r.counts()
    mdm.notify(model, [l])
    V.reach('unknown')
    V.check(state(m) == before, 'an unknown notification changes no call')
    V.check([c for c in model.cmds[n:] if c != 'AT+CLCC'] == [], 'an unknown notification sends nothing')
    V.check(r.counts() == k, 'an unknown notification calls no handler')
    mdm.fine()
    # later ones are handled as usual
    mdm.notify(model, ['+CMTI: "SM",3'])
    V.check(len(r.sms) == 1, 'later notifications are handled')
    mdm.fine()
    m.close()


def malformed(p):
    r = Rig('generic')
    m, model = r.m, r.model
    t = V.str('t', p['n'], ser.BYTES)
    if p['prefix'] in ('+CMTI', '+CDSI'):
        # not '... "mem",index'
        V.assume(not (p['n'] > 5))
    n = len(model.cmds)
    mdm.notify(model, [p['prefix'] + t])
    V.reach('unknown')
    V.check(model.cmds[n:] == [], 'a malformed notification sends nothing')
    V.check(r.counts() == [0, 0, 0], 'a malformed notification calls no handler')
    mdm.fine()
    mdm.notify(model, ['RING', '+CLIP: "7",129'])
    V.check(len(r.calls) == 1, 'later notifications are handled')
    mdm.fine()
    m.close()


KINDS = ('ring', 'cring', 'cmti', 'cdsi', 'cusd', 'other')


def lines_of(kind, tag, t):
    if kind == 'ring':
        return ['RING', '+CLIP: "%s",129,"%s",,"",0' % (tag, t)]
    if kind == 'cring':
        return ['+CRING: VOICE', '+CLIP: "%s",145,"%s"' % (tag, t)]
    if kind == 'cmti':
        return ['+CMTI: "SM",3']
    if kind == 'cdsi':
        return ['+CDSI: "SR",7']
    if kind == 'cusd':
        return ['+CUSD: 0,"%s",15' % t]
    return ['^BOOT:%s' % t]


def known(p):
    """a burst of notifications: each is dispatched once, by its kind"""
    r = Rig(p['family'])
    m, model = r.m, r.model
    kinds = p['kinds']
    t = V.str('t', p['n'], [(0x20, 0x21), (0x23, 0x7E)])
    lines = []
    for i, k in enumerate(kinds):
        lines = lines + lines_of(k, str(i + 1), t)
    n = len(model.cmds)
    mdm.notify(model, lines)
    rings = [str(i + 1) for i, k in enumerate(kinds) if k in ('ring', 'cring')]
    V.check([c.number for c in r.calls] == rings, 'every RING reaches the incoming call handler once')
    V.check(len(r.sms) == len([k for k in kinds if k == 'cmti']), 'every +CMTI reaches the SMS handler once')
    V.check(len(r.reports) == len([k for k in kinds if k == 'cdsi']), 'every +CDSI reaches the status report handler once')
    for s in r.sms:
        V.check(isinstance(s, ReceivedSms), 'the SMS handler gets a message')
        V.reach('cmti')
    for s in r.reports:
        V.check(isinstance(s, StatusReport), 'the report handler gets a report')
        V.reach('cdsi')
    if rings:
        V.reach('ring')
    want = []
    for c in model.cmds[n:]:
        V.check(c.startswith('AT+CMGR=') or c.startswith('AT+CMGD=') or c.startswith('AT+CPMS=') or c == 'AT+CRC=1', 'only what the handlers need is sent')
    V.check([c for c in model.cmds[n:] if c.startswith('AT+CMGR=')] == ['AT+CMGR=3' if k == 'cmti' else 'AT+CMGR=7' for k in kinds if k in ('cmti', 'cdsi')], 'every message is read once')
    V.check(len(m.activeCalls) == len(rings), 'calls are listed')
    mdm.fine()
    m.close()


def ussd(p):
    """a +CUSD reply reaches the waiting request whatever its text, in any burst"""
    r = Rig('generic')
    m, model = r.m, r.model
    t = V.str('t', p['n'], [(0x20, 0x21), (0x23, 0x7E)])
    before = p['before']
    after = p['after']
    lines = []
    for k in before:
        lines = lines + lines_of(k, '5', '')
    lines = lines + ['+CUSD: 1,"%s",15' % t]
    for k in after:
        lines = lines + lines_of(k, '6', '')
    model.t['AT+CUSD=1,"*1#",15'] = ['OK']

    def later():
        import time
        time.sleep(1)
        model.reply(lines)
    import threading
    threading.Thread(target=later).start()
    u = m.sendUssd('*1#')
    V.reach('cusd')
    V.check(u.message == t, 'the reply has its text')
    V.check(u.sessionActive, 'and its session state')
    V.sched.drain()
    both = before + after
    V.check(r.counts() == [len([k for k in both if k == 'ring']), len([k for k in both if k == 'cmti']), len([k for k in both if k == 'cdsi'])],
            'text inside a notification never changes its kind')
    mdm.fine()
    m.close()


def progress(p):
    """call progress lines of each family, among others in the burst"""
    f = p['family']
    r = Rig(f)
    m, model = r.m, r.model
    c = mdm.dial(m, model, '5', 1)
    line = {'huawei': '^CONN:1,0', 'huaweiman': '^CONN:1,0', 'wavecom': 'OK', 'zte': 'CONNECT'}[f]
    other = lines_of(p['other'], '9', '')
    mdm.notify(model, (other if p['first'] else []) + [line] + ([] if p['first'] else other))
    V.reach('progress')
    V.check(c.answered, 'the call progress line is handled')
    k = p['other']
    V.check(r.counts() == [int(k in ('ring', 'cring')), int(k == 'cmti'), int(k == 'cdsi')], 'and so is the other notification')
    mdm.fine()
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for f in mdm.FAMILIES:
        for n in range(0, (9 if q else 16) + 1):
            if q and f == 'huaweiman' and n not in (2, 6, 8):
                continue
            j.append(('unknown-%s-%d' % (f, n), 'unknown', {'family': f, 'n': n, 'calls': n % 2 == 0 or not q}))
    for k in ('+CMTI', '+CDSI', '+CUSD'):
        for n in range(0, (4 if q else 5) + 1):
            j.append(('malformed-%s-%d' % (k[1:], n), 'malformed', {'prefix': k, 'n': n}))
    for a in KINDS:
        for n in ((0, 5) if q else (0, 4, 9)):
            j.append(('one-%s-%d' % (a, n), 'known', {'family': 'generic', 'kinds': [a], 'n': n}))
        for b in KINDS:
            j.append(('two-%s-%s' % (a, b), 'known', {'family': 'huawei', 'kinds': [a, b], 'n': 1}))
            if not q:
                for c in KINDS:
                    j.append(('three-%s-%s-%s' % (a, b, c), 'known', {'family': 'wavecom', 'kinds': [a, b, c], 'n': 1}))
    for n in range(0, (5 if q else 9) + 1):
        j.append(('ussd-%d' % n, 'ussd', {'n': n, 'before': [], 'after': []}))
    for k in ('ring', 'cmti', 'cdsi', 'other'):
        j.append(('ussd-before-%s' % k, 'ussd', {'n': 2, 'before': [k], 'after': []}))
        j.append(('ussd-after-%s' % k, 'ussd', {'n': 2, 'before': [], 'after': [k]}))
    for f in ('huawei', 'wavecom', 'zte'):
        for k in KINDS:
            for first in (True, False):
                j.append(('progress-%s-%s-%d' % (f, k, first), 'progress', {'family': f, 'other': k, 'first': first}))
    return j
