import time
import vlib as V
from harness import mdm, calls
from gsmmodem.modem import Call
from gsmmodem.exceptions import CommandError, TimeoutException

BOUNDS = {'quick': 'per modem family: every history of 5 events (dial, answered, ended, rejected, reports about unknown calls, an incoming ring, local hang-up) with up to 5 calls; every call id 0..9 and type 0..9, every '
                   'digit of the end report; progress reports in one burst under 2 preemptions; polled families: 3 polls, each answering any status 0..5 of the call (or nothing, or an error) among any other call, '
                   'with or without number and name',
          'thorough': 'histories of 6 events; 3 preemptions; 4 polls'}
OUTSIDE = 'more than 9 concurrent calls; a modem that reports a call as initiated before it acknowledges the dial command'
ASSUMPTIONS = ['progress reports that carry no call id mean the only outgoing call waiting for an answer']
EXPECT = ('dial', 'r-answer', 'end', 'reject', 'unknown-end', 'unknown-answer', 'ring0', 'hangup', 'timeout', 'refused', 'known', 'unknown',
          'burst', 'poll-answered', 'poll-ended', 'poll-rejected', 'poll-immediate')
BUDGET = {'thorough': 2400}
history = calls.history


def ids(p):
    """huawei: every id and type, every report"""
    m, model = mdm.attach('huawei')
    ups = []
    old = model.hook
    a, ty = V.choice('id', 10), V.choice('type', 10)
    model.hook = lambda d: ['OK', '^ORIG:%d,%d' % (a, ty)] if d.startswith('ATD') else None
    c = m.dial('0123', callStatusUpdateCallbackFunc=lambda call: ups.append((call.answered, call.active)))
    model.hook = old
    V.check(type(c) is Call and c.id == a and c.type == ty and c.number == '0123', 'the call is the one the modem reported')
    V.check(c.active and not c.answered and len(m.activeCalls) == 1 and m.activeCalls[a] is c, 'it is listed')
    b = V.choice('other', 10)
    what = V.pick('what', ['answered', 'ended'])
    if what == 'answered':
        mdm.notify(model, ['^CONN:%d,%s' % (b, V.str('t', 1, '0123456789'))])
    else:
        mdm.notify(model, ['^CEND:%d,%s,%s,%s' % (b, V.str('dur', 1, '0123456789'), V.str('st', 2, '0123456789'), V.str('cc', 2, '0123456789'))])
    if a == b:
        V.reach('known')
        V.check(ups == [(True, True)] if what == 'answered' else ups == [(False, False)], 'the callback runs once with the new state')
        V.check(c.answered == (what == 'answered') and c.active == (what == 'answered'), 'the call has the reported state')
        V.check(len(m.activeCalls) == (1 if what == 'answered' else 0), 'an ended call is unlisted')
    else:
        V.reach('unknown')
        V.check(ups == [] and c.active and not c.answered and m.activeCalls[a] is c and len(m.activeCalls) == 1, 'a report about an unknown call changes nothing')
    mdm.fine()
    m.close()


def nodial(p):
    """no report, or a refusal"""
    m, model = mdm.attach(p['family'])
    refuse = p['refuse']
    model.hook = lambda d: ([refuse] if refuse else ['OK'] if p['family'] not in ('wavecom',) else []) if d.startswith('ATD') else None
    model.t['AT+CLCC'] = ['OK']
    t0 = V.sched.now
    tmo = V.pick('timeout', [1, 3])
    try:
        m.dial('5', timeout=tmo)
        V.check(False, 'a call that is not initiated raises')
    except TimeoutException:
        V.reach('timeout')
        V.check(not refuse, 'a refused call raises the error')
        V.check(tmo <= V.sched.now - t0 <= 2 * tmo, 'when the time is up')
    except CommandError:
        V.reach('refused')
        V.check(refuse, 'an accepted call times out')
    V.check(len(m.activeCalls) == 0, 'no call is listed')
    time.sleep(4)
    V.sched.drain()
    if p['family'] == 'huawei':
        mdm.notify(model, ['^ORIG:1,0'])
        V.check(len(m.activeCalls) == 0, 'no call is listed')
    model.hook = None
    c = mdm.dial(m, model, '6', 2)
    V.check(c.active and c.number == '6' and len(m.activeCalls) == 1 and m.activeCalls[2] is c, 'the next call is listed as usual')
    if p['family'] != 'generic':
        mdm.fine()
    m.close()


def burst(p):
    """several progress reports come at once"""
    m, model = mdm.attach(p['family'])
    ups = []
    rep = {'huawei': ['^ORIG:%d,0', '^CONN:%d,0', '^CEND:%d,5,29,16'], 'wavecom': ['+WIND: 5,%d', 'OK', '+WIND: 6,%d']}[p['family']]
    lines = [r % 3 if '%' in r else r for r in rep[:p['n']]]
    if p['skip']:
        del lines[1]
    text = '\r\n'.join(lines) + '\r\n'
    if p['split']:
        text = '\r\n'.join(lines[:1]) + '\r\n'

    def later():
        time.sleep(0.2)
        model.port.feed('\r\n'.join(lines[1:]) + '\r\n')

    def dev(d):
        if not d.startswith('ATD'):
            return None
        if p['split']:
            import threading
            threading.Thread(target=later).start()
        return ('OK\r\n' if p['family'] == 'huawei' else '') + text
    model.hook = dev
    V.schedule(p['pre'])
    c = m.dial('7', callStatusUpdateCallbackFunc=lambda call: ups.append((call.answered, call.active)))
    if p['split']:
        time.sleep(0.5)
    V.sched.drain()
    V.schedule_off()
    V.reach('burst')
    V.check(c.id == 3 and c.number == '7', 'the call is the one the modem reported')
    ended = p['n'] == 3
    want = ([] if p['skip'] else [(True, True)]) + ([(False, False)] if ended else [])
    V.check(ups == want, 'the callback runs on each change')
    V.check(c.active == (not ended) and c.answered == (not ended and not p['skip']), 'the call has the reported state')
    V.check(len(m.activeCalls) == (0 if ended else 1), 'exactly the active calls are listed')
    mdm.fine()
    m.close()


def clcc(i, d, stat, form):
    l = '+CLCC: %d,%d,%d,0,0' % (i, d, stat)
    return l + ['', ',"12",129', ',"12",129,"Bob"'][form]


def polling(p):
    """every answer of every poll"""
    m, model = mdm.attach('generic')
    ups = []
    state = {}
    wins = []
    form = V.choice('form', 3)
    other = p['other']
    ostat, odir = (V.choice('ostat', 6), p['odir']) if other else (0, 1)
    if odir == 0:
        V.assume(ostat in (0, 1))     # another outgoing call, established and listed before
    sts = []

    def poll():
        # one answer per half second since dialling, whoever asks
        k = max(0, int((V.sched.now - state['t0'] - 0.25) / 0.5))
        while len(wins) <= k:
            n = len(wins)
            if n >= p['polls']:
                s = wins[-1]
            else:
                s = V.pick('s%d' % n, ['none', 'error', 0, 1, 2, 3])
                if not sts:
                    V.assume(s in (0, 2, 3) or (s == 'error' and n < p['polls'] - 1))
            wins.append(s)
            if s != 'error':
                sts.append(s)
        s = wins[k]
        if s == 'error':
            return ['+CME ERROR: 100']
        own = [clcc(2, 0, s, form)] if s != 'none' else []
        oth = [clcc(1, odir, ostat, 1)] if other else []
        return (oth + own if other == 'before' else own + oth) + ['OK']
    if other and odir == 0:
        o = mdm.dial(m, model, '8', 1)
        oups = []
        mdm.report(m, model, 'answered', 1)
        V.check(o.answered and o.active, 'the call is answered')
        o._callStatusUpdateCallbackFunc = lambda call: oups.append(1)
    elif other:
        o = None
    model.hook = lambda d: poll() if d == 'AT+CLCC\r' else ['OK'] if d.startswith('ATD') else None
    state['t0'] = V.sched.now
    try:
        c = m.dial('12', callStatusUpdateCallbackFunc=lambda call: ups.append((call.answered, call.active)))
    except TimeoutException:
        V.check(False, 'the call is listed when the modem reports it')
        return
    V.check(c.id == 2 and c.number == '12' and c.type == 0, 'the call is the one the modem reported')
    for k in range(p['polls'] + 2):
        time.sleep(0.5)
    time.sleep(0.1)
    # reference
    st, want = 'none', []
    for s in sts:
        if st == 'none':
            st = 'dialled'
        elif st == 'dialled' and s == 0:
            st = 'answered'
            want.append((True, True))
        elif st in ('dialled', 'answered') and s == 'none':
            V.reach('poll-ended' if st == 'answered' else 'poll-rejected')
            want.append((False, False))
            st = 'ended'
    if sts and sts[0] == 0:
        V.reach('poll-immediate')
    if st == 'answered':
        V.reach('poll-answered')
    V.check(ups == want, 'the callback runs on each change, and only then')
    V.check(c.active == (st != 'ended') and c.answered == (st == 'answered'), 'the call has the reported state')
    V.check((m.activeCalls.get(2) is c) == (st != 'ended'), 'exactly the active calls are listed')
    if other and odir == 0:
        V.check(o.active and o.answered and m.activeCalls.get(1) is o and oups == [], 'another call is not affected')
        V.check(len(m.activeCalls) == 1 + (st != 'ended'), 'exactly the active calls are listed')
    mdm.fine()
    m.alive = False
    m.close()


OPS = ['dial', 'r-answer', 'end', 'reject', 'unknown-end', 'unknown-answer', 'ring0', 'hangup']


def jobs(tier):
    q = tier == 'quick'
    j = []
    n = 4 if q else 5
    for f in ('huawei', 'huaweiman', 'wavecom', 'zte'):
        pre = [('dial', None)]
        j.append(('history-%s' % f, 'history', {'family': f, 'prefix': pre, 'n': n if f != 'huaweiman' else n - 1, 'ops': OPS}))
        j.append(('history-%s-answered' % f, 'history', {'family': f, 'prefix': pre + [('r-answer', 0)], 'n': n - 1, 'ops': OPS}))
    for f in ('huawei2', 'ztevts', 'windvts'):
        # recognised by their command list only
        j.append(('history-%s' % f, 'history', {'family': f, 'prefix': [('dial', None)], 'n': 2, 'ops': OPS}))
    j.append(('ids', 'ids', {}))
    for f in ('huawei', 'wavecom', 'generic'):
        for r in (None, 'ERROR', '+CME ERROR: 30'):
            if f == 'wavecom' and r:
                continue
            j.append(('nodial-%s-%s' % (f, (r or 'silent').replace(' ', '').replace(':', '')), 'nodial', {'family': f, 'refuse': r}))
    for f in ('huawei', 'wavecom'):
        for k, skip in ((2, False), (3, False), (3, True)):
            for split in (False, True):
                j.append(('burst-%s-%d-%d-%d' % (f, k, skip, split), 'burst', {'family': f, 'n': k, 'skip': skip, 'split': split, 'pre': (2 if q else 3) - (split or k == 3)}))
    for o, d in ((None, 1), ('before', 0), ('after', 0), ('before', 1), ('after', 1)):
        j.append(('polling-%s-%d' % (o, d), 'polling', {'polls': 3 if q else 4, 'other': o, 'odir': d}))
    return j
