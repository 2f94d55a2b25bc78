import threading
import time
import vlib as V
from harness import mdm, smsbox, spec
from harness.smsbox import Box
from harness.p24 import decimal, cmgs
from gsmmodem.exceptions import TimeoutException

BOUNDS = {'quick': 'every reference and report status of 0..255, every date and zone, every place of up to 3 digits; all histories of 3 sends and reports for 2 arbitrary references, reports in the same or different bursts; a waiting sender with a report for it, '
                   'for another message or none, readable or not, at once, with delay before, at or after the end of the wait; two waiting senders with every order of reports under 1 preemption',
          'thorough': 'histories of 5; 2 preemptions; places of up to 5 digits'}
OUTSIDE = 'reports for any but the last part of a message in parts (only the last reference is kept); report status values 1..63 other than being recorded; reports arriving while a command awaits its response (P26)'
EXPECT = ('own', 'foreign', 'delivered', 'failed', 'again', 'waited', 'timeout', 'early', 'late', 'unreadable', 'reused', 'two', 'quoted')
BUDGET = {'thorough': 2400}


def attach(text, got):
    m, model = mdm.attach('generic', textmode=text, smsStatusReportCallback=got.append)
    box = Box(model)
    return m, model, box


def fixed(k=0):
    ts = smsbox.Msg()
    ts.f, ts.q = [21, 3, 14, 15, 16, k], 8
    return ts


def put(box, text, mem, idx, ref, st, ts=None, dt=None, ds=(1, 2, 3), quoted=True):
    ts = ts or fixed()
    dt = dt or fixed(9)
    if text:
        e = smsbox.report_entry(0, decimal(ref), '+' + spec.digitstr(list(ds)), ts, dt, decimal(st), quoted)
    else:
        e = smsbox.pdu_entry(0, smsbox.pdu_report(ref, list(ds), True, ts, dt, st))
    if not isinstance(idx, int):
        e.ix, idx = idx, 0
    box.put(mem, idx, e)
    return '+CDSI: "' + mem + '",' + e.name(idx)


def state(s, rep, st):
    """a sent message has (not) been reported on"""
    if rep is None:
        V.check(s.report is None and s.status == s.ENROUTE, 'not reported on')
        V.check(s.ENROUTE not in (s.DELIVERED, s.FAILED) and s.DELIVERED != s.FAILED, 'the states of a message differ')
    else:
        V.check(s.report is not None, 'reported on')
        V.check(s.report.reference == s.reference, 'by a report for it')
        V.check(s.report.deliveryStatus == st, 'with the status of the report')
        if st == 0:
            V.reach('delivered')
            V.check(s.status == s.DELIVERED, 'delivered')
        elif st >= 64:
            V.reach('failed')
            V.check(s.status == s.FAILED, 'failed')


def single(p):
    """one report, for a message sent or another"""
    got = []
    text = p['text']
    m, model, box = attach(text, got)
    r1 = V.int('r1', 0, 255)
    r2 = V.int('r2', 0, 255)
    st = V.int('st', 0, 255)
    ts, dt = smsbox.when('t', p['time'] == 1), smsbox.when('u', p['time'] == 2)
    ds = [V.int('d%d' % i, 0, 9) for i in range(p['num'])]
    mem = V.pick('mem', ['ME', 'SM', 'SR']) if not p['time'] else 'SR'
    quoted = V.bool('quoted') if text and not p['time'] else True
    if quoted:
        V.reach('quoted')
    box.onsend = lambda k, a, b: cmgs(r1)
    s = m.sendSms('+1', 'x')
    n = len(model.log)
    idx = '3'
    blank = V.pick('blank', [' ', '']) if p.get('idx') else ' '
    if p.get('idx'):
        idx = V.str('idx', p['idx'], '0123456789')
        V.assume(p['idx'] == 1 or idx[0] != '0')
    note = put(box, text, mem, idx, r2, st, ts, dt, ds, quoted)
    if not blank:
        note = '+CDSI:' + note[7:]
    mdm.notify(model, [note])
    if r1 == r2:
        V.reach('own')
        state(s, True, st)
        V.check(len(got) == 1 and s.report is got[0], 'the report of the message')
    else:
        V.reach('foreign')
        state(s, None, None)
    V.check(len(got) == 1, 'the callback is run once')
    r = got[0]
    V.check(V.And(r.reference == r2, r.deliveryStatus == st), 'reference and status')
    V.check(r.number == '+' + spec.digitstr(ds), 'the destination')
    V.check(r.status == 0, 'unread')
    smsbox.sametime(r.timeSent, ts, 'submission time')
    smsbox.sametime(r.timeFinalized, dt, 'discharge time')
    V.check(box.ops == [('read', mem, idx), ('delete', mem, idx)], 'the report is read and deleted where it arrived')
    mdm.notify(model, [note])
    V.check(len(got) == 1, 'a report that is gone changes nothing')
    mdm.fine()
    m.close()


def history(p):
    """sends and reports for two references in any order"""
    got = []
    text = p['text']
    m, model, box = attach(text, got)
    ra = V.int('ra', 0, 255)
    rb = V.int('rb', 0, 255)
    V.assume(ra != rb)
    st = [V.pick('st0', [0, 70])]
    refs = [ra, rb]
    sent = []     # (which, message)
    last = {}     # id of message -> status
    reports = 0
    pend = []
    for k in range(p['n']):
        op = V.choice('op%d' % k, 4)
        w = op & 1
        if op < 2:
            box.onsend = lambda i, a, b: cmgs(refs[w])
            for o, s in sent:
                if o == w:
                    V.reach('reused')
            s = m.sendSms('+1', 'x')
            sent.append((w, s))
            last[k] = None
            pend.append(k)
        else:
            v = (st[0] + k) if st[0] else 0
            note = put(box, text, 'SM', k, refs[w], v)
            mdm.notify(model, [note])
            reports += 1
            V.check(len(got) == reports, 'the callback is run for each report')
            V.check(V.And(got[-1].reference == refs[w], got[-1].deliveryStatus == v), 'with that report')
            mine = [i for i in range(len(sent)) if sent[i][0] == w]
            if mine:
                i = mine[-1]
                if last[pend[i]] is not None:
                    V.reach('again')
                last[pend[i]] = v
                V.check(sent[i][1].report is got[-1], 'the report of the last message with the reference')
        for i in range(len(sent)):
            v = last[pend[i]]
            state(sent[i][1], None if v is None else True, v)
    mdm.fine()
    m.close()


def burst(p):
    """several reports read together"""
    got = []
    text = p['text']
    m, model, box = attach(text, got)
    n = p['n']
    ss = []
    for k in range(n):
        box.onsend = lambda i, a, b: cmgs(10 + k)
        ss.append(m.sendSms('+1', 'x'))
    want = {}
    notes = []
    seq = []
    for k in range(n):
        w = V.choice('w%d' % k, n + 1)
        st = V.pick('st%d' % k, [0, 64])
        note = put(box, text, ['SM', 'ME'][k & 1], k, 10 + w, st)
        if V.bool('bad%d' % k):
            V.reach('unreadable')
            box.mem[['SM', 'ME'][k & 1]].pop(k)
        else:
            want[w] = st
            seq.append((10 + w, st))
        notes.append(note)
    model.port.feed(''.join(['\r\n' + x + '\r\n' for x in notes]))
    V.sched.drain()
    V.check([(g.reference, g.deliveryStatus) for g in got] == seq, 'the callback gets each report, in order')
    for k in range(n):
        state(ss[k], True if k in want else None, want.get(k))
    mdm.fine()
    m.close()


def after(secs, fn):
    def run():
        time.sleep(secs)
        fn()
    threading.Thread(target=run).start()


T = 8


def wait(p):
    """a sender waits for the report; own and other reports arrive at different times"""
    got = []
    text = p['text']
    m, model, box = attach(text, got)
    free = p['pre'] is None
    if free:
        ref = V.int('ref', 0, 255)
        other = V.int('other', 0, 255)
        V.assume(other != ref)
        st = V.int('st', 0, 255)
    else:
        ref, other, st = 5, 6, 70
    own, foreign = p['own'], p['foreign']
    bad = p['bad']
    n1 = put(box, text, 'SM', 1, ref, st)
    n2 = put(box, text, 'SM', 2, other, 0)
    if bad:
        del box.mem['SM'][1]

    def onsend(k, a, b):
        r = cmgs(ref)
        now = []
        for at, n in ((own, n1), (foreign, n2)):
            if at == 0:
                now.append(n)
            elif at is not None:
                after(at, lambda n=n: model.port.feed('\r\n' + n + '\r\n'))
        if p['swap']:
            now.reverse()
        return r + now
    box.onsend = onsend
    if not free:
        # the schedule is free from shortly before the report arrives
        if own:
            after(own - 0.5, lambda: V.schedule(p['pre'], fine=p['fine']))
        else:
            V.schedule(p['pre'], fine=p['fine'])
    t0 = V.sched.now
    exc = s = None
    try:
        s = m.sendSms('+1', 'x', waitForDeliveryReport=True, deliveryTimeout=T)
    except TimeoutException as e:
        exc = e
    took = V.sched.now - t0
    V.schedule_off()
    if s is not None:
        V.reach('waited')
        V.check(own is not None and own <= T + 1 and not bad, 'only a report for the message ends the wait')
        V.check(took >= own, 'when it has arrived')
        V.check(took <= own + 1 or own >= T, 'as soon as it has')
        state(s, True, st)
        V.check(len([g for g in got if g.reference == ref]) == 0, 'its report goes to the sender')
        if own == 0:
            V.reach('early')
    else:
        V.reach('timeout')
        V.check(own is None or own >= T or bad, 'a report in time ends the wait')
        V.check(took >= T and took <= T + 1, 'the wait ends when requested')
    V.sched.drain()
    time.sleep(2 * T)
    V.sched.drain()
    V.check(len([g for g in got if g.reference == other]) == (1 if foreign is not None else 0), 'a report for another message goes to the callback')
    if s is None and own is not None and not bad and own > T:
        V.reach('late')
        V.check(len([g for g in got if g.reference == ref]) == 1, 'a report after the wait goes to the callback')
    V.check(len(got) <= 2, 'each once')
    # the reference is used again
    box.onsend = lambda k, a, b: cmgs(ref)
    s2 = m.sendSms('+1', 'y')
    k = len(got)
    mdm.notify(model, [put(box, text, 'SM', 7, ref, 0)])
    V.check(len(got) == k + 1, 'nothing waits any more')
    state(s2, True, 0)
    if s is not None:
        state(s, True, st)
    mdm.fine()
    m.close()


def two(p):
    """two senders wait"""
    got = []
    text = p['text']
    m, model, box = attach(text, got)
    times = p['times']
    out = {}
    notes = [put(box, text, 'SM', k, 20 + k, [0, 70][k]) for k in range(2)]
    box.onsend = lambda k, a, b: cmgs(20 + k)

    def report():
        for k in p['order']:
            if times[k] is not None:
                model.port.feed('\r\n' + notes[k] + '\r\n')

    def sender(k):
        t0 = V.sched.now
        try:
            out[k] = m.sendSms('+%d' % (k + 1), 'x', waitForDeliveryReport=True, deliveryTimeout=T)
        except TimeoutException:
            out[k] = None
        out['t%d' % k] = V.sched.now - t0
    V.reach('two')
    if p['sends']:
        V.schedule(p['pre'], fine=p['fine'])
    ts = [threading.Thread(target=sender, args=(k,)) for k in range(2)]
    for t in ts:
        t.start()
    time.sleep(1)
    if not p['sends']:
        V.schedule(p['pre'], fine=p['fine'])
    report()
    for t in ts:
        t.join()
    V.schedule_off()
    V.sched.drain()
    whose = {}
    for i, (a, b) in enumerate(box.sent):
        whose[1 if (a.startswith('"+2') if text else spec.read_submit(smsbox.unhex(b))['da'] == '+2') else 0] = i
    for k in range(2):
        i = whose[k]
        if times[i] is None:
            V.check(out[k] is None and out['t%d' % k] >= T, 'without its report a sender waits until the end')
        else:
            V.check(out[k] is not None and out['t%d' % k] < T, 'each returns with its own report')
            V.check(out[k].reference == 20 + i and out[k].number == '+%d' % (k + 1), 'its own message')
            state(out[k], True, [0, 70][i])
    V.check(len(got) == 0, 'none is left over')
    mdm.fine()
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for t in (True, False):
        j.append(('single-%d' % t, 'single', {'text': t, 'time': 0, 'num': 3}))
        for n in (1, 4):
            j.append(('single-%d-%d' % (t, n), 'single', {'text': t, 'time': 0, 'num': n}))
        for n in range(1, (4 if q else 6)):
            j.append(('index-%d-%d' % (t, n), 'single', {'text': t, 'time': 0, 'num': 1, 'idx': n}))
        j.append(('time-%d' % t, 'single', {'text': t, 'time': 1, 'num': 1}))
        j.append(('time2-%d' % t, 'single', {'text': t, 'time': 2, 'num': 1}))
        j.append(('history-%d' % t, 'history', {'text': t, 'n': 3 if q else 5}))
        j.append(('burst-%d' % t, 'burst', {'text': t, 'n': 2 if q else 3}))
        for own in (None, 0, 1, T, T + 3):
            for foreign in (None, 0, 2):
                j.append(('wait-%d-%s-%s' % (t, own, foreign), 'wait', {'text': t, 'own': own, 'foreign': foreign, 'bad': False, 'swap': False, 'pre': None, 'fine': False}))
                if (own in (0, T) and foreign in (None, 0)) or not q:
                    pre = 1 if q or foreign is not None or own is None else 2
                    j.append(('waits-%d-%s-%s' % (t, own, foreign), 'wait', {'text': t, 'own': own, 'foreign': foreign, 'bad': False, 'swap': False, 'pre': pre, 'fine': False}))
        j.append(('wait-swap-%d' % t, 'wait', {'text': t, 'own': 0, 'foreign': 0, 'bad': False, 'swap': True, 'pre': None, 'fine': False}))
        j.append(('waits-swap-%d' % t, 'wait', {'text': t, 'own': 0, 'foreign': 0, 'bad': False, 'swap': True, 'pre': 0 if q else 1, 'fine': False}))
        j.append(('waits-early-%d' % t, 'wait', {'text': t, 'own': 0, 'foreign': None, 'bad': False, 'swap': False, 'pre': 1 if q else 2, 'fine': ('sentSms', '_smsStatusReportEvents')}))
        j.append(('wait-bad-%d' % t, 'wait', {'text': t, 'own': 1, 'foreign': 2, 'bad': True, 'swap': False, 'pre': None, 'fine': False}))
        for o in ((0, 1), (1, 0)):
            for times in ((1, 1), (1, None), (None, 1)):
                j.append(('two-%d-%d%d-%s%s' % ((t,) + o + times), 'two', {'text': t, 'order': o, 'times': times, 'pre': 1 if q else 2, 'fine': False, 'sends': False}))
        j.append(('two-sends-%d' % t, 'two', {'text': t, 'order': (1, 0), 'times': (1, 1), 'pre': 0 if q else 1, 'fine': False, 'sends': True}))
    return j
