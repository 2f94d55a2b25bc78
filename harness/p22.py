import time
import vlib as V
from harness import mdm, calls
from gsmmodem.exceptions import CommandError

BOUNDS = {'quick': 'per modem family: every history of 5 events (ring of two numbers, dial, answer, hang-up, reported answer, rejection and end), each answer and hang-up on any call so far, current or ended; '
                   'refused answer and hang-up commands before and after each other; hang-up against the end report of the same or another call under 2 preemptions between any two statements',
          'thorough': 'histories of 6 events; 3 preemptions'}
OUTSIDE = 'the same call answered or hung up by several threads at once'
ASSUMPTIONS = ['with several calls, the modem ends the call the user means (ATH has no call id)']
EXPECT = ('answer', 'hangup', 'end', 'dial', 'ring0', 'ring1', 'r-answer', 'refused', 'raced', 'reject')
BUDGET = {'thorough': 2400}
history = calls.history


def refused(p):
    """the modem refuses some answer and hang-up commands"""
    s = calls.Sim('huawei', ['71', '72'])
    s.step('ring0', None)
    s.step('dial' if p['other'] == 'out' else 'ring1', None)
    c, o = s.recs[0], s.recs[1]
    for k in range(p['n']):
        op = V.pick('op%d' % k, ['answer', 'hangup'])
        ok = V.bool('ok%d' % k)
        err = V.pick('err%d' % k, ['ERROR', '+CME ERROR: 3']) if not ok else None
        cmd = 'ATA' if op == 'answer' else 'ATH'
        s.model.t[cmd] = ['OK'] if ok else [err]
        n = len(s.model.cmds)
        due = (c.ringing if op == 'answer' else c.active)
        raised = False
        try:
            (c.obj.answer if op == 'answer' else c.obj.hangup)()
        except CommandError:
            raised = True
        sent = s.model.cmds[n:]
        V.check(sent == ([cmd] if due else []), 'the command is sent exactly while it applies')
        V.check(raised == (due and not ok), 'a refusal surfaces as the error')
        if raised:
            V.reach('refused')
            V.check(c.obj.active and s.m.activeCalls.get(c.id) is c.obj, 'a call that was not hung up is still listed')
            V.check(bool(c.obj.answered) == c.answered, 'and as answered as before')
            if op == 'answer':
                V.check(c.obj.ringing, 'a call that was not answered still rings')
            else:
                c.ringing = bool(c.obj.ringing)      # not specified after a refused hang-up
        elif due and op == 'answer':
            c.ringing, c.answered = False, True
        elif due:
            s.ended(c)
        s.consistent()
    V.check(o.obj.active and s.m.activeCalls.get(o.id) is o.obj, 'another call is not affected')
    s.m.close()


def race(p):
    """the modem reports an end while the hang-up is under way"""
    m, model = mdm.attach('huawei')
    ups = []
    a = mdm.dial(m, model, '1', 1, lambda c: ups.append((c.answered, c.active)))
    mdm.report(m, model, 'answered', 1)
    b = mdm.dial(m, model, '2', 2)
    mdm.report(m, model, 'answered', 2)
    del model.cmds[:]
    x = p['ends']
    model.t['ATH'] = ['OK'] + ['^CEND:%d,1,2,3' % k for k in x]
    V.schedule(p['pre'], fine=('active', 'answered', 'activeCalls'))
    a.hangup()
    V.sched.drain()
    V.schedule_off()
    V.reach('raced')
    V.check(model.cmds == ['ATH'], 'the hang-up command is sent once')
    V.check(not a.active and not a.answered, 'the call is neither answered nor active')
    V.check(1 not in m.activeCalls, 'and unlisted')
    bend = 2 in x
    V.check(b.active == (not bend) and b.answered == (not bend) and (2 in m.activeCalls) == (not bend), 'another call is not affected')
    a.hangup()
    V.check(model.cmds == ['ATH'], 'hanging up an ended call sends nothing')
    V.check(len(ups) >= 2 and ups[-1][0] is False, 'the callback has seen the end')
    mdm.fine()
    m.close()


OPS = ['ring0', 'ring1', 'dial', 'answer', 'hangup', 'end', 'r-answer', 'reject']


def jobs(tier):
    q = tier == 'quick'
    j = []
    n = 3 if q else 4
    for f in ('huawei', 'wavecom', 'zte'):
        for nm, pre in (('rings', [('ring0', None), ('ring1', None)]), ('ring', [('ring0', None)]), ('dial', [('dial', None)]), ('both', [('dial', None), ('ring0', None)]), ('answered', [('ring0', None), ('answer', 0)]),
                        ('ended', [('ring0', None), ('end', 0)])):
            j.append(('history-%s-%s' % (f, nm), 'history', {'family': f, 'prefix': pre, 'n': n + (f == 'huawei' and len(pre) < 2), 'ops': OPS}))
    for o in ('in', 'out'):
        j.append(('refused-' + o, 'refused', {'other': o, 'n': 3 if q else 5}))
    for e in ((), (1,), (2,), (1, 2), (2, 1)):
        j.append(('race-' + ''.join(map(str, e)), 'race', {'ends': e, 'pre': 2 if q else 3}))
    return j
