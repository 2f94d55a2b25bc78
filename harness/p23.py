import vlib as V
from harness import mdm, calls
from gsmmodem.modem import Call
from gsmmodem.exceptions import (CommandError, CmeError, CmsError, TimeoutException, InvalidStateException, InterruptedException, PinRequiredError,
                                 IncorrectPinError, PukRequiredError, SmscNumberUnknownError)

TONES = '0123456789*#ABCD'
BOUNDS = {'quick': 'every string of 1..10, 17, 20 and 33 tones out of 0-9 * # A-D, for incoming and outgoing calls (every id 0..9) of each modem family; every error code 0..999 of both kinds, plain errors, and no answer; '
                   'every history of up to 6 call events with tones for any call, current or ended; every ordered pair of modem families connected in one process',
          'thorough': 'up to 20, and 33 and 40 tones; histories of 6 events'}
OUTSIDE = 'an empty tone string; error codes 14 and 515 (busy: the command is repeated, P18)'
EXPECT = ('out', 'in', 'interrupted', 'unchanged', 'timeout', 'dtmf', 'pair', 'end', 'hangup')
BUDGET = {'thorough': 2400}
history = calls.history


def answered_call(m, model, way, cid=1):
    if way == 'in':
        got = []
        m.incomingCallCallback = got.append
        mdm.notify(model, ['+CRING: VOICE', '+CLIP: "1",129'])
        got[0].answer()
        return got[0]
    c = mdm.dial(m, model, '1', cid)
    mdm.report(m, model, 'answered', cid)
    return c


def send(p):
    m, model = mdm.attach(p['family'])
    way = p['way']
    cid = V.choice('id', 10) if way == 'out' and p['family'] in ('huawei', 'wavecom') else 1
    c = answered_call(m, model, way, cid)
    V.check(c.answered, 'the call is answered')
    V.reach(way)
    tones = V.str('tones', p['n'], TONES)
    n = len(model.cmds)
    r = c.sendDtmfTone(tones)
    V.check(model.cmds[n:] == [calls.tones_line(p['family'], c.id, tones)], 'one command line with one tone command for each tone, in order')
    c.sendDtmfTone('5')
    V.check(model.cmds[n + 1:] == [calls.tones_line(p['family'], c.id, '5')], 'and again')
    if p['family'] != 'generic':
        mdm.fine()
    m.alive = False
    m.close()


def errors(p):
    m, model = mdm.attach('huawei')
    c = answered_call(m, model, 'out', 2)
    kind = p['kind']
    tones = V.str('tones', 2, TONES)
    code = V.int('code', 0, 999)
    V.assume(V.And(code != 14, code != 515))
    model.hook = lambda d: {'cme': ['+CME ERROR: ' + str(code)], 'cms': ['+CMS ERROR: ' + str(code)], 'error': ['ERROR'], 'silent': [],
                            'notsup': ['COMMAND NOT SUPPORT']}[kind] if 'DTMF' in d else None
    n = len(model.log)
    exc = None
    t0 = V.sched.now
    try:
        c.sendDtmfTone(tones)
    except Exception as e:
        exc = e
    V.check(exc is not None, 'an error surfaces')
    if kind == 'cme' and (code == 30 or code == 3):
        V.reach('interrupted')
        V.check(isinstance(exc, InterruptedException), 'as an interruption')
        V.check(isinstance(exc.cause, CmeError) and exc.cause.code == code, 'with its cause')
    elif kind == 'silent':
        V.reach('timeout')
        V.check(type(exc) is TimeoutException, 'unchanged')
        V.check(V.sched.now - t0 >= 5, 'after the time out')
    else:
        V.reach('unchanged')
        V.check(not isinstance(exc, InvalidStateException), 'other errors surface unchanged')
        if kind == 'cme':
            V.check(isinstance(exc, CmeError) and exc.code == code, 'as the error reported')
            V.check(isinstance(exc, PinRequiredError) == (code == 11), 'as the error reported')
        elif kind == 'cms':
            V.check(isinstance(exc, CmsError) and exc.code == code, 'as the error reported')
        else:
            V.check(isinstance(exc, CommandError) and not isinstance(exc, (CmeError, CmsError)), 'as the error reported')
    V.check(len(model.log) == n + 1, 'the command is sent once')
    V.check(c.active and c.answered and m.activeCalls.get(2) is c, 'the call is as before')
    mdm.fine()
    m.close()


def pair(p):
    """two modems in one process"""
    ms = []
    for f in p['families']:
        ms.append((f,) + mdm.attach(f))
    cs = [answered_call(m, model, p['way'], 1) for f, m, model in ms]
    V.reach('pair')
    tones = V.str('tones', 2, TONES)
    for i in p['order']:
        f, m, model = ms[i]
        n = [len(x[2].cmds) for x in ms]
        cs[i].sendDtmfTone(tones)
        V.check(model.cmds[n[i]:] == [calls.tones_line(f, cs[i].id, tones)], 'the tones have the syntax of the modem of the call')
        for k in range(len(ms)):
            if k != i:
                V.check([x for x in ms[k][2].cmds[n[k]:] if x != 'AT+CLCC'] == [], 'another modem is sent nothing')
    for f, m, model in ms:
        m.alive = False
        m.close()


OPS = ['ring0', 'dial', 'answer', 'hangup', 'end', 'r-answer', 'dtmf']


def jobs(tier):
    q = tier == 'quick'
    j = []
    fam = mdm.FAMILIES + ('huawei2', 'vts', 'windvts', 'ztevts')
    for f in fam[:5]:
        for n in list(range(1, (10 if q else 20) + 1)) + ([17, 20, 33] if q else [33, 40]):
            for w in ('out', 'in'):
                if f in ('huaweiman', 'zte', 'generic') and n > 2 or n > 10 and w == 'out' and q:
                    continue
                j.append(('send-%s-%d-%s' % (f, n, w), 'send', {'family': f, 'n': n, 'way': w}))
    for f in fam[5:]:
        j.append(('send-%s' % f, 'send', {'family': f, 'n': 2, 'way': 'in'}))
    for k in ('cme', 'cms', 'error', 'silent', 'notsup'):
        j.append(('errors-' + k, 'errors', {'kind': k}))
    n = 4 if q else 5
    for f in ('huawei', 'zte', 'wavecom'):
        for nm, pre in (('ring', [('ring0', None)]), ('dial', [('dial', None)]), ('answered', [('ring0', None), ('answer', 0)])):
            j.append(('history-%s-%s' % (f, nm), 'history', {'family': f, 'prefix': pre, 'n': n, 'ops': OPS}))
    for a in mdm.FAMILIES:
        for b in mdm.FAMILIES:
            for o in ((0, 1), (1, 0)):
                j.append(('pair-%s-%s-%d%d' % ((a, b) + o), 'pair', {'families': (a, b), 'way': 'in', 'order': o}))
    return j
