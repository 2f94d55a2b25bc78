import time
import vlib as V
from harness import mdm
from gsmmodem.exceptions import CommandError, TimeoutException, InvalidStateException

BOUNDS = {'quick': 'every reply text of 1..5 printable characters or line feeds (quotes included when it is one line), of 1..4 lines, or none, with or without its coding scheme, in every session state 0..5; before the OK, after it or '
                   '2 s later; other notifications before and after it; an extra release before or after it in the same burst, with or without text; every history of 4 requests, replies and cancellations on any response so far with any answer; a release in a '
                   'burst of its own right after the reply, under one preemption between any two statements',
          'thorough': 'texts of up to 9 characters; histories of 5; 2 preemptions'}
OUTSIDE = 'blank lines inside a text (the line reader drops them); lines of one reply that arrive after a pause; a late reply to a request that has timed out; text lines that look like the end of the reply or a final result'
EXPECT = ('text', 'notext', 'lines', 'release', 'before', 'after', 'later', 'refused', 'cancel', 'cancel-closed', 'reply', 'timeout', 'error', 'closed-later')
BUDGET = {'thorough': 2400}
ONE = [(0x20, 0x7E), (0x0A, 0x0A)]
LINE = [(0x20, 0x21), (0x23, 0x7E)]


def reply_lines(status, text, dcs):
    """the lines of a +CUSD report"""
    l = '+CUSD: %d' % status
    if text is None:
        return [l]
    lines = text if isinstance(text, list) else [text]
    out = list(lines)
    out[0] = l + ',"' + out[0]
    out[-1] = out[-1] + '"' + dcs
    return out


def usable(line, before):
    """a text line that is neither a final result nor a report of its own"""
    V.assume(line != 'OK')
    V.assume('ERROR' not in line)
    V.assume(not line.startswith('+C'))


def request(p):
    m, model = mdm.attach('huawei')
    status = V.pick('status', [0, 1, 2, 3, 4, 5])
    where = p['where']
    if p['lens'] is None:
        V.reach('notext')
        text, want = None, None
    elif len(p['lens']) == 1:
        V.reach('text')
        text = want = V.str('text', p['lens'][0], ONE)
        V.assume(not text.startswith('\n'))
    else:
        V.reach('lines')
        text = [V.str('t%d' % i, n, LINE) for i, n in enumerate(p['lens'])]
        for t in text:
            usable(t, where == 'before')
        want = '\r\n'.join(text)
    dcs = V.pick('dcs', [',15', ''] if p['lens'] and p['lens'][0] > 3 else [',15', ',0', ',255', '']) if p['dcs'] else ',15'
    lines = reply_lines(status, text, dcs)
    rel = p['release']
    if rel:
        V.reach('release')
        if want is not None and status == 2:
            status = 0
            lines = reply_lines(0, text, dcs)
        r = '+CUSD: 2' + V.pick('rtext', ['', ',"bye",15', ',"",0'])
        lines = [r] + lines if rel == 'first' else lines + [r]
    extra = V.pick('extra', [[], ['^RSSI:9']]) if where != 'before' and not rel else []
    V.reach(where)
    pre = V.pick('pre', [[], ['+CREG: 1'], ['^RSSI:9', '+CREG: 1']]) if p.get('pre') else []
    body = ''.join([x + '\r\n' for x in pre + lines + extra])

    def later():
        time.sleep(2)
        model.port.feed(body)

    def dev(d):
        if d.startswith('AT+CUSD='):
            model.cmds.append(d[:-1])
            if where == 'before':
                return body + 'OK\r\n'
            if where == 'after':
                return 'OK\r\n' + body
            import threading
            threading.Thread(target=later).start()
            return 'OK\r\n'
    model.hook = dev
    u = m.sendUssd('*1#')
    V.check(model.cmds == ['AT+CUSD=1,"*1#",15'], 'the request is sent once')
    if want is None:
        V.check(u.message is None, 'a reply without text has none')
    else:
        V.check(u.message == want, 'the text of the reply')
    V.check(u.sessionActive == (status == 1 and not rel), 'whether the session remains open')
    V.sched.drain()
    mdm.fine()
    m.close()


def failing(p):
    """no reply, or a refusal; then one that works"""
    m, model = mdm.attach('huawei')
    how = V.pick('how', ['silent', 'ok', 'ERROR', '+CME ERROR: 100'])
    tmo = V.pick('tmo', [1, 15])
    model.hook = lambda d: ([] if how == 'silent' else ['OK'] if how == 'ok' else [how]) if d.startswith('AT+CUSD') else None
    t0 = V.sched.now
    try:
        m.sendUssd('*1#', responseTimeout=tmo)
        V.check(False, 'without a reply there is none')
    except TimeoutException:
        V.reach('timeout')
        V.check(how in ('silent', 'ok'), 'without a reply it times out')
        V.check(tmo <= V.sched.now - t0 <= 2 * tmo, 'when the time is up')
    except CommandError:
        V.reach('error')
        V.check(how not in ('silent', 'ok'), 'a refusal surfaces')
    if V.bool('push'):
        mdm.notify(model, ['+CUSD: 1,"push",15'])
    model.hook = lambda d: ['OK', '+CUSD: 1,"fine",15'] if d.startswith('AT+CUSD') else None
    u = m.sendUssd('*2#')
    V.check(u.message == 'fine' and u.sessionActive, 'the next request has its own reply')
    V.sched.drain()
    mdm.fine()
    m.close()


def history(p):
    """requests, replies and cancellations"""
    m, model = mdm.attach('huawei')
    state = {}

    def dev(d):
        if d.startswith('AT+CUSD=1'):
            model.cmds.append(d[:-1])
            return ['OK', '+CUSD: %d,"%s",15' % (state['st'], state['tx'])]
        return None
    model.hook = dev
    objs = []        # [object, open]

    def close():
        for o in objs:
            o[1] = False

    for k in range(p['n']):
        ops = ['request', 'push'] + [(w, i) for i in range(len(objs)) for w in ('reply', 'cancel')]
        op = V.pick('op%d' % k, ops) if k else 'request'
        n = len(model.cmds)
        if op == 'request' or op[0] == 'reply':
            state['st'] = V.pick('st%d' % k, [0, 1, 2])
            state['tx'] = 'm%d' % k
            text = '*%d#' % k
            ok = True
            u = None
            try:
                u = m.sendUssd(text) if op == 'request' else objs[op[1]][0].reply(text)
            except InvalidStateException:
                ok = False
            if op != 'request':
                V.check(ok == objs[op[1]][1], 'replying is refused exactly once the session is closed')
                V.reach('reply' if ok else 'refused')
            else:
                V.check(ok, 'a request is never refused')
            V.check(model.cmds[n:] == (['AT+CUSD=1,"%s",15' % text] if ok else []), 'a request is sent once, a refused one never')
            if ok:
                V.check(u.message == 'm%d' % k and u.sessionActive == (state['st'] == 1), 'the reply is the answer to the request')
                if state['st'] != 1:
                    close()
                objs.append([u, state['st'] == 1])
        elif op == 'push':
            st = V.pick('st%d' % k, [0, 2])
            mdm.notify(model, ['+CUSD: %d' % st if st == 2 else '+CUSD: 0,"bye",15'])
            V.reach('closed-later')
            close()
            V.check(model.cmds[n:] == [], 'nothing is sent')
        else:
            objs[op[1]][0].cancel()
            V.check(model.cmds[n:] == (['AT+CUSD=2'] if objs[op[1]][1] else []), 'cancelling sends the cancel command only for an open session')
            V.reach('cancel' if objs[op[1]][1] else 'cancel-closed')
            if objs[op[1]][1]:
                close()
        for o in objs:
            V.check(bool(o[0].sessionActive) == o[1], 'whether the session is open')
    V.sched.drain()
    mdm.fine()
    m.close()


def race(p):
    """a release in a burst of its own"""
    m, model = mdm.attach('huawei')

    S = V.sched
    known = list(S.tasks)

    def later():
        # once the reply has been handled
        me = S.current
        S.block(lambda: len([t for t in S.tasks if t not in known and t is not me and t.state == 'done']) > 0)
        model.port.feed('+CUSD: 2\r\n' if p['form'] else '+CUSD: 2,"released",15\r\n')

    def dev(d):
        if d.startswith('AT+CUSD'):
            import threading
            threading.Thread(target=later).start()
            return ['OK', '+CUSD: %d,"text",15' % p['status']]
    model.hook = dev
    V.schedule(p['pre'], fine=('_ussdSessionEvent', '_ussdResponse'))
    u = m.sendUssd('*1#')
    V.sched.drain()
    V.schedule_off()
    V.check(u.message == 'text', 'the text of the reply')
    V.check(not u.sessionActive, 'the session is closed')
    mdm.fine()
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    N = 5 if q else 9
    shapes = [None] + [(n,) for n in range(1, N + 1)] + [(1, 1), (2, 3), (1, 2, 1), (2, 2, 2, 2)] + ([] if q else [(4, 4), (3, 3, 3), (1, 1, 1, 1, 1)])
    for where in ('before', 'after', 'later'):
        for s in shapes:
            nm = 'none' if s is None else '.'.join(map(str, s))
            j.append(('request-%s-%s' % (where, nm), 'request', {'where': where, 'lens': s, 'dcs': s is None or len(s) == 1, 'release': None}))
        for s in (None, (3,), (1, 2)):
            nm = 'none' if s is None else '.'.join(map(str, s))
            j.append(('pre-%s-%s' % (where, nm), 'request', {'where': where, 'lens': s, 'dcs': False, 'release': None, 'pre': True}))
        for rel in ('first', 'last'):
            for s in (None, (3,), (1, 2)):
                nm = 'none' if s is None else '.'.join(map(str, s))
                j.append(('release-%s-%s-%s' % (where, rel, nm), 'request', {'where': where, 'lens': s, 'dcs': False, 'release': rel}))
    j.append(('failing', 'failing', {}))
    j.append(('history', 'history', {'n': 4 if q else 5}))
    for st in (0, 1):
        for f in (0, 1):
            j.append(('race-%d-%d' % (st, f), 'race', {'status': st, 'form': f, 'pre': 1 if q else 2}))
    return j
