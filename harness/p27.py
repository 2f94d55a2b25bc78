import threading
import vlib as V
from harness import mdm, smsbox, spec
from harness.smsbox import Box
from gsmmodem.modem import StatusReport

BOUNDS = {'quick': 'text mode: 1..3 entries of 0..3 lines of 0..4 printable characters (first, middle or last arbitrary, next to complete, empty, undecodable and outgoing ones in every mix), senders of 0..3 characters, '
                   'names with commas, every date and zone; PDU mode: the same mixes with received messages of 0..3 arbitrary characters, status reports, outgoing messages, undecodable entries; '
                   'every status of every entry and of the request, every memory given or not, with and without deletion; indexes of 1..3 digits; histories of 3 listings, reads and deletions; '
                   'another user of another memory at the same time under 1 preemption',
          'thorough': '4 entries, lines of 6 characters, histories of 4, 2 preemptions'}
OUTSIDE = ('blank lines in a text and lines that look like the header of an entry (text mode does not tell them apart); outgoing messages may be listed or skipped, without effect on others; '
           'deletions refused by the modem')
EXPECT = ('text', 'pdu', 'empty', 'mixed', 'filtered', 'deleted', 'all', 'kept', 'report', 'outgoing', 'process', 'invalid', 'race', 'final', 'arrival')
BUDGET = {'thorough': 2400}
LINE = [(0x20, 0x7E)]


class Want(object):
    """what a listed entry is to be returned as"""
    def __init__(self, e, kind, number=None, text=None, ts=None):
        self.e, self.kind, self.number, self.text, self.ts = e, kind, number, text, ts


def tsof(k):
    ts = smsbox.Msg()
    ts.f, ts.q = [21, 3, 14, 15, 16, k], 8
    return ts


def sms(text, k, stat, lines=None, number=None, alpha='', ts=None, digits=None):
    ts = ts or tsof(k)
    if text:
        if lines is None:
            lines = ['m%d' % k]
        number = '+1%d' % k if number is None else number
        return Want(smsbox.text_entry(stat, number, ts, lines, alpha), 'sms', number, '\n'.join(lines), ts)
    t = 'm%d' % k if lines is None else lines
    ds = digits or [1, k]
    return Want(smsbox.pdu_entry(stat, smsbox.pdu_deliver(ds, True, t, ts), alpha), 'sms', '+' + spec.digitstr(ds), t, ts)


def entry(text, k, kind, stat=None):
    """an entry of a kind, with fixed contents"""
    if kind == 'read':
        return sms(text, k, 1)
    if kind == 'unread':
        return sms(text, k, 0)
    if kind == 'empty':
        V.reach('empty')
        return sms(text, k, 0, [] if text else '')
    if kind == 'out':
        V.reach('outgoing')
        if text:
            return Want(smsbox.text_entry(3, '+1', None, ['out']), 'out')
        return Want(smsbox.pdu_entry(3, smsbox.pdu_submit([1, 2], True, 'out')), 'out')
    if kind == 'unsent':
        if text:
            e = smsbox.text_entry(2, '+1', None, ['out'])
            e.ls = '"STO UNSENT","+1",'
            return Want(e, 'out')
        return Want(smsbox.pdu_entry(2, smsbox.pdu_submit([1], True, '')), 'out')
    if kind == 'report':
        V.reach('report')
        ts = tsof(k)
        return Want(smsbox.pdu_entry(1, smsbox.pdu_report(k, [1, k], True, ts, tsof(9), 0)), 'report', '+1%d' % k, None, ts)
    if kind == 'bad':
        if text:
            e = smsbox.text_entry(1, '+1', tsof(k), ['bad'])
            e.ls = '"REC READ","+1",,"99/99/99,99:99:99+99"'
        else:
            e = smsbox.pdu_entry(1, smsbox.pdu_deliver([1], True, 'bad', tsof(k)))
            e.body = [e.body[0][:20]]
        return Want(e, 'bad')
    if kind == 'bad2':
        if text:
            e = smsbox.text_entry(0, '+1', tsof(k), ['bad', 'x'])
            e.ls = '"REC UNREAD","+1"'
        else:
            e = smsbox.pdu_entry(0, smsbox.pdu_deliver([1], True, 'bad', tsof(k)))
            e.body = ['0GX']
        return Want(e, 'bad')


TEXTKINDS = ['unread', 'read', 'empty', 'out', 'bad', 'bad2', 'unsent']
PDUKINDS = ['unread', 'read', 'report', 'out', 'bad', 'bad2', 'empty', 'unsent']


def matches(st, w):
    return st == 4 or w.e.stat == st


def verify(got, ws):
    """got are the messages of ws, in order; outgoing ones may be skipped"""
    sure = [w for w in ws if w.kind in ('sms', 'report')]
    full = [w for w in ws if w.kind != 'bad']
    V.check(len(got) == len(sure) or len(got) == len(full), 'every message is returned once, an undecodable entry is skipped')
    exp = sure if len(got) == len(sure) else full
    for g, w in zip(got, exp):
        if w.kind == 'out':
            continue
        V.check(g.status == w.e.stat, 'its status')
        V.check(g.number == w.number, 'its sender')
        if w.kind == 'report':
            V.check(isinstance(g, StatusReport), 'a report')
            smsbox.sametime(g.timeSent, w.ts, 'its time')
        else:
            V.check(g.text == w.text, 'its text')
            smsbox.sametime(g.time, w.ts, 'its time')
    return exp


def setup(p, **kw):
    m, model = mdm.attach('generic', textmode=p['text'], **kw)
    box = Box(model, p.get('sep', ' '))
    V.reach('text' if p['text'] else 'pdu')
    return m, model, box


def fill(box, ws, mem):
    for i, w in enumerate(ws):
        box.put(mem, 3 + 2 * i, w.e)
    for o in box.mem:
        if o != mem:
            box.put(o, 3, entry(box.textmode, 8, 'read').e)
            box.put(o, 5, entry(box.textmode, 7, 'unread').e)


def contents(box):
    return dict([(k, list(box.mem[k].items())) for k in box.mem])


def listing(p):
    """list once, with any status, and look at what is left"""
    text = p['text']
    m, model, box = setup(p)
    box.textmode = text
    ws = build(p)
    mem = V.pick('mem', [None, 'SM', 'ME']) if p['mems'] else 'SM'
    where = mem or 'ME'
    fill(box, ws, where)
    st = V.pick('status', [0, 1, 2, 3, 4]) if p['stats'] else 4
    delete = V.bool('delete') if p['delete'] is None else p['delete']
    before = contents(box)
    n = len(box.ops)
    if mem is None:
        got = m.listStoredSms(st, delete=delete)
    elif st == 4:
        got = m.listStoredSms(memory=mem, delete=delete)
    else:
        got = m.listStoredSms(status=st, memory=mem, delete=delete)
    listed = [w for w in ws if matches(st, w)]
    V.reach('all' if len(listed) == len(ws) else 'filtered')
    if len(set([w.kind for w in ws])) > 1:
        V.reach('mixed')
    exp = verify(got, listed)
    V.check([o for o in box.ops[n:] if o[0] == 'list'] == [('list', where, st)], 'the memory is listed once')
    after = contents(box)
    gone = [w.e for w in exp] if delete else []
    for o in before:
        keep = [x for x in before[o] if not (o == where and [g for g in gone if g is x[1]])]
        V.check(len(after[o]) == len(keep) and [x[0] for x in after[o]] == [x[0] for x in keep], 'exactly the returned messages are deleted, and only if requested')
    V.reach('deleted' if gone else 'kept')
    mdm.fine()
    m.close()


def build(p):
    text = p['text']
    kinds = p['kinds']
    ws = []
    for k, kind in enumerate(kinds):
        if kind == '?':
            kind = V.pick('kind%d' % k, p['choices'])
        if kind == '*':
            stat = V.pick('stat', [0, 1])
            ts = smsbox.when('t', p.get('time'))
            if text:
                lines = [V.str('l%d' % i, n, LINE) for i, n in enumerate(p['lens'])]
                for l in lines:
                    V.assume(V.Not(V.Or(l == 'OK', l == 'ERROR')))
                w = sms(text, k, stat, lines, V.str('num', p['num'], [(0x20, 0x21), (0x23, 0x7E)]), p.get('alpha', ''), ts)
            else:
                w = sms(text, k, stat, V.str('text', p['lens'][0], spec.BASICCHARS), None, p.get('alpha', ''), ts, [V.int('d%d' % i, 0, 9) for i in range(p['num'])])
            if p.get('digits'):
                w.e.ix = V.str('ix', p['digits'], '123456789')
                V.assume(w.e.ix not in ('3', '5', '7', '9'))
        else:
            w = entry(text, k, kind)
        ws.append(w)
    return ws


def final(p):
    """a text line that is a final result"""
    text = True
    m, model, box = setup({'text': True})
    l = V.str('l', 2, LINE)
    V.assume(l == 'OK')
    a, b = sms(text, 1, 0, [l]), sms(text, 2, 0)
    box.put('ME', 3, a.e)
    box.put('ME', 5, b.e)
    V.reach('final')
    got = m.listStoredSms(delete=True)
    V.check(len(got) == 2 and got[0].text == l, 'each message is returned', known=('P27-final-result-line', True))
    m.close()


def arrival(p):
    """a message is stored between the listing and the deletion"""
    text = p['text']
    m, model, box = setup(p)
    st = V.pick('status', [0, 1, 4])
    for k in range(2):
        box.put('ME', 3 + k, sms(text, k, k).e)
    late = sms(text, 5, 0)
    box.onlist = lambda: box.put('ME', 9, late.e)
    V.reach('arrival')
    got = m.listStoredSms(st, delete=True)
    left = [e for e in box.mem['ME'].values() if e is late.e]
    V.check(len(left) == 1, 'only the returned messages are deleted', known=('P27-arrival-before-delete-all', st == 4))
    V.check(len(box.mem['ME']) == (1 if st == 4 else 2), 'the returned messages are deleted')
    m.close()


def process(p):
    """processing what is stored: every received message once, then it is gone"""
    text = p['text']
    got = []
    m, model, box = setup(p, smsReceivedCallbackFunc=got.append)
    box.textmode = text
    ws = build(p)
    fill(box, ws, 'ME')
    other = [contents(box)[o] for o in ('SM', 'SR')]
    V.reach('process')
    unread = V.bool('unread')
    if unread:
        m.processStoredSms(True)
    else:
        m.processStoredSms()
    a, b = [w for w in ws if w.e.stat == 1], [w for w in ws if w.e.stat == 0]
    exp = verify(got, b if unread else a + b)
    left = list(box.mem['ME'].values())
    for w in ws:
        here = len([e for e in left if e is w.e]) == 1
        V.check(here != (len([x for x in exp if x is w]) == 1), 'exactly those are deleted')
    V.check([contents(box)[o] for o in ('SM', 'SR')] == other, 'other memories are left alone')
    # and there is nothing left to process
    n = len(got)
    m.processStoredSms(unread)
    V.check(len(got) == n, 'nothing is delivered twice')
    mdm.fine()
    m.close()


def invalid(p):
    """a status that is none"""
    m, model, box = setup({'text': True})
    st = V.int('st', -3, 12)
    V.assume(V.Or(st < 0, st > 4))
    box.put('ME', 3, sms(True, 1, 0).e)
    V.reach('invalid')
    try:
        m.listStoredSms(st, delete=V.bool('delete'))
        V.check(False, 'the status is refused')
    except ValueError:
        pass
    V.check(len(box.ops) == 0 and len(box.mem['ME']) == 1, 'and nothing happens')
    m.close()


def history(p):
    """listings of different memories with reads in between"""
    text = p['text']
    m, model, box = setup(p)
    ws = {}
    for j, mem in enumerate(('ME', 'SM', 'SR')):
        for i in range(2):
            w = sms(text, 2 * j + i, i)
            w.mem, w.idx = mem, 3 + i
            ws[(mem, 3 + i)] = w
            box.put(mem, 3 + i, w.e)
    cur = 'ME'
    for k in range(p['n']):
        mem = V.pick('mem%d' % k, [None, 'SM', 'ME'] if k else [None, 'SM'])
        op = V.pick('op%d' % k, ['list', 'take', 'takeread', 'takeall', 'read', 'delete'] if k < 2 or not p['few'] else ['list', 'takeall'])
        cur = mem or cur
        if op == 'read':
            if (cur, 3) in ws:
                g = m.readStoredSms(3, memory=mem)
                V.check(g.text == ws[(cur, 3)].text, 'the message of that memory')
        elif op == 'delete':
            m.deleteStoredSms(4, memory=mem)
            ws.pop((cur, 4), None)
        else:
            st = {'list': 4, 'take': 0, 'takeread': 1, 'takeall': 4}[op]
            got = m.listStoredSms(st, mem, op != 'list')
            exp = [ws[key] for key in sorted(ws) if key[0] == cur and matches(st, ws[key])]
            verify(got, exp)
            if op != 'list':
                for w in exp:
                    del ws[(w.mem, w.idx)]
        for o in box.mem:
            V.check(sorted(box.mem[o]) == sorted([key[1] for key in ws if key[0] == o]), 'exactly the returned messages are deleted')
    mdm.fine()
    m.close()


def race(p):
    """another user reads or lists another memory at the same time"""
    text = p['text']
    m, model, box = setup(p)
    a, b = sms(text, 1, 0), sms(text, 2, 1)
    c, d = sms(text, 3, 0), sms(text, 4, 1)
    box.put('SM', 3, a.e)
    box.put('SM', 4, b.e)
    box.put('ME', 3, c.e)
    box.put('ME', 4, d.e)
    out = {}
    V.reach('race')
    what = p['what']

    def other():
        if what == 'read':
            out['o'] = [m.readStoredSms(3, 'ME')]
        elif what == 'delete':
            m.deleteStoredSms(3, 'ME')
        else:
            out['o'] = m.listStoredSms(0, 'ME', True)
    V.schedule(p['pre'], fine=p['fine'])
    t = threading.Thread(target=other)
    t.start()
    out['m'] = m.listStoredSms(4 if p['all'] else 1, 'SM', True)
    t.join()
    V.schedule_off()
    V.sched.drain()
    verify(out['m'], [a, b] if p['all'] else [b])
    if what != 'delete':
        verify(out['o'], [c])
    V.check(sorted(box.mem['SM']) == ([] if p['all'] else [3]), 'exactly the returned messages are deleted')
    V.check(sorted(box.mem['ME']) == ([3, 4] if what == 'read' else [4]), 'exactly the returned messages are deleted from their memory')
    mdm.fine()
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for text in (True, False):
        kinds = TEXTKINDS if text else PDUKINDS
        base = {'text': text, 'mems': False, 'stats': True, 'delete': None, 'choices': kinds, 'num': 2, 'lens': (2,)}
        for a in kinds:
            j.append(('mix-%d-%s' % (text, a), 'listing', dict(base, kinds=[a, '?', '?'] if not q else [a, '?'])))
        for a in kinds[:4]:
            j.append(('mix3-%d-%s' % (text, a), 'listing', dict(base, kinds=[a, '?', '?'], choices=kinds[:5] if q else kinds, stats=False, delete=True)))
        j.append(('none-%d' % text, 'listing', dict(base, kinds=[], mems=True)))
        j.append(('mems-%d' % text, 'listing', dict(base, kinds=['unread', 'read'], mems=True)))
        for lens in ([(0,), (1,), (4,), (2, 2), (1, 1, 1)] + ([] if q else [(6,), (4, 4)])) if text else [(0,), (1,), (2,), (3,)] + ([] if q else [(5,)]):
            for pos in range(3):
                if pos != 1 and sum(lens) > 2:
                    continue
                ks = ['unread', 'read']
                ks.insert(pos, '*')
                j.append(('any-%d-%s-%d' % (text, '.'.join(map(str, lens)), pos), 'listing', dict(base, kinds=ks, lens=lens, stats=False, delete=True if pos else None)))
        j.append(('beside-%d' % text, 'listing', dict(base, kinds=['?', '*', '?'], lens=(2,), stats=False, delete=True, choices=['bad', 'bad2', 'out', 'empty'])))
        for num in ((0, 1, 3) if text else (1, 4, 5)):
            j.append(('num-%d-%d' % (text, num), 'listing', dict(base, kinds=['*'], num=num, lens=(1,), delete=True)))
        for i, alpha in enumerate(['"Bob"', '"Bob, Jr"', '""']):
            j.append(('alpha-%d-%d' % (text, i), 'listing', dict(base, kinds=['*', 'read'], num=1, lens=(1,), stats=False, alpha=alpha)))
        j.append(('time-%d' % text, 'listing', dict(base, kinds=['*'], num=1, lens=(1,), stats=False, time=True)))
        for n in (1, 2, 3):
            j.append(('index-%d-%d' % (text, n), 'listing', dict(base, kinds=['*', 'read'], num=1, lens=(1,), stats=True, digits=n)))
        j.append(('sep-%d' % text, 'listing', dict(base, kinds=['*', 'read'], num=1, lens=(1,), stats=False, sep='')))
        j.append(('process-%d' % text, 'process', {'text': text, 'kinds': ['?', '?', '?'] if not q else ['?', '?', 'read'], 'choices': kinds}))
        j.append(('arrival-%d' % text, 'arrival', {'text': text}))
        j.append(('history-%d' % text, 'history', {'text': text, 'n': 3 if q else 4, 'few': q}))
        for what in ('read', 'delete', 'list'):
            for al in (True, False):
                j.append(('race-%d-%s-%d' % (text, what, al), 'race', {'text': text, 'what': what, 'all': al, 'pre': 1 if q else 2, 'fine': False}))
            j.append(('race-fine-%d-%s' % (text, what), 'race', {'text': text, 'what': what, 'all': False, 'pre': 1 if q else 2, 'fine': ('_smsMemReadDelete',)}))
    j.append(('final', 'final', {}))
    j.append(('invalid', 'invalid', {}))
    return j
