import time
import vlib as V
from harness import mdm, smsbox, spec
from harness.smsbox import Box

BOUNDS = {'quick': 'text mode: 1..3 lines of 0..4 printable characters, senders of 0..6 characters, every alphanumeric or absent name, every date and zone; PDU mode: texts of 0..3 characters of the default alphabet, '
                   'senders of 1..5 digits; every memory and index of 1..3 digits, every status; up to 3 notifications for two memories in the same or different bursts, any of them unreadable or failing to delete, '
                   'with another read by the user at the same time under one preemption at any access to the shared state',
          'thorough': 'texts of 6 characters, 4 lines, PDU texts of 6 characters; 2 preemptions'}
OUTSIDE = 'blank lines inside a text (the line reader drops them); contents of PDUs (P01, P02, P09); callbacks that raise'
EXPECT = ('text', 'pdu', 'switched', 'same', 'unreadable', 'kept', 'burst', 'apart', 'user', 'namecomma')
BUDGET = {'thorough': 2400}
LINE = [(0x20, 0x7E)]
FINAL = ('OK', 'ERROR')


def attach(text, got):
    m, model = mdm.attach('generic', textmode=text, smsReceivedCallbackFunc=got.append)
    return m, model, Box(model)


def verify(s, stat, number, text, ts):
    V.check(s.number == number, 'the sender')
    V.check(s.text == text, 'the text')
    V.check(s.status == stat, 'the status')
    smsbox.sametime(s.time, ts, 'the time')


def single(p):
    got = []
    m, model, box = attach(p['text'], got)
    mem = V.pick('mem', ['ME', 'SM', 'SR'] if not p.get('few') else ['SM'])
    idx = V.str('idx', p.get('digits', 1), '0123456789')
    if p.get('digits', 1) > 1:
        V.assume(idx[0] != '0')
    stat = V.pick('stat', [0, 1]) if not p.get('few') else 0
    ts = smsbox.when('t', p.get('time'))
    if p['text']:
        V.reach('text')
        lines = []
        for i, n in enumerate(p['lens']):
            l = V.str('l%d' % i, n, LINE)
            if p['final']:
                V.assume(l in FINAL)
            else:
                V.assume(l not in FINAL)
            lines.append(l)
        number = V.str('num', p['num'], [(0x20, 0x21), (0x23, 0x7E)])
        alpha = V.pick('alpha', ['', '"Bob"', '"Bob, Jr"', '""'] if not p.get('few') else ['', '"Bob, Jr"'])
        if alpha == '"Bob, Jr"':
            V.reach('namecomma')
        box.put(mem, 0, smsbox.text_entry(stat, number, ts, lines, alpha))
        want = '\n'.join(lines)
    else:
        V.reach('pdu')
        ds = [V.int('d%d' % i, 0, 9) for i in range(p['num'])]
        intl = V.bool('intl')
        want = V.str('text', p['lens'][0], spec.BASICCHARS)
        number = ('+' if intl else '') + spec.digitstr(ds)
        box.put(mem, 0, smsbox.pdu_entry(stat, smsbox.pdu_deliver(ds, intl, want, ts), V.pick('alpha', ['', '"Bob, Jr"']) if not p.get('few') else ''))
    # the entry answers to whatever index was announced
    e = box.mem[mem][0]
    box.mem[mem] = {}
    box.find = lambda i: e if box.cur == mem and i == idx and not [o for o in box.ops if o[0] == 'delete'] else None
    V.reach('same' if mem == 'ME' else 'switched')
    blank = V.pick('blank', [' ', '']) if p.get('digits') else ' '
    mdm.notify(model, ['+CMTI:' + blank + '"' + mem + '",' + idx])
    if p.get('final'):
        V.reach('final')
        V.check(len(got) == 1 and got[0].text == want, 'the text', known=('P26-final-result-line', True))
        m.close()
        return
    V.check(len(got) == 1, 'the callback is run once')
    verify(got[0], stat, number, want, ts)
    V.check(box.ops == [('read', mem, idx), ('delete', mem, idx)], 'the message is read from and deleted in the indicated memory and index')
    # and again for the next one
    mdm.notify(model, ['+CMTI: "' + mem + '",' + idx])
    V.check(len(got) == 1, 'a message that is gone is not delivered again')
    mdm.fine()
    m.close()


DATE = '21/03/14,15:16:17+08'


def plain(stat, k, text):
    """an easily told message"""
    ts = smsbox.Msg()
    ts.f, ts.q = [21, 3, 14, 15, 16, k], 8
    if text:
        return smsbox.text_entry(stat, '+1%d' % k, ts, ['m%d' % k])
    return smsbox.pdu_entry(stat, smsbox.pdu_deliver([1, k], True, 'm%d' % k, ts))


def several(p):
    """several arrivals, in one burst or in bursts of their own"""
    got = []
    text = p['text']
    m, model, box = attach(text, got)
    places = []
    want = []
    bad = []
    lines = []
    for k in range(p['n']):
        mem = V.pick('mem%d' % k, ['ME', 'SM']) if not p['pre'] else ['SM', 'ME'][k]
        how = V.pick('how%d' % k, ['good', 'bad', 'nodelete', 'missing', 'report'][:p['hows']])
        e = plain(0, k, text)
        if how == 'bad':
            e.body = ['0G'] if not text else ['x']
            if text:
                e.rd = '"REC UNREAD","+1",,'
        if how != 'missing':
            box.put(mem, 4 + k, e)
        if how in ('good', 'nodelete'):
            want.append((k, mem, how))
        else:
            V.reach('unreadable')
        places.append((mem, 4 + k, how))
        lines.append('+CMTI: "%s",%d' % (mem, 4 + k))
    old = box.dev

    def dev(d):
        r = old(d)
        if d.startswith('AT+CMGD='):
            for mem, i, how in places:
                if how == 'nodelete' and box.cur == mem and d == 'AT+CMGD=%d,0\r' % i:
                    return ['+CMS ERROR: 500']
        return r
    model.hook = dev
    other = p['user']
    if other:
        box.put('SR', 9, plain(1, 9, text))
        box.put('ME', 9, plain(1, 8, text))
    if p['pre']:
        V.schedule(p['pre'], fine=('_smsMemReadDelete',))
    if p['burst']:
        V.reach('burst')
        bursts = [''.join(['\r\n' + l + '\r\n' for l in lines])]
    else:
        V.reach('apart')
        bursts = ['\r\n' + l + '\r\n' for l in lines]
    if p['pre']:
        # all of them arrive while the modem is in use, so that their handlers start together
        S = V.sched
        with m._txLock:
            for b in bursts:
                n = len(S.tasks)
                model.port.feed(b)
                S.block(lambda: len(S.tasks) > n and not model.port.rx)
    else:
        for b in bursts:
            model.port.feed(b)
            V.sched.drain()
    if other:
        V.reach('user')
        s = m.readStoredSms(9, memory='SR')
        V.check(s.text == 'm9', 'a message read at the same time is the requested one')
    V.sched.drain()
    if p['pre']:
        V.schedule_off()
    texts = [s.text for s in got]
    V.check(sorted(texts) == ['m%d' % k for k, mem, how in want], 'each message is delivered exactly once')
    if p['burst']:
        V.check(texts == ['m%d' % k for k, mem, how in want], 'in order')
    for s in got:
        V.check(s.number == '+1' + s.text[1:], 'with its sender')
    for k, (mem, i, how) in enumerate(places):
        r = [o for o in box.ops if o[0] == 'read' and o[2] == str(i)]
        V.check(r == [('read', mem, str(i))], 'each message is read once, from the indicated memory')
        d = [o for o in box.ops if o[0] == 'delete' and o[2] == str(i)]
        if how in ('good', 'nodelete'):
            V.check(d == [('delete', mem, str(i))], 'and deleted there')
        else:
            V.reach('kept')
            V.check(len([o for o in d if o[1] != mem]) == 0, 'nothing else is deleted')
    V.check(len([o for o in box.ops if o[0] not in ('read', 'delete')]) == 0, 'nothing else is deleted')
    mdm.fine()
    m.close()


def during(p):
    """an arrival that is reported while a command awaits its response"""
    got = []
    m, model, box = attach(p['text'], got)
    box.put('SM', 4, plain(0, 0, p['text']))
    old = box.dev

    def dev(d):
        if d == 'AT+CSQ\r':
            return ['+CMTI: "SM",4', '+CSQ: 5,0', 'OK']
        return old(d)
    model.hook = dev
    r = m.write('AT+CSQ')
    V.check(r[-1] == 'OK', 'the response of the command')
    V.sched.drain()
    V.reach('during')
    V.check(len(got) == 1, 'the message is delivered', known=('P26-arrival-during-command', True))
    mdm.fine()
    m.close()


def manual(p):
    """reading and deleting by hand, in the memory given or the current one"""
    got = []
    text = p['text']
    m, model, box = attach(text, got)
    for mem, k in (('ME', 0), ('SM', 1), ('SR', 2)):
        box.put(mem, 5, plain(k % 2, k, text))
        box.put(mem, 6, plain(0, 3 + k, text))
    cur = 'ME'
    names = ['ME', 'SM', 'SR']
    for j in range(p['n']):
        mem = V.pick('mem%d' % j, [None, 'SM'] if j else [None, 'ME', 'SM', 'SR'])
        op = V.pick('op%d' % j, ['read', 'delete', 'multi', 'arrival'])
        n = len(box.ops)
        if op == 'arrival':
            mem = mem or 'SM'
            if 6 not in box.mem[mem]:
                continue
            k = len(got)
            mdm.notify(model, ['+CMTI: "%s",6' % mem])
            cur = mem
            V.check(len(got) == k + 1 and got[k].text == 'm%d' % (3 + names.index(mem)), 'the message that arrived')
            V.check(box.ops[n:] == [('read', mem, '6'), ('delete', mem, '6')], 'read and deleted where it arrived')
            continue
        cur = mem or cur
        if op == 'read':
            if 5 in box.mem[cur]:
                s = m.readStoredSms(5, mem) if mem else m.readStoredSms(5)
                V.check(s.text == 'm%d' % names.index(cur), 'the message at the index of the memory')
                V.check(box.ops[n:] == [('read', cur, '5')], 'one read')
        elif op == 'delete':
            m.deleteStoredSms(5, mem)
            V.check(box.ops[n:] == [('delete', cur, '5')], 'one deletion, in the memory')
        else:
            f = V.pick('f%d' % j, [0, 1, 2, 3, 4, 5] if not j else [2, 5])
            bad = False
            try:
                m.deleteMultipleStoredSms(f, mem)
            except ValueError:
                bad = True
                if mem:
                    cur = box.cur
            V.check(bad == (f in (0, 5)), 'the kind of deletion is 1..4')
            V.check(box.ops[n:] == ([] if bad else [('delall', cur, str(f))]), 'one deletion, in the memory')
    mdm.fine()
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    shapes = [(0,), (1,), (4,), (2, 3), (1, 2, 1)] + ([] if q else [(6,), (4, 4), (1, 1, 1, 1)])
    for s in shapes:
        for num in (0, 3) if s != (4,) else (6,):
            j.append(('text-%s-%d' % ('.'.join(map(str, s)), num), 'single', {'text': True, 'lens': s, 'num': num, 'final': False, 'few': sum(s) > 1}))
    j.append(('text-time', 'single', {'text': True, 'lens': (1,), 'num': 1, 'final': False, 'time': True, 'few': True}))
    j.append(('text-final', 'single', {'text': True, 'lens': (2,), 'num': 1, 'final': True}))
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5, 6):
        for num in (1, 4, 5):
            j.append(('pdu-%d-%d' % (n, num), 'single', {'text': False, 'lens': (n,), 'num': num, 'final': False, 'few': n > 1 or num > 1}))
    j.append(('pdu-time', 'single', {'text': False, 'lens': (1,), 'num': 2, 'final': False, 'time': True, 'few': True}))
    for d in (2, 3):
        for t in (True, False):
            j.append(('index-%d-%d' % (d, t), 'single', {'text': t, 'lens': (1,), 'num': 1, 'final': False, 'digits': d, 'few': True}))
    for t in (True, False):
        for b in (True, False):
            for n in (2, 3):
                j.append(('several-%d-%d-%d' % (t, b, n), 'several', {'text': t, 'burst': b, 'n': n, 'hows': 4, 'pre': 0, 'user': False}))
            j.append(('race-%d-%d' % (t, b), 'several', {'text': t, 'burst': b, 'n': 2, 'hows': 1, 'pre': 1 if q else 2, 'user': False}))
        j.append(('user-%d' % t, 'several', {'text': t, 'burst': True, 'n': 1, 'hows': 1, 'pre': 1 if q else 2, 'user': True}))
        j.append(('during-%d' % t, 'during', {'text': t}))
        j.append(('manual-%d' % t, 'manual', {'text': t, 'n': 3 if q else 4}))
    return j
