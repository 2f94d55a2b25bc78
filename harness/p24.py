import threading
import vlib as V
from harness import mdm, smsbox, spec
from harness.smsbox import Box
from gsmmodem.exceptions import TimeoutException, CommandError, CmeError, CmsError

BOUNDS = {'quick': 'text mode: every text of 0..8 characters other than the control characters that end it, destinations of 1..4 characters; PDU mode: every text of 0..6 characters of the default alphabet, 0..2 of UCS-2, '
                   'destinations of 1..5 digits, 2 and 3 parts with arbitrary characters at the seams; every reference of 0..255 over up to 3 messages; refusals of every kind (every CME/CMS code of 1..3 digits, '
                   'ERROR, silence, no reference, busy) at the prompt or at the data of any part; notifications before and after each part; two senders or a sender and another user under 2 preemptions (1 for a message in parts)',
          'thorough': 'texts of 12 characters, up to 5 parts and 4 messages; 3 preemptions'}
OUTSIDE = 'texts with Ctrl-Z, ESC or line ends in text mode (the modem takes them as the end or the abandonment of the message); the content of the TPDU beyond sender text and reference (P06-P08)'
EXPECT = ('text', 'pdu', 'ucs2', 'parts', 'refused-prompt', 'refused-data', 'busy', 'silent', 'noref', 'wrap', 'between', 'two', 'other', 'reply')
BUDGET = {'thorough': 2400}
PRINT = [(0x20, 0x7E)]


def attach(text, **kw):
    m, model = mdm.attach('generic', textmode=text, **kw)
    box = Box(model)
    box.onsend = lambda k, a, b: ['+CMGS: %d' % k, 'OK']
    return m, model, box


def cmgs(ref):
    """the answer to a message"""
    return ['+CMGS: ' + decimal(ref), 'OK']


def decimal(n):
    if n < 10:
        return chr(48 + n)
    if n < 100:
        return chr(48 + n // 10) + chr(48 + n % 10)
    return chr(48 + n // 100) + chr(48 + n // 10 % 10) + chr(48 + n % 10)


def whole(sent, dest, text, mr=None, flash=False):
    """the submitted PDUs carry the message: -> nothing, checks"""
    got = ''
    refs = []
    for i, (a, b) in enumerate(sent):
        o = smsbox.unhex(b)
        r = spec.read_submit(o)
        V.check(int(a) == r['tpdulen'], 'the announced length is that of the TPDU')
        V.check(r['mti'] == 1, 'an SMS-SUBMIT')
        V.check(r['da'] == dest, 'to the destination')
        if mr is not None and i == 0:
            V.check(r['mr'] == mr, 'with the following reference')
        V.check(V.eq((r['dcs'] & 0x13) == 0x10, flash), 'flash if requested')
        ies, t, ok = spec.read_text(r)
        V.check(ok, 'well formed')
        got += t
        if len(sent) > 1:
            c = [d for iei, d in ies if iei == 0]
            V.check(len(c) == 1, 'a part of a message')
            refs.append(c[0][0])
            V.check(c[0][1] == len(sent) and c[0][2] == i + 1, 'each part once, in order')
        else:
            V.check(len(ies) == 0, 'a message of its own')
    V.check(got == text, 'the text')
    for x in refs:
        V.check(x == refs[0], 'parts of the same message')


def destination(n):
    intl = V.bool('intl')
    ds = [V.int('d%d' % i, 0, 9) for i in range(n)]
    return ('+' if intl else '') + spec.digitstr(ds)


def once(p):
    """one message that is accepted"""
    m, model, box = attach(p['mode'] == 'text')
    ref = V.int('ref', 0, 255)
    flash = False
    if p['mode'] == 'text':
        V.reach('text')
        dest = V.str('dest', p['num'], [(0x2A, 0x2B), (0x23, 0x23), (0x30, 0x39)])
        text = V.str('text', p['n'], PRINT)
    else:
        V.reach('pdu')
        dest = destination(p['num'])
        flash = V.bool('flash')
        if p['mode'] == 'ucs2':
            V.reach('ucs2')
            text = V.str('text', p['n'], [(0x400, 0x4FF)])
        else:
            text = V.str('text', p['n'], spec.BASICCHARS)
    extra = V.pick('extra', [[], ['+CREG: 1'], ['x']])
    box.onsend = lambda k, a, b: extra + cmgs(ref)
    before = len(model.log)
    s = m.sendSms(dest, text, sendFlash=flash)
    V.check(len(box.sent) == 1, 'submitted once')
    V.check(len(model.log) == before + 2, 'and nothing else is written')
    if p['mode'] == 'text':
        V.check(box.sent[0][0] == '"' + dest + '"', 'the destination is announced')
        V.check(box.sent[0][1] == text, 'exactly the text')
    else:
        whole(box.sent, dest, text, 0, flash)
    result(s, dest, text, ref)
    V.check(m.sentSms[ref] is s, 'a report is matched with it')
    V.check(s.report is None and s.status == s.ENROUTE, 'not reported on yet')
    mdm.fine()
    m.close()


def result(s, dest, text, ref):
    V.check(s.number == dest, 'the number')
    V.check(s.text == text, 'the text')
    V.check(s.reference == ref, 'the reference reported by the modem')


def long_text(parts, tag='c'):
    """a text of so many parts with arbitrary characters where they meet"""
    t = 'a' * 151
    for i in range(parts - 2):
        t += V.char('%s%d' % (tag, i), spec.BASICCHARS) + V.char('%sx%d' % (tag, i), spec.BASICCHARS) + 'b' * 150
    t += V.char(tag + 'l', spec.BASICCHARS) + V.char(tag + 'm', spec.BASICCHARS) + 'c' * 40
    return t


NOTE = [[], ['+CREG: 1'], ['+CMTI: "SM",4']]


def parts(p):
    """several parts; a notification may arrive between any"""
    n = p['n']
    got = []
    m, model, box = attach(False, smsReceivedCallbackFunc=got.append)
    ts = smsbox.when('t')
    V.reach('parts')
    text = long_text(n) if not p['note'] or p['full'] else 'a' * (n * 150)
    refs = [V.int('ref%d' % i, 0, 255) for i in range(n)]
    at = V.choice('at', n) if p['note'] else None
    note = V.pick('note', NOTE) if p['note'] else []

    def onsend(k, a, b):
        r = cmgs(refs[k])
        if k == at and note:
            V.reach('between')
            if len(note[0]) > 9:
                box.put('SM', 4, smsbox.pdu_entry(0, smsbox.pdu_deliver([1], False, 'hi', ts)))
            r = r + note
        return r
    box.onsend = onsend
    s = m.sendSms('+123', text)
    V.check(len(box.sent) == n, 'each part is submitted once')
    whole(box.sent, '+123', text, 0)
    result(s, '+123', text, refs[-1])
    V.sched.drain()
    V.check(len(got) == len([x for x in note if len(x) > 9]), 'what arrives in between is handled')
    V.check(len(box.sent) == n, 'each part is submitted once')
    mdm.fine()
    m.close()


KINDS = ['cms', 'cme', 'error', 'silent', 'noref', 'busy', 'notsup']


def refused(p):
    """part k is refused at the prompt or after the data; then the next message is sent as usual"""
    n, k, at, kind = p['n'], p['k'], p['at'], p['kind']
    text = p['text']
    m, model, box = attach(text)
    first = V.int('ref', 0, 255)
    box.onsend = lambda i, a, b: cmgs(first)
    old = m.sendSms('1', 'm')
    box.sent[:] = []
    model.log[:] = []
    code = None
    if kind in ('cms', 'cme'):
        code = V.int('code', 0, 999)
        if at == 'prompt':
            V.assume(V.Not(V.Or(code == 515, code == 14)))
        line = '+%s ERROR: %s' % ('CMS' if kind == 'cms' else 'CME', decimal(code))
    elif kind == 'error':
        line = 'ERROR'
    elif kind == 'notsup':
        line = 'COMMAND NOT SUPPORT'
    elif kind == 'busy':
        code = V.pick('code', [515, 14])
        line = '+CMS ERROR: %d' % code
    elif kind == 'noref':
        line = 'OK'
    elif kind == 'silent':
        line = None
    bad = [True]

    def onprompt(i, a):
        if i == k and at == 'prompt' and bad[0]:
            if kind == 'busy':
                bad[0] = False
            return line + '\r\n' if line else ''
        return '\r\n> '

    def onsend(i, a, b):
        if i == k and at == 'data':
            return [line] if line else []
        return cmgs(first + i & 255)
    box.onprompt = onprompt
    box.onsend = onsend
    msg = 'x' if n == 1 else long_text(n)
    t0 = V.sched.now
    exc = None
    try:
        s = m.sendSms('2', msg)
    except Exception as e:
        exc = e
    if kind == 'busy' and at == 'prompt':
        V.reach('busy')
        V.check(exc is None, 'busy at the prompt: repeated')
        V.check(len(box.sent) == n, 'each part is submitted once')
        V.check(len(model.log) == 2 * n + 1, 'and the refused announcement repeated')
        result(s, '2', msg, first + n - 1 & 255)
        m.close()
        return
    V.reach('refused-' + at)
    V.check(exc is not None, 'the refusal surfaces')
    if kind == 'silent':
        V.reach('silent')
        V.check(type(exc) is TimeoutException, 'as a time out')
        V.check(V.sched.now - t0 < 30, 'soon')
    else:
        V.check(isinstance(exc, CommandError), 'as an error of the command')
        V.check(isinstance(exc, CmsError) == (kind in ('cms', 'busy')) and isinstance(exc, CmeError) == (kind == 'cme'), 'of its kind')
        if code is not None:
            V.check(exc.code == code, 'with its code')
        if kind == 'noref':
            V.reach('noref')
    done = k if at == 'prompt' else k + 1
    V.check(len(box.sent) == done, 'nothing is submitted after a refusal')
    V.check(len(model.log) == 2 * k + (1 if at == 'prompt' else 2), 'nothing is written after a refusal')
    V.check(len(m.sentSms) == 1 and m.sentSms[first] is old, 'the message before it is as it was')
    # and the next one
    box.onsend = lambda i, a, b: cmgs(7)
    box.onprompt = None
    box.sent[:] = []
    box.pending = None
    V.sched.drain()
    s = m.sendSms('3', 'next')
    V.check(len(box.sent) == 1, 'the next message is sent as usual')
    if text:
        V.check(box.sent[0] == ('"3"', 'next'), 'exactly that')
    else:
        whole(box.sent, '3', 'next')
    result(s, '3', 'next', 7)
    mdm.fine()
    m.close()


def sequence(p):
    """several messages: references, modes and received messages replied to"""
    m, model, box = attach(False)
    from gsmmodem.modem import ReceivedSms
    mr = 0
    keep = []
    for k in range(p['n']):
        ref = V.int('ref%d' % k, 0, 255)
        box.onsend = lambda i, a, b: cmgs(ref)
        box.sent[:] = []
        kind = V.choice('kind%d' % k, 3) if p['kinds'] else 0
        body = 'k%d' % k
        if kind == 2:
            m.smsTextMode = True
        if kind == 1:
            V.reach('reply')
            s = ReceivedSms(m, 0, '+9%d' % k, None, 'q').reply(body)
        else:
            s = m.sendSms('+9%d' % k, body)
        V.check(len(box.sent) == 1, 'submitted once')
        if kind == 2:
            V.check(box.sent[0] == ('"+9%d"' % k, body), 'exactly that')
            m.smsTextMode = False
        else:
            whole(box.sent, '+9%d' % k, body, mr)
        result(s, '+9%d' % k, body, ref)
        if mr == 255:
            V.reach('wrap')
        mr = (ref + 1) & 255
        V.check(m.sentSms[ref] is s, 'a report is matched with it')
        keep.append((ref, s))
        for r, o in keep[:-1]:
            if r != ref and not [x for x, y in keep if x == r and y is not o]:
                V.check(m.sentSms[r] is o, 'as before')
    mdm.fine()
    m.close()


def two(p):
    """two senders, or a sender and another user, at the same time"""
    text = p['text']
    m, model, box = attach(text)
    n = p['parts']
    la = 'A' if n == 1 else 'A' * 170
    out = {}
    box.onsend = lambda k, a, b: ['+CMGS: %d' % (40 + k), 'OK']
    model.t['AT+CSQ'] = ['+CSQ: 11,0', 'OK']
    V.schedule(p['pre'], fine=p['fine'])

    def other():
        if p['other'] == 'send':
            V.reach('two')
            out['b'] = m.sendSms('+22', 'B')
        else:
            V.reach('other')
            out['b'] = m.signalStrength
    t = threading.Thread(target=other)
    t.start()
    out['a'] = m.sendSms('+11', la)
    t.join()
    V.schedule_off()
    V.sched.drain()
    a, b = [], []
    for i, (ann, body) in enumerate(box.sent):
        if text:
            mine = ann == '"+11"'
            V.check((ann, body) == (('"+11"', la) if mine else ('"+22"', 'B')), 'announced and submitted together')
        else:
            r = spec.read_submit(smsbox.unhex(body))
            mine = r['da'] == '+11'
        (a if mine else b).append((ann, body, 40 + i))
    V.check(len(a) == n, 'each part is submitted once')
    if not text:
        whole([x[:2] for x in a], '+11', la)
    result(out['a'], '+11', la, a[-1][2])
    if p['other'] == 'send':
        V.check(len(b) == 1, 'each message is submitted once')
        if not text:
            whole([x[:2] for x in b], '+22', 'B')
        result(out['b'], '+22', 'B', b[0][2])
        V.check(m.sentSms[out['b'].reference] is out['b'], 'a report is matched with it')
        if not text:
            # the one submitted second uses the reference following that of the first
            x, y = (a, b) if box.sent[0][:2] == a[0][:2] else (b, a)
            V.check(spec.read_submit(smsbox.unhex(y[0][1]))['mr'] == x[-1][2] + 1, 'with the following reference')
    else:
        V.check(len(b) == 0, 'nothing else is submitted')
        V.check(out['b'] == 11, 'the other command gets its own response')
    V.check(m.sentSms[out['a'].reference] is out['a'], 'a report is matched with it')
    V.check(len(model.log) == 2 * len(box.sent) + (0 if p['other'] == 'send' else 1), 'nothing else is written')
    mdm.fine()
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for n in (0, 1, 4, 8) if q else range(0, 13):
        for num in ((1, 4) if n == 1 else (2,)):
            j.append(('text-%d-%d' % (n, num), 'once', {'mode': 'text', 'n': n, 'num': num}))
    for n in (0, 1, 2, 6) if q else range(0, 13):
        for num in ((1, 2, 5) if n == 1 else (3,)):
            j.append(('pdu-%d-%d' % (n, num), 'once', {'mode': 'pdu', 'n': n, 'num': num}))
    for n in (1, 2) if q else (1, 2, 3, 4):
        j.append(('ucs2-%d' % n, 'once', {'mode': 'ucs2', 'n': n, 'num': 2}))
    for n in (2, 3) if q else (2, 3, 4, 5):
        j.append(('parts-%d' % n, 'parts', {'n': n, 'note': False, 'full': True}))
        j.append(('between-%d' % n, 'parts', {'n': n, 'note': True, 'full': not q and n < 4}))
    for kind in KINDS:
        for at in ('prompt', 'data'):
            if at == 'prompt' and kind == 'noref':
                continue
            for text in (True, False):
                j.append(('refused-%s-%s-%d' % (kind, at, text), 'refused', {'n': 1, 'k': 0, 'at': at, 'kind': kind, 'text': text}))
            for n, k in ((2, 0), (2, 1)) if q else ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
                j.append(('refused-%s-%s-%d.%d' % (kind, at, n, k), 'refused', {'n': n, 'k': k, 'at': at, 'kind': kind, 'text': False}))
    j.append(('sequence', 'sequence', {'n': 2 if q else 3, 'kinds': True}))
    j.append(('sequence-long', 'sequence', {'n': 3 if q else 4, 'kinds': False}))
    pre = 2 if q else 3
    for text in (True, False):
        for other in ('send', 'command'):
            j.append(('two-%d-%s' % (text, other), 'two', {'text': text, 'other': other, 'parts': 1, 'pre': pre, 'fine': False}))
            j.append(('two-fine-%d-%s' % (text, other), 'two', {'text': text, 'other': other, 'parts': 1, 'pre': 1 if q else 2, 'fine': True}))
    for other in ('send', 'command'):
        j.append(('two-parts-' + other, 'two', {'text': False, 'other': other, 'parts': 2, 'pre': 1 if q else 2, 'fine': False}))
    return j
