import vlib as V
from harness import mdm, calls
from gsmmodem.modem import IncomingCall
from gsmmodem.exceptions import CommandError

BOUNDS = {'quick': 'every history of 4 events (5 after a dial or ring) out of rings of two numbers or a withheld number, dials, answers, hang-ups and reported ends, with and without caller identification and extended indication; '
                   'two rings with arbitrary numbers of 1..4 digits; every call type name of 1..6 characters; two and three rings in one burst',
          'thorough': 'histories of 6 events; numbers of up to 10 digits'}
OUTSIDE = 'notifications handled concurrently; a caller who gives up without the modem reporting the end is still listed as ringing'
ASSUMPTIONS = ['notifications of different bursts are handled in the order of their arrival']
EXPECT = ('new', 'again', 'ring0', 'ring1', 'ringx', 'dial', 'answer', 'hangup', 'end', 'same', 'different')
BUDGET = {'thorough': 2400}
history = calls.history


def ring_lines(crc, num, rest):
    return ['+CRING: VOICE' if crc else 'RING', '+CLIP: "%s",%s' % (num, rest)]


def number(name, n, plus):
    s = V.str(name, n, '0123456789')
    return '+' + s if plus else s


def pair(p):
    got = []
    crc = p['crc']

    def prep(model):
        if not crc:
            model.t['AT+CRC=1'] = ['+CME ERROR: 3']
    m, model = mdm.attach('generic', prepare=prep, incomingCallCallbackFunc=lambda c: got.append((c, c.ringCount, c.ringing)))
    a = number('a', p['na'], p['plus'])
    b = number('b', p['nb'], p['plus'])
    ton = V.str('ton', 3, '0123456789')
    tail = V.pick('tail', ['', ',,,,0', ',"",,"",0'])
    if p['burst']:
        mdm.notify(model, ring_lines(crc, a, ton + tail) + ring_lines(crc, b, ton + tail))
    else:
        mdm.notify(model, ring_lines(crc, a, ton + tail))
        V.check(len(got) == 1, 'a RING is announced exactly once')
        mdm.notify(model, ring_lines(crc, b, ton + tail))
    V.check(len(got) == 2, 'every RING is announced exactly once')
    c, n, ringing = got[0]
    V.check(isinstance(c, IncomingCall), 'an incoming call')
    V.check(c.number == a, 'with the number of the caller')
    V.check(str(c.ton) == ton, 'and its type of number')
    V.check(n == 1, 'a new call has rung once')
    V.check(c.answered is False and c.active is True and c.ringing is True, 'a new call rings')
    if crc:
        V.check(c.type == 0, 'a voice call')
    d, n2, ringing2 = got[1]
    if a == b:
        V.reach('same')
        V.check(d is c, 'the call from that number rings again')
        V.check(n2 == 2, 'with its ring count increased by one')
        V.check(len(m.activeCalls) == 1, 'one call is listed')
    else:
        V.reach('different')
        V.check(d is not c, 'another number is another call')
        V.check(d.number == b, 'with its number')
        V.check(n2 == 1 and c.ringCount == 1, 'each with its own ring count')
        V.check(c.id != d.id, 'concurrent calls have different ids')
        V.check(m.activeCalls[c.id] is c and m.activeCalls[d.id] is d and len(m.activeCalls) == 2, 'both are listed')
    mdm.fine()
    m.close()


def kind(p):
    got = []
    m, model = mdm.attach('generic', incomingCallCallbackFunc=got.append)
    k = V.str('k', p['n'], [(0x41, 0x5A), (0x2F, 0x2F)])
    mdm.notify(model, ['+CRING: ' + k, '+CLIP: "5",129'])
    V.check(len(got) == 1, 'a call of any type is announced exactly once')
    V.check(got[0].number == '5', 'with its number')
    V.check((got[0].type == 0) == (k == 'VOICE'), 'with its type')
    mdm.notify(model, ['+CRING: ' + k, '+CLIP: "5",129'])
    V.check(len(got) == 2 and got[1] is got[0] and got[0].ringCount == 2, 'and again when it rings again')
    mdm.fine()
    m.close()


def external(p):
    """extended indication switched off behind the library's back"""
    got = []
    m, model = mdm.attach('generic', incomingCallCallbackFunc=got.append)
    ok = V.bool('ok')
    model.t['AT+CRC=1'] = ['OK'] if ok else ['ERROR']
    n = number('a', p['n'], False)
    clip = V.bool('clip')
    mdm.notify(model, ['RING'] + (['+CLIP: "%s",129' % n] if clip else []))
    V.check(len(got) == 1, 'a RING is announced exactly once')
    V.check(got[0].number == n if clip else got[0].number is None, 'with the number of the caller')
    V.check(model.cmds == ['AT+CRC=1'], 'the extended indication is requested again')
    mdm.notify(model, ['+CRING: VOICE' if ok else 'RING'] + (['+CLIP: "%s",129' % n] if clip else []))
    V.check(len(got) == 2 and got[1] is got[0] and got[0].ringCount == 2, 'it rings again')
    mdm.fine()
    m.close()


OPS = ['ring0', 'ring1', 'ringx', 'dial', 'answer', 'hangup', 'end']


def jobs(tier):
    q = tier == 'quick'
    j = []
    n = 4 if q else 5
    for f in ('huawei', 'zte'):
        for op in ('ring0', 'dial', 'ringx'):
            j.append(('history-%s-%s' % (f, op), 'history', {'family': f, 'prefix': [(op, None)], 'n': n - 1 if f == 'zte' else n, 'ops': OPS}))
    j.append(('history-nocrc', 'history', {'family': 'wavecom', 'prefix': [], 'n': n - 1, 'ops': OPS, 'crc': False}))
    j.append(('history-noclip', 'history', {'family': 'wavecom', 'prefix': [], 'n': n, 'ops': ['ring0', 'dial', 'answer', 'hangup'], 'clip': False}))
    for crc in (True, False):
        for burst in (True, False):
            for na, nb, plus in ((1, 1, True), (2, 3, False), (4, 4, False)) + (() if q else ((10, 10, True), (10, 9, False))):
                j.append(('pair-%d-%d-%d-%d-%d' % (crc, burst, na, nb, plus), 'pair', {'crc': crc, 'burst': burst, 'na': na, 'nb': nb, 'plus': plus}))
    for k in range(1, (6 if q else 12) + 1):
        j.append(('kind-%d' % k, 'kind', {'n': k}))
    j.append(('external', 'external', {'n': 2}))
    return j
