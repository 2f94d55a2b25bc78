import vlib as V
from harness import ser

BOUNDS = {'quick': 'every response of one arbitrary line of 1..22 characters (no CR/LF) then OK; two arbitrary lines of 0..6 characters and any final result with any code of 1..3 digits; '
                   'terminator "> " or one arbitrary character pair against every stream of 0..5 characters; notification lines before and after',
          'thorough': 'lines of 1..40 characters, three lines, streams of 0..7 characters with terminators of 1..3 characters'}
OUTSIDE = 'longer lines; more lines per response (each is handled alike)'
ASSUMPTIONS = ['no final result is followed by a stray LF before its CR LF', 'no line arrives between the start of the call and the transmission']
EXPECT = ('final', 'notfinal', 'termseq', 'termfinal', 'later')
BUDGET = {'thorough': 2400}


def digits(s):
    return V.And(*[V.And(c >= '0', c <= '9') for c in s])


def is_final(s):
    """the final results, written out"""
    n = len(s)
    r = []
    if n in (2, 5, 19):
        r = [s == 'OK', s == 'ERROR', s == 'COMMAND NOT SUPPORT']
    if n > 12:
        r.append(V.And(V.Or(s[:12] == '+CME ERROR: ', s[:12] == '+CMS ERROR: '), digits(s[12:])))
    return V.Or(*r) if r else False


def line(p):
    s, port, got, errors = ser.link()
    V.sched.drain()
    a = V.str('a', p['n'], ser.BYTES)
    port.onwrite = lambda data: port.feed('\r\n' + a + '\r\nOK\r\n')
    resp = list(s.write('AT\r'))
    port.onwrite = None
    V.sched.drain()
    f = is_final(a)
    if f:
        V.reach('final')
        ser.same(resp, [a], 'the final result ends the response')
        ser.same(ser.flat(got), ['OK'], 'what follows is not part of it')
    else:
        V.reach('notfinal')
        ser.same(resp, [a, 'OK'], 'the response holds every line up to the final result')
        V.check(len(got) == 0, 'nothing else is delivered')
    V.observe('resp', resp)
    ser.alive_reader()
    s.close()


FINALS = ['OK', 'ERROR', '+CME ERROR: ', '+CMS ERROR: ', 'COMMAND NOT SUPPORT']


def lines(p):
    s, port, got, errors = ser.link()
    V.sched.drain()
    ls = [V.str('l%d' % i, n, ser.NOEOL) for i, n in enumerate(p['lens'])]
    for l in ls:
        V.assume(V.Not(is_final(l)))
    fin = V.pick('final', FINALS)
    if fin.endswith(': '):
        k = V.choice('digits', 3) + 1
        fin = fin + V.str('code', k, '0123456789')
    port.feed('+BEFORE\r\n')
    V.sched.drain()
    after = V.bool('after')

    def dev(data):
        for l in ls:
            port.feed('\r\n' + l + '\r\n')
        port.feed(fin + '\r\n')
        if after:
            port.feed('+AFTER\r\n')
    port.onwrite = dev
    resp = list(s.write('AT\r'))
    V.sched.drain()
    want = [l for l in ls if len(l) > 0] + [fin]
    ser.same(resp, want, 'the response is exactly its lines')
    ser.same(ser.flat(got), ['+BEFORE'] + (['+AFTER'] if after else []), 'the notifications are exactly the other lines')
    ser.same(port.log, ['AT\r'], 'the command is written once')
    port.onwrite = lambda data: port.feed('OK\r\n')
    ser.same(list(s.write('AT2\r')), ['OK'], 'the next command gets its own response')
    ser.alive_reader()
    s.close()


def nowait(p):
    s, port, got, errors = ser.link()
    V.sched.drain()
    a = V.str('a', p['n'], ser.NOEOL)
    r = s.write(a, waitForResponse=False)
    V.check(r is None, 'a command without response returns at once')
    port.feed('OK\r\n')
    V.sched.drain()
    ser.same(ser.flat(got), ['OK'], 'lines then belong to the handler')
    ser.same(port.log, [a], 'exactly the data is written')
    s.close()


def term(p):
    """custom terminator: scan of the stream by the rules"""
    s, port, got, errors = ser.link()
    V.sched.drain()
    seq = '> ' if p['seq'] is None else V.str('t', p['seq'], ser.NOEOL)
    text = V.str('x', p['n'])
    tail = seq + 'OK\r\n'
    stream = text + tail
    port.onwrite = lambda data: port.feed(stream)
    resp = list(s.write('AT\r', expectedResponseTermSeq=seq))
    port.onwrite = None
    V.sched.drain()
    want = []
    cur = ''
    i = 0
    ended = False
    while not ended:
        cur = cur + stream[i]
        i += 1
        if cur.endswith('\r\n'):
            if len(cur) > 2:
                want.append(cur[:-2])
                V.assume(not (cur[-3] == '\n' and is_final(cur[:-3])))     # a stray LF in the line: either way
                ended = bool(is_final(cur[:-2]))
                if ended:
                    V.reach('termfinal')
            cur = ''
        elif cur.endswith(seq):
            want.append(cur)
            ended = True
            V.reach('termseq')
    ser.same(resp, want, 'the response ends where the terminator first occurs')
    rest, part = ser.split_lines(stream[i:])
    ser.same(ser.flat(got), rest, 'the rest is delivered as lines')
    V.observe('resp', resp)
    # the terminator is forgotten
    port.onwrite = lambda data: port.feed('\r\na' + seq + 'b\r\nOK\r\n')
    r = list(s.write('AT2\r'))
    V.reach('later')
    first = part + '\r\n' if len(part) else ''
    if len(part):
        V.check(r[0] == part, 'the rest of an unfinished line')
        r = r[1:]
    ser.same(r, ['a' + seq + 'b', 'OK'], 'a later command does not stop at the terminator')
    ser.alive_reader()
    s.close()


def final_with_term(p):
    """an error ends a command that waits for a prompt"""
    s, port, got, errors = ser.link()
    V.sched.drain()
    fin = V.pick('final', FINALS)
    if fin.endswith(': '):
        fin = fin + V.str('code', V.choice('digits', 3) + 1, '0123456789')
    port.onwrite = lambda data: port.feed('\r\n' + fin + '\r\n')
    ser.same(list(s.write('AT\r', expectedResponseTermSeq='> ')), [fin], 'a final result ends the response')
    V.reach('termfinal')
    port.onwrite = lambda data: port.feed('x> y\r\nOK\r\n')
    ser.same(list(s.write('AT2\r')), ['x> y', 'OK'], 'a later command does not stop at the terminator')
    s.close()


def term_timeout(p):
    """the terminator is forgotten after a timeout, too"""
    from gsmmodem.exceptions import TimeoutException
    s, port, got, errors = ser.link()
    V.sched.drain()
    try:
        s.write('AT\r', timeout=2, expectedResponseTermSeq='> ')
        V.check(False, 'no response: timeout')
    except TimeoutException as e:
        V.check(e.data is None, 'no response: timeout without data')
    port.onwrite = lambda data: port.feed('x> y\r\nOK\r\n')
    ser.same(list(s.write('AT2\r')), ['x> y', 'OK'], 'a later command does not stop at the terminator')
    port.feed('z> y\r\n')
    V.sched.drain()
    ser.same(ser.flat(got), ['z> y'], 'a notification is not cut at the terminator')
    s.close()


def jobs(tier):
    q = tier == 'quick'
    j = [('line-%d' % n, 'line', {'n': n}) for n in range(1, (22 if q else 40) + 1)]
    for l in ([[0], [6], [2, 3], [2, 0]] if q else [[0], [12], [3, 5], [6, 6], [2, 0], [19, 2], [5, 5, 5]]):
        j.append(('lines-' + '-'.join(map(str, l)), 'lines', {'lens': l}))
    j.append(('nowait', 'nowait', {'n': 3}))
    for n in range(0, (5 if q else 7) + 1):
        j.append(('term-%d' % n, 'term', {'n': n, 'seq': None}))
    for k in ((1, 2) if q else (1, 2, 3)):
        for n in range(0, (3 if q else 5) + 1):
            j.append(('termany-%d-%d' % (k, n), 'term', {'n': n, 'seq': k}))
    j += [('termfinal', 'final_with_term', {}), ('termtimeout', 'term_timeout', {})]
    return j
