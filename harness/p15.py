import vlib as V
from harness import ser
from gsmmodem.exceptions import TimeoutException

BOUNDS = {'quick': 'timeouts of 0.25, 1, 2 and 5 s (and the default); 0..2 arbitrary lines of 0..2 characters and an unfinished line before, a late rest before, at and after the expiry; with and without terminator; '
                   'every schedule with up to 2 preemptions at accesses of shared state and every order of tasks due at the same instant',
          'thorough': 'up to 3 preemptions; 3 lines of up to 4 characters'}
OUTSIDE = 'a late response that arrives while the next command is already waiting (it cannot be told from that command\'s own)'
ASSUMPTIONS = ['virtual time: only waiting takes time']
EXPECT = ('timeout', 'nodata', 'partial', 'response', 'exact')
BUDGET = {'thorough': 2400}


def after(secs, fn):
    import threading
    import time

    def run():
        time.sleep(secs)
        fn()
    threading.Thread(target=run).start()


def nonfinal(name, n):
    a = V.str(name, n, ser.BYTES)
    V.assume(V.Not(V.Or(a == 'OK', a == 'ERROR', a == '> ')))
    return a


def call(s, port, T, kw, rest_at=None):
    """-> (response or None, data of the timeout or None, time taken)"""
    t0 = V.sched.now
    try:
        r = s.write('AT\r', **kw)
        return list(r), None, V.sched.now - t0
    except TimeoutException as e:
        return None, e, V.sched.now - t0


def usable(s, port, got, errors):
    """the link works normally afterwards"""
    n = len(port.log)
    port.onwrite = lambda data: port.feed('\r\nx> y\r\nOK\r\n')
    before = len(ser.flat(got))
    r = list(s.write('AT2\r'))
    V.sched.drain()
    ser.same(port.log[n:], ['AT2\r'], 'the next command is written')
    ser.same(r, ['x> y', 'OK'], 'the next command gets its own response')
    V.check(len(ser.flat(got)) == before, 'and nothing of it reaches the handler')
    port.onwrite = None
    port.feed('NOTE\r\n')
    V.sched.drain()
    V.check(ser.flat(got)[before:] == ['NOTE'], 'the next notification arrives')
    V.check(s.alive, 'the link is alive')
    V.check(len(errors) == 0, 'no fatal error')
    ser.alive_reader()
    s.close()


def quiet(p):
    s, port, got, errors = ser.link()
    V.sched.drain()
    kw = {}
    T = 5
    if p['T'] is not None:
        T = kw['timeout'] = p['T']
    if V.bool('prompt'):
        kw['expectedResponseTermSeq'] = '> '
    ls = [nonfinal('l%d' % i, n) for i, n in enumerate(p['lens'])]
    rest = p['rest']
    half = V.bool('half')

    def dev(data):
        if not half:
            for l in ls:
                port.feed(l + '\r\n')
            port.feed(rest)
        else:
            def run():
                for l in ls:
                    port.feed(l + '\r\n')
                port.feed(rest)
            after(T * 0.5, run)
    port.onwrite = dev
    r, e, took = call(s, port, T, kw)
    V.check(r is None, 'without a final result there is no response')
    V.reach('timeout')
    V.check(T <= took and took <= T + 1, 'the timeout comes when requested')
    want = [l for l in ls if len(l) > 0]
    if want:
        V.reach('partial')
        V.check(e.data is not None, 'the error carries the lines received')
        ser.same(list(e.data), want, 'the error carries exactly the lines received')
    else:
        V.reach('nodata')
        V.check(e.data is None, 'without lines the error carries no data')
    V.sched.drain()
    V.check(len(ser.flat(got)) == 0, 'the lines are not delivered twice')
    if rest:
        port.feed('\r\n')
        V.sched.drain()
        ser.same(ser.flat(got), [rest], 'a line finished late belongs to the handler')
    usable(s, port, got, errors)


def race(p):
    """the rest of the response arrives before, at or after the expiry"""
    s, port, got, errors = ser.link()
    V.sched.drain()
    T = 2
    kw = {'timeout': T}
    fin = 'OK\r\n'
    if p['prompt']:
        kw['expectedResponseTermSeq'] = '> '
        fin = '> '
    a = nonfinal('a', 1)
    b = p['second']
    when = p['when']

    def dev(data):
        if p['first']:
            port.feed(a + '\r\n')
        after(when, lambda: port.feed((b + '\r\n' if b else '') + fin))
    port.onwrite = dev
    if p['first']:
        # the schedule is free from shortly before the rest arrives
        after(when - 0.5, lambda: V.schedule(p['pre'], fine=True))
    else:
        V.schedule(p['pre'], fine=True)
    r, e, took = call(s, port, T, kw)
    V.schedule_off()
    V.sched.drain()
    first = [a] if p['first'] else []
    mid = [b] if b else []
    last = [fin[:2]]
    alls = first + mid + last
    g = ser.flat(got)
    if r is not None:
        V.reach('response')
        V.check(when <= T, 'a late response is not a response')
        ser.same(r, alls, 'the response is complete')
        V.check(len(g) == 0, 'nothing is delivered twice')
        V.check(took <= T, 'not later than the timeout')
    else:
        V.check(when >= T, 'a response that arrived in time is returned')
        V.check(took >= T, 'not earlier than requested')
        data = list(e.data) if e.data is not None else []
        V.check(e.data is None or len(data) > 0, 'no empty data')
        if when > T:
            V.reach('timeout')
            ser.same(data, first, 'the error carries exactly the lines received')
            import time
            time.sleep(when)
            V.sched.drain()
            g = ser.flat(got)
        else:
            V.reach('exact')
            V.check(len(data) >= len(first) and len(data) < len(alls), 'the error carries the lines received so far')
        if p['prompt']:
            # the prompt may be an unfinished line now
            if len(data) + len(g) < len(alls):
                port.feed('\r\n')
                V.sched.drain()
                g = ser.flat(got)
        ser.same(data + g, alls, 'every line is delivered once, in order')
    V.observe('r', r)
    V.observe('g', g)
    usable(s, port, got, errors)


def jobs(tier):
    q = tier == 'quick'
    j = []
    for T in (0.25, 1, 2, 5, None):
        j.append(('quiet-none-%s' % T, 'quiet', {'T': T, 'lens': [], 'rest': ''}))
        j.append(('quiet-one-%s' % T, 'quiet', {'T': T, 'lens': [2], 'rest': ''}))
    for lens in ([[1, 2], [0], [0, 1], [2, 0]] if q else [[1, 2], [0], [0, 1], [2, 0], [4], [2, 2, 2], [3, 4]]):
        for rest in ('', 'ER'):
            j.append(('quiet-%s%s' % ('-'.join(map(str, lens)), rest), 'quiet', {'T': 2, 'lens': lens, 'rest': rest}))
    pre = 2 if q else 3
    for prompt in (False, True):
        for when in (1, 2, 3):
            for first, second in ((False, ''), (True, ''), (False, 'm'), (True, 'm')):
                if q and when != 2 and first != bool(second):
                    continue
                n = pre
                j.append(('race%s-%d-%d%s' % ('-prompt' if prompt else '', when, first, second), 'race',
                          {'prompt': prompt, 'when': when, 'first': first, 'second': second, 'pre': n if when == 2 else n - 1}))
    return j
