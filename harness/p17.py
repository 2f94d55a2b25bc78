import vlib as V
from harness import ser
from gsmmodem.exceptions import TimeoutException

BOUNDS = {'quick': 'failure of the port after every stream of 0..4 arbitrary characters in up to two bursts, idle or while a command waits (with or without partial response), closing of the port failing or not, '
                   'handler given or not; failing write; normal close idle, within a line, after a command; every schedule with up to 1 preemption at accesses of shared state',
          'thorough': 'streams of 0..6 characters; up to 2 preemptions'}
OUTSIDE = 'errors other than the serial library\'s own error raised by the port; a fatal-error handler that raises'
ASSUMPTIONS = ['a failing port raises the serial library\'s error from read or write']
EXPECT = ('failed', 'failed-closing', 'waiting', 'closed', 'writefail')
BUDGET = {'thorough': 1800}


class Closed(object):
    def __init__(self, port, how):
        self.port = port
        self.how = how
        self.n = 0

    def __call__(self):
        self.n += 1
        self.port.closed = True
        if self.how == 1:
            raise V.serial.SerialException('close failed')
        if self.how == 2:
            raise OSError('close failed')


def setup(p):
    s, port, got, errors = ser.link(fatal=p.get('handler', True))
    V.sched.drain()
    err = V.serial.SerialException('device gone')
    port.close = Closed(port, V.choice('closing', 3))
    if port.close.how:
        V.reach('failed-closing')
    return s, port, got, errors, err


def dead(s, port, errors, err, handler=True):
    V.sched.drain()
    V.check(s.alive is False, 'the connection is marked dead')
    V.check(port.closed, 'the port is closed')
    V.check(port.close.n == 1, 'the port is closed once')
    if handler:
        V.check(len(errors) == 1, 'the handler is called exactly once')
        V.check(errors[0] is err, 'the handler gets the error')
    import time
    time.sleep(5)
    V.sched.drain()
    V.check(port.raised == 1, 'a dead port is not read again')
    V.check(len(errors) == (1 if handler else 0), 'the handler is called exactly once')
    V.check(not s.rxThread.is_alive(), 'the reader has ended')
    ser.alive_reader()
    V.reach('failed')


def idle(p):
    s, port, got, errors, err = setup(p)
    n = p['n']
    text = [V.char('c%d' % i) for i in range(n)]
    cut = V.choice('cut', n + 1)
    V.schedule(p['pre'], fine=True)
    port.feed(text[:cut])
    if V.bool('pause'):
        import time
        time.sleep(1.5)
        V.sched.drain()
    port.feed(text[cut:])
    port.error = err
    V.sched.drain()
    V.schedule_off()
    dead(s, port, errors, err, p['handler'])
    lines, rest = ser.split_lines(''.join(text))
    g = ser.flat(got)
    ser.same(g, lines[:len(g)], 'what was received before is delivered')
    V.check(len(g) == len(lines), 'what was received before is delivered')
    V.observe('got', g)


def waiting(p):
    s, port, got, errors, err = setup(p)
    a = V.str('a', 1, ser.NOEOL)
    part = p['part']

    def dev(data):
        if part:
            port.feed(a + '\r\n')
        port.error = err
    port.onwrite = dev
    V.schedule(p['pre'], fine=True)
    try:
        s.write('AT\r', timeout=2)
        V.check(False, 'a command on a failed port does not succeed')
    except TimeoutException as e:
        V.reach('waiting')
        if part:
            V.check(e.data is not None, 'the lines received before')
            ser.same(list(e.data), [a], 'the lines received before')
        else:
            V.check(e.data is None, 'no lines')
    except V.serial.SerialException:
        V.reach('waiting')
    V.schedule_off()
    dead(s, port, errors, err)


def writefail(p):
    """a failing write surfaces and leaves the link able to deliver"""
    s, port, got, errors, err = setup(p)
    state = {'fail': True}
    orig = port.write

    def wr(data):
        if state['fail']:
            raise err
        return orig(data)
    port.write = wr
    kw = {}
    if V.bool('prompt'):
        kw['expectedResponseTermSeq'] = '> '
    if not V.bool('wait'):
        kw['waitForResponse'] = False
    try:
        s.write('AT\r', **kw)
        V.check(False, 'a failed write surfaces')
    except V.serial.SerialException as e:
        V.check(e is err, 'a failed write surfaces as its error')
        V.reach('writefail')
    a = V.str('a', p['n'], ser.NOEOL)
    port.feed('x> ' + a + '\r\n')
    V.sched.drain()
    ser.same(ser.flat(got), ['x> ' + a], 'notifications are still delivered')
    state['fail'] = False
    port.onwrite = lambda data: port.feed('OK\r\n')
    ser.same(list(s.write('AT2\r')), ['OK'], 'the next command works')
    V.check(len(errors) == 0, 'no fatal error of the reader')
    s.alive = False
    V.sched.drain()


def close(p):
    s, port, got, errors = ser.link()
    V.schedule(p['pre'], fine=True)
    n = {'n': 0}
    orig = port.close

    def cl():
        n['n'] += 1
        V.check(not s.rxThread.is_alive(), 'the reader has stopped when the port is closed')
        orig()
    port.close = cl
    text = [V.char('c%d' % i) for i in range(p['n'])]
    if p['cmd']:
        port.onwrite = lambda data: port.feed('OK\r\n')
        s.write('AT\r')
    port.feed(text)
    if V.bool('pause'):
        import time
        time.sleep(1)
    s.close()
    V.schedule_off()
    V.check(n['n'] == 1, 'the port is closed once')
    V.check(port.closed, 'the port is closed')
    V.check(s.alive is False, 'the connection is not alive')
    V.check(not s.rxThread.is_alive(), 'the reader has ended')
    V.check(len(errors) == 0, 'a normal close is no fatal error')
    r = port.reads
    import time
    time.sleep(5)
    V.sched.drain()
    V.check(port.reads == r, 'nothing is read any more')
    V.check(len(errors) == 0, 'a normal close is no fatal error')
    lines, rest = ser.split_lines(''.join(text))
    g = ser.flat(got)
    V.check(len(g) <= len(lines), 'nothing is invented')
    ser.same(g, lines[:len(g)], 'lines are delivered in order')
    V.reach('closed')
    ser.alive_reader()


def reconnect(p):
    """a link can be opened again after a failure"""
    s, port, got, errors, err = setup(p)
    port.error = err
    dead(s, port, errors, err)
    from harness.port import Port
    p2 = Port()
    V.set_serial(lambda *a, **k: p2)
    s.connect()
    p2.onwrite = lambda data: p2.feed('A\r\nOK\r\n')
    V.check(s.alive, 'the new connection is alive')
    ser.same(list(s.write('AT\r')), ['A', 'OK'], 'the new connection works')
    V.check(len(errors) == 1, 'the handler is called exactly once')
    s.close()
    V.check(p2.closed, 'the new port is closed')


def jobs(tier):
    q = tier == 'quick'
    j = []
    for n in range(0, (4 if q else 6) + 1):
        j.append(('idle-%d' % n, 'idle', {'n': n, 'handler': True, 'pre': 0}))
    j.append(('idle-nohandler', 'idle', {'n': 2, 'handler': False, 'pre': 0}))
    j.append(('idle-sched', 'idle', {'n': 1, 'handler': True, 'pre': 1 if q else 2}))
    for part in (False, True):
        j.append(('waiting-%d' % part, 'waiting', {'part': part, 'pre': 1 if q else 2}))
    j.append(('writefail', 'writefail', {'n': 2}))
    for n in ((0, 1, 3) if q else (0, 1, 2, 3, 4)):
        for cmd in (False, True):
            j.append(('close-%d-%d' % (n, cmd), 'close', {'n': n, 'cmd': cmd, 'pre': (1 if n < 3 else 0) if q else (2 if n < 2 else 1)}))
    j.append(('reconnect', 'reconnect', {}))
    return j
