import vlib as V
from harness import ser

BOUNDS = {'quick': 'every character stream of 0..5 arbitrary characters (CR, LF, others) in two bursts split anywhere, of 4 in any bursts; one or two notification lines of 1..2 arbitrary characters '
                   'before, during and after a command, every schedule of reader and caller with up to 2 preemptions (1 where the device answers later) at accesses of shared state',
          'thorough': 'streams of up to 7 characters in two bursts, 5 in any bursts; three lines around a command; up to 3 (2) preemptions'}
OUTSIDE = 'longer streams; a notification handler that raises or that waits for a command response on the reader thread'
ASSUMPTIONS = ['the port hands over native str characters', 'a burst is wholly available before the reader is scheduled']
EXPECT = ('line', 'noline', 'partial', 'response', 'notification')
BUDGET = {'thorough': 2400}


def stream(p):
    s, port, got, errors = ser.link()
    V.sched.drain()
    n = p['n']
    text = [V.char('c%d' % i) for i in range(n)]
    cuts = []
    if p['any']:
        for i in range(1, n):
            if V.choice('cut%d' % i, 2):
                cuts.append(i)
    elif n > 1:
        c = V.choice('cut', n)
        if c:
            cuts.append(c)
    done = 0
    for end in cuts + [n]:
        before = len(got)
        port.feed(text[done:end])
        V.sched.drain()
        done = end
        lines, rest = ser.split_lines(''.join(text[:end]))
        ser.same(ser.flat(got), lines, 'every complete line received so far is delivered once, unchanged and in order')
        V.check(len(got) - before <= 1, 'the lines of one burst are delivered in one group')
        V.reach('line' if lines else 'noline')
        if rest != '':
            V.reach('partial')
    V.check(all([len(g) > 0 for g in got]), 'no empty group')
    V.observe('got', got)
    s.close()
    V.check(len(ser.flat(got)) == len(lines), 'nothing more after closing')
    ser.alive_reader()


def around(p):
    """lines before, in and after a command: each goes to exactly one place, in order"""
    s, port, got, errors = ser.link()
    V.sched.drain()
    a = [V.str('a%d' % i, k, ser.NOEOL) for i, k in enumerate(p['before'])]
    b = [V.str('b%d' % i, k, ser.NOEOL) for i, k in enumerate(p['inside'])]
    c = [V.str('c%d' % i, k, ser.NOEOL) for i, k in enumerate(p['after'])]
    for l in a + b + c:
        V.assume(V.Not(V.Or(l == 'OK', l == 'ERROR')))
    when = p['when']

    def dev(data):
        port.feed(''.join([l + '\r\n' for l in b]) + 'OK\r\n' + ''.join([l + '\r\n' for l in c]))
    if when == 'sync':
        port.onwrite = dev
    else:
        def later(data):
            import threading

            def run():
                import time
                time.sleep(1)
                dev(data)
            threading.Thread(target=run).start()
        port.onwrite = later
    for l in a:
        port.feed(l + '\r\n')
    if p['drain']:
        V.sched.drain()
    V.schedule(p['pre'], fine=('_responseEvent', '_response', '_notification', '_expectResponseTermSeq'))
    resp = s.write('AT\r')
    V.schedule_off()
    V.sched.drain()
    ser.alive_reader()
    V.observe('resp', resp)
    V.observe('got', ser.flat(got))
    V.reach('response')
    if len(got):
        V.reach('notification')
    everything = a + b + ['OK'] + c
    if p['drain']:
        ser.same(list(resp), b + ['OK'], 'the command gets its lines')
        ser.same(ser.flat(got), a + c, 'the other lines reach the handler')
    else:
        # the lines before may belong to either; nothing is lost, doubled or reordered
        V.check(len(resp) + len(ser.flat(got)) == len(everything), 'no line is lost or doubled')
        r = list(resp)
        k = len(r) - len(b) - 1
        V.check(k >= 0, 'the command gets its lines')
        ser.same(r[k:], b + ['OK'], 'the command gets its lines')
        g = ser.flat(got)
        ser.same(g[:len(a) - k] + r[:k] + g[len(a) - k:], a + c, 'the other lines are delivered in order')
    s.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for n in range(0, (5 if q else 7) + 1):
        j.append(('stream-%d' % n, 'stream', {'n': n, 'any': False}))
    for n in (3, 4) if q else (4, 5):
        j.append(('bursts-%d' % n, 'stream', {'n': n, 'any': True}))
    for when in ('sync', 'later'):
        pre = (2 if when == 'sync' else 1) if q else (3 if when == 'sync' else 2)
        j.append(('around-%s' % when, 'around', {'before': [1], 'inside': [2], 'after': [1], 'when': when, 'drain': True, 'pre': pre}))
        j.append(('tight-%s' % when, 'around', {'before': [1], 'inside': [1], 'after': [], 'when': when, 'drain': False, 'pre': pre}))
        if not q:
            j.append(('around2-%s' % when, 'around', {'before': [1, 1], 'inside': [], 'after': [1, 1], 'when': when, 'drain': True, 'pre': 2}))
            j.append(('tight2-%s' % when, 'around', {'before': [2, 1], 'inside': [1], 'after': [1], 'when': when, 'drain': False, 'pre': 2}))
    return j
