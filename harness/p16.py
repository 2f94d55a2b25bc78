import vlib as V
from harness import ser
from gsmmodem.exceptions import TimeoutException

BOUNDS = {'quick': 'two threads with one or two commands each and three threads with one command each; every command answered at once, after a delay, with an arbitrary line and any final result, or not at all, or written without waiting for a response '
                   '(timeout, or an answer that comes when nobody waits any more); every schedule with up to 2 preemptions (1 with three threads) at synchronisation and accesses of shared state',
          'thorough': 'up to 3 (2) preemptions'}
OUTSIDE = 'more threads; commands issued from within the notification handler on the read thread itself'
ASSUMPTIONS = ['virtual time: only waiting takes time']
EXPECT = ('both', 'timeout', 'error', 'nowait')
BUDGET = {'thorough': 2400}


class Device(object):
    """answers each command with its own tag after the delay planned for it"""

    def __init__(self, port, plan):
        self.port = port
        self.plan = plan
        self.busy = None           # command whose response is not complete
        self.overlap = []
        self.order = []
        port.onwrite = self.written

    def written(self, data):
        import threading
        import time
        cmd = data[:-1]
        if self.busy is not None:
            self.overlap.append((self.busy, cmd))
        self.order.append(cmd)
        delay, reply = self.plan[cmd]
        if delay is None:
            # never answered: the command is in flight until its caller gives up
            self.busy = None
            return
        self.busy = cmd
        if delay == 0:
            self.answer(cmd, reply)
        else:
            def run():
                time.sleep(delay)
                self.answer(cmd, reply)
            threading.Thread(target=run).start()

    def answer(self, cmd, reply):
        self.port.feed(reply)
        self.busy = None


def run(p):
    import threading
    s, port, got, errors = ser.link()
    V.sched.drain()
    plan = {}
    want = {}
    wanted = {}
    for cmd, kind in p['cmds']:
        tag = V.char('t' + cmd, 'abc')
        line = 'R' + cmd + tag
        fin = 'OK'
        if kind == 'err':
            fin = V.pick('f' + cmd, ['ERROR', '+CME ERROR: 3', 'COMMAND NOT SUPPORT'])
            V.reach('error')
        full = line + '\r\n' + fin + '\r\n'
        want[cmd] = [line, fin]
        plan[cmd] = {'now': (0, full), 'slow': (1, full), 'err': (0, full), 'none': (None, ''),
                     'late': (2, full), 'nowait': (None, '')}[kind]
        wanted[cmd] = kind
    dev = Device(port, plan)
    results = {}
    state = {'flying': None}
    bad = []
    problems = []
    wr = port.write

    def tracked(data):
        # what the caller of the previous command must have got by now
        cmd = data[:-1]
        for other in dev.order:
            if wanted[other] in ('now', 'err', 'slow') and len(port.rx):
                problems.append(other)
        return wr(data)
    port.write = tracked

    def worker(cmds):
        for c in cmds:
            try:
                if wanted[c] == 'nowait':
                    results[c] = s.write(c + '\r', waitForResponse=False)
                else:
                    results[c] = list(s.write(c + '\r', timeout=1.5))
            except TimeoutException as e:
                results[c] = e
    V.schedule(p['pre'], fine=p['fine'])
    ts = []
    for cmds in p['threads'][1:]:
        t = threading.Thread(target=worker, args=(cmds,))
        ts.append(t)
        t.start()
    worker(p['threads'][0])
    for t in ts:
        t.join()
    V.schedule_off()
    V.sched.drain()
    import time
    late = [c for c, k in p['cmds'] if k == 'late']
    if late:
        time.sleep(2)
        V.sched.drain()
    V.check(len(dev.order) == len(p['cmds']), 'every command is transmitted once')
    if not late:
        V.check(len(dev.overlap) == 0, 'a command is transmitted only after the previous response is complete')
        V.check(len(problems) == 0, 'a command is transmitted only after the previous response is read')
    for c, k in p['cmds']:
        r = results[c]
        if k == 'nowait':
            V.reach('nowait')
            V.check(r is None, 'a command not waited for has no response')
            continue
        if k in ('none', 'late'):
            V.reach('timeout')
            V.check(isinstance(r, TimeoutException), 'a command without response times out')
            V.check(r.data is None, 'and gets no lines of others')
        else:
            V.check(not isinstance(r, TimeoutException), 'an answered command does not time out')
            ser.same(r, want[c], 'every caller gets the response to its own command')
    for cmds in p['threads']:
        V.check([c for c in dev.order if c in cmds] == list(cmds), 'the commands of one thread keep their order')
    V.reach('both')
    g = ser.flat(got)
    if late:
        ser.same(g, want[late[0]], 'an answer nobody waits for goes to the handler')
    else:
        V.check(len(g) == 0, 'no response reaches the handler')
    V.observe('order', dev.order)
    ser.alive_reader()
    s.close()


def jobs(tier):
    q = tier == 'quick'
    d = 0 if q else 1
    j = []

    def add(name, cmds, threads, pre, fine=True):
        j.append((name, 'run', {'cmds': cmds, 'threads': threads, 'pre': pre, 'fine': fine}))
    for a in ('now', 'slow', 'err', 'none'):
        for b in ('now', 'slow', 'err', 'none'):
            pre = 2 if (a, b) in (('now', 'now'), ('now', 'none'), ('none', 'now')) else 1
            add('two-%s-%s' % (a, b), [('A', a), ('B', b)], [['A'], ['B']], pre + d)
    for a, b, c in (('now', 'now', 'now'), ('slow', 'err', 'now'), ('none', 'slow', 'now')):
        add('twoone-%s-%s-%s' % (a, b, c), [('A', a), ('B', b), ('C', c)], [['A', 'B'], ['C']], 1 + d)
        add('three-%s-%s-%s' % (a, b, c), [('A', a), ('B', b), ('C', c)], [['A'], ['B'], ['C']], 1 + d, ('_responseEvent', '_response', '_txLock') if q else True)
    for a in ('now', 'slow', 'none', 'nowait'):
        add('nowait-%s' % a, [('A', a), ('B', 'nowait')], [['A'], ['B']], 1 + d)
    add('nowait-then', [('A', 'slow'), ('B', 'nowait'), ('C', 'now')], [['A'], ['B', 'C']], 1 + d, False)
    # coarse points, more preemptions
    add('coarse-two', [('A', 'now'), ('B', 'slow')], [['A'], ['B']], 3 + d, False)
    add('coarse-twotwo', [('A', 'now'), ('B', 'now'), ('C', 'none'), ('D', 'now')], [['A', 'B'], ['C', 'D']], 1 + d, False)
    # an answer that comes after its caller gave up, nobody waiting
    add('late', [('A', 'late')], [['A'], []], 2 + d)
    return j
