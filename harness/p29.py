import time
import vlib as V
from harness import mdm
from gsmmodem.exceptions import CommandError, CmeError, TimeoutException, InvalidStateException

PRINT = [(0x20, 0x7E)]
BOUNDS = {'quick': 'signal strength: every value 0..99 with every bit error rate; operator and identification strings: every printable text of 1..6 characters; command lists of up to 3 names of 1..4 characters in every '
                   'reported form; every history of 4 reads and writes of the service centre number among 2 numbers, rejected or not, on a modem that knows it or not; waiting for coverage: every sequence of 4 '
                   'registration and signal answers with every time limit 1..5 s',
          'thorough': 'texts of up to 12 characters; 4 names; histories of 6; sequences of 6'}
OUTSIDE = 'a modem whose answer contains no answer line at all, or answers containing a final result inside the text'
EXPECT = ('strength', 'unknown', 'unparsable', 'operator', 'none', 'ident', 'commands', 'cached', 'changed', 'unchanged', 'coverage', 'denied', 'timeout')
BUDGET = {'thorough': 2400}


def raises(f, *exc):
    try:
        f()
    except exc:
        return True
    return False


def signal(p):
    m, model = mdm.attach()
    ss = V.int('ss', 0, 99)
    ber = V.int('ber', 0, 99)
    sep = V.pick('sep', ['+CSQ: ', '+CSQ:', '+CSQ:  '])
    model.t['AT+CSQ'] = [sep + str(ss) + ',' + str(ber), 'OK']
    r = m.signalStrength
    if ss == 99:
        V.reach('unknown')
        V.check(r == -1, '99 means unknown')
    else:
        V.reach('strength')
        V.check(r == ss, 'the value reported')
    V.check(model.cmds == ['AT+CSQ'], 'one query')
    model.t['AT+CSQ'] = [V.pick('bad', ['ERROR', '+CME ERROR: 30', 'COMMAND NOT SUPPORT'])]
    V.reach('unparsable')
    V.check(raises(lambda: m.signalStrength, CommandError), 'an error surfaces')
    m.close()


def text(name, n, alphabet=PRINT):
    """a line that is not a final result"""
    s = V.str(name, n, alphabet)
    V.assume(s not in ('OK', 'ERROR'))
    V.assume(s[0] != ' ' and s[-1] != ' ')
    return s


def operator(p):
    m, model = mdm.attach()
    name = V.str('name', p['n'], [(0x20, 0x21), (0x23, 0x7E)])
    mode, fmt = V.str('mode', 1, '01234'), V.str('fmt', 1, '012')
    act = V.pick('act', ['', ',0', ',2', ',7'])
    model.t['AT+COPS?'] = ['+COPS: ' + mode + ',' + fmt + ',"' + name + '"' + act, 'OK']
    V.check(m.networkName == name, 'the operator name in the response')
    V.reach('operator')
    model.t['AT+COPS?'] = ['+COPS: ' + mode, 'OK']
    V.check(m.networkName is None, 'or none')
    V.reach('none')
    V.check(model.cmds == ['AT+COPS?', 'AT+COPS?'], 'one query each')
    m.close()


def ident(p):
    m, model = mdm.attach()
    cmd, attr = p['what']
    s = text('s', p['n'])
    V.assume(not s.startswith('+CM') and 'ERROR' not in s)
    model.t[cmd] = [s, 'OK']
    V.check(getattr(m, attr) == s, 'the string in the response')
    V.reach('ident')
    V.check(model.cmds == [cmd], 'one query')
    model.t[cmd] = [V.pick('bad', ['ERROR', '+CME ERROR: 11'])]
    if attr == 'revision':
        V.check(m.revision is None, 'no revision if not supported')
    else:
        V.check(raises(lambda: getattr(m, attr), CommandError), 'an error surfaces')
    m.close()


def clac(p):
    m, model = mdm.attach()
    names = [V.str('n%d' % i, k, [(0x21, 0x2B), (0x2D, 0x7E)]) for i, k in enumerate(p['lens'])]
    form = p['form']
    if form == 'lines':
        for x in names:
            V.assume(x not in ('OK', 'ERROR') and not x.startswith('+CLAC'))
        V.assume(len(names) > 1)
        model.t['AT+CLAC'] = names + ['OK']
    elif form == 'crlines':
        for x in names:
            V.assume(x not in ('OK', 'ERROR') and not x.startswith('+CLAC'))
        V.assume(len(names) > 1)
        model.t['AT+CLAC'] = '\r\r\n'.join(names) + '\r\r\nOK\r\n'
    else:
        line = ','.join(names)
        if form == '':
            V.assume(line not in ('OK', 'ERROR') and not line.startswith('+CLAC'))
        V.assume('ERROR' not in line)
        model.t['AT+CLAC'] = [form + line, 'OK']
    r = m.supportedCommands
    V.reach('commands')
    V.check(len(r) == len(names), 'the commands in the response')
    for x, y in zip(r, names):
        V.check(x == y, 'the commands in the response')
    model.t['AT+CLAC'] = ['ERROR']
    V.check(m.supportedCommands is None, 'None if not known')
    m.close()


NUM = ['+2711', '072']


def smsc(p):
    """reads and writes of the service centre number"""
    known = p['known']
    state = {'n': NUM[0] if known else None}

    def prep(model):
        model.t['AT+CSCA?'] = ['+CSCA: "%s",145' % NUM[0], 'OK'] if known else ['+CMS ERROR: 330'] if known is None else ['+CSCA: "",129', 'OK']
    m, model = mdm.attach(prepare=prep)
    cache = None
    if p['fresh']:
        m2, model2 = m, model
        m2._smscNumber = None
    else:
        cache = NUM[0] if known else None

    def dev(d):
        if d == 'AT+CSCA?\r':
            return ['+CSCA: "%s",145' % state['n'], 'OK'] if state['n'] else ['+CMS ERROR: 330']
        if d.startswith('AT+CSCA="'):
            if not state['ok']:
                return ['+CMS ERROR: 304']
            state['n'] = d[9:-2]
            return ['OK']
    log = model.log
    model.hook = dev
    for k in range(p['n']):
        n = len(log)
        op = V.pick('op%d' % k, ['get', 'set0', 'set1'])
        if op == 'get':
            r = m.smsc
            V.check(r == state['n'], 'the number the modem has')
            if cache is None:
                V.check(log[n:] == ['AT+CSCA?\r'], 'one query')
                cache = r
            else:
                V.reach('cached')
                V.check(log[n:] == [], 'the number is queried once')
        else:
            want = NUM[int(op[3])]
            state['ok'] = ok = V.bool('ok%d' % k)
            failed = False
            try:
                m.smsc = want
            except CommandError:
                failed = True
            if cache == want:
                V.reach('unchanged')
                V.check(log[n:] == [] and not failed, 'setting the same number writes nothing')
            else:
                V.reach('changed')
                V.check(log[n:] == ['AT+CSCA="%s"\r' % want], 'a change is written once')
                V.check(failed == (not ok), 'a refusal surfaces')
                if ok:
                    cache = want
    V.check(m.smsc == state['n'], 'the number the modem has')
    m.close()


def coverage(p):
    """every sequence of registration and signal answers"""
    m, model = mdm.attach()
    tmo = p['timeout']
    seq = []
    reg, sig = [False], [None]
    ended = []
    form = V.pick('form', ['+CREG: 0,%s', '+CREG:0,%s', '+CREG: 2,%s,"12AB","00C3"'])

    def dev(d):
        if d == 'AT+CREG?\r':
            k = len(seq)
            if k >= p['n']:
                s = seq[-1] if seq and seq[-1] in (2, 4) else 2
            elif k == 0:
                s = V.pick('c%d' % k, [0, 1, 2, 3, 4, 5, 'ERROR', '+CME ERROR: 3'])
            else:
                s = V.pick('c%d' % k, [0, 1, 2, 3, 4, 5])
            seq.append(s)
            V.check(not ended, 'waiting stops when the answer is known')
            if s in (0, 3):
                ended.append('denied')
            if isinstance(s, str):
                reg[0] = True
                return [s]
            if s in (1, 5):
                reg[0] = True
            return [form % s, 'OK']
        if d == 'AT+CSQ\r':
            k = len(seq)
            V.check(reg[0], 'the signal strength counts only after registration')
            V.check(not ended, 'waiting stops when the answer is known')
            s = V.pick('q%d' % k, [0, 1, 31, 99]) if k < p['n'] else seq[-1] if seq[-1] in ('q0', 'q99') else 0
            if not isinstance(s, str):
                seq.append('q%d' % s)
            else:
                s = int(s[1:])
            if 0 < s < 99:
                ended.append('signal')
                sig[0] = s
            return ['+CSQ: %d,0' % s, 'OK']
    model.hook = dev
    t0 = V.sched.now
    try:
        r = m.waitForNetworkCoverage(tmo) if tmo is not None else m.waitForNetworkCoverage()
        V.check(ended == ['signal'] and r == sig[0], 'a positive signal strength is returned')
        V.reach('coverage')
    except InvalidStateException:
        V.reach('denied')
        V.check(ended == ['denied'], 'registration was denied or is not attempted')
    except TimeoutException:
        V.reach('timeout')
        V.check(tmo is not None and not ended, 'without coverage it times out')
        V.check(tmo <= V.sched.now - t0 <= tmo + 2, 'when the time is up')
    time.sleep(10)
    V.sched.drain()
    mdm.fine()
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = [('signal', 'signal', {})]
    N = 6 if q else 12
    for n in range(1, N + 1):
        j.append(('operator-%d' % n, 'operator', {'n': n}))
    for c, a in (('AT+CGMI', 'manufacturer'), ('AT+CGMM', 'model'), ('AT+CGMR', 'revision'), ('AT+CGSN', 'imei'), ('AT+CIMI', 'imsi')):
        for n in ((1, 2, 5, 6) if q else range(1, N + 1)):
            j.append(('ident-%s-%d' % (a, n), 'ident', {'what': (c, a), 'n': n}))
    for form in ('+CLAC:', '+CLAC: ', '', 'lines', 'crlines'):
        for lens in ((3,), (1, 2), (2, 4, 3), (5, 4)) + (() if q else ((1, 2, 3, 4), (8, 8))):
            if form.endswith('lines') and len(lens) == 1:
                continue
            j.append(('clac-%s-%s' % (form.replace(' ', '_'), '.'.join(map(str, lens))), 'clac', {'form': form, 'lens': lens}))
    for known in (True, None, False):
        for fresh in (True, False):
            j.append(('smsc-%s-%d' % (known, fresh), 'smsc', {'known': known, 'fresh': fresh, 'n': 4 if q else 6}))
    for t in (1, 2, 3, 4, 5, 2.5) if q else (1, 2, 3, 4, 5, 6, 7, 2.5, 4.5):
        j.append(('coverage-%s' % t, 'coverage', {'timeout': t, 'n': 4 if q else 6}))
    return j
