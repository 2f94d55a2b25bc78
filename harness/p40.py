import threading, time
import vlib as V
from harness import mdm, smsbox, spec
from harness.smsbox import Box
from gsmmodem.exceptions import CommandError

BOUNDS = {'quick': 'sendsms: every text of 0..3 characters of the GSM alphabet to every number of 1..3 digits, the port given or not, with and without PIN, delivery report and baud rate, on a modem that is locked or not, '
                   'registered or not, that accepts or refuses the message, with every delivery status or none; identify-modem: arbitrary answers of 2 characters, each query answered or refused (debug mode); gsmterm: both modes',
          'thorough': 'texts of up to 6 characters, answers of up to 4'}
OUTSIDE = 'Python 2; texts of more than one part (P08, P24); identify-modem without -d on modems that refuse a query or the SIM PIN'
ASSUMPTIONS = ['the argument parser (argparse) is run as it is on placeholders, which are then replaced by the symbolic values']
EXPECT = ('sent', 'noport', 'nopin', 'badpin', 'nocover', 'refused', 'delivered', 'failed', 'noreport', 'info', 'debug', 'term')
BUDGET = {'thorough': 2400}


def run(tool, argv, sub=None, **inp):
    """-> exit status"""
    V.set_argv([tool] + argv, sub)
    try:
        mod = V.load(tool)
        mod.main()
    except SystemExit as e:
        return 0 if e.code is None else e.code
    except CommandError:
        return 1              # an uncaught error
    return 0


def wires(model):
    args = []

    def factory(*a, **k):
        args.append((k.get('port', a[0] if a else None), k.get('baudrate', a[1] if len(a) > 1 else None)))
        model.port.timeout = k.get('timeout', None)
        return model.port
    V.set_serial(factory)
    return args


def out(n=0):
    return ''.join(V.stdout.parts[n:])


def send(p):
    model = mdm.Modem('generic')
    box = Box(model)
    inner = box.dev
    sim = p.get('sim')
    st = {'locked': sim is not None}
    args = wires(model)
    pins = []
    dest = V.str('dest', p['digits'], '0123456789')
    text = V.str('text', p['n'], [(0x20, 0x23), (0x25, 0x3F), (0x41, 0x5A), (0x61, 0x7A)])
    status = V.int('status', 0, 255) if p['report'] == 'status' else 0
    csq = V.int('csq', 1, 31)

    def dev(d):
        if d == 'AT+CPIN?\r':
            return ['+CPIN: SIM PIN' if st['locked'] else '+CPIN: READY', 'OK']
        if d.startswith('AT+CPIN='):
            pins.append(d)
            if d == 'AT+CPIN="%s"\r' % sim:
                st['locked'] = False
                return ['OK']
            return ['+CME ERROR: 16']
        if d == 'AT+CREG?\r':
            model.cmds.append('AT+CREG?')
            return ['+CREG: 0,%d' % p['creg'], 'OK']
        if d == 'AT+CSQ\r':
            return ['+CSQ: ' + str(csq) + ',99', 'OK']
        return inner(d) if 'AT+CREG?' in model.cmds else None
    model.hook = dev

    def onsend(k, a, b):
        if p['report'] == 'refused':
            return ['+CMS ERROR: 38']
        lines = ['+CMGS: 7', 'OK']
        if p['report'] == 'status':
            ts = smsbox.Msg()
            ts.f, ts.q = [21, 3, 14, 15, 16, 5], 8
            box.put('SR', 3, smsbox.pdu_entry(0, smsbox.pdu_report(7, [1, 2], True, ts, ts, status)))
            lines.append('+CDSI: "SR",3')
        return lines
    box.onsend = onsend
    V.set_input(lambda: text)
    argv = []
    if p['port']:
        argv += [p.get('iopt', '-i'), 'DEV']
    if p.get('baud'):
        argv += ['-b', p['baud']]
    if p.get('pin'):
        argv += ['-p', p['pin']]
    if p.get('deliver'):
        argv += ['-d']
    rc = run('sendsms', argv + ['DEST'], {'DEST': dest})
    o = out()
    if not p['port']:
        V.reach('noport')
        V.check(rc == 1 and args == [] and V.stderr.parts != [], 'without a port nothing is opened')
        return
    V.check(args[0][0] == 'DEV' and int(args[0][1]) == int(p.get('baud', 115200)), 'the port given is opened')
    good = 'Message sent' in o
    if sim is not None and p.get('pin') != sim:
        V.reach('badpin' if p.get('pin') else 'nopin')
        V.check(rc == 1 and V.stderr.parts != [] and not good, 'the PIN is asked for')
        V.check(len(pins) == (1 if p.get('pin') else 0), 'a PIN is tried once')
        V.check(box.sent == [], 'nothing is sent')
        return
    if sim is not None:
        V.check(len(pins) == 1, 'the PIN is used')
    else:
        V.check(pins == [], 'a PIN is not needed')
    if p['creg'] not in (1, 5):
        V.reach('nocover')
        V.check(rc == 1 and box.sent == [] and not good, 'nothing is sent without network')
        V.check(model.port.closed, 'the port is closed')
        return
    V.check(len(box.sent) == 1, 'the text is sent once')
    pdu = smsbox.unhex(box.sent[0][1])
    # no service centre, SMS-SUBMIT, reference, address, protocol, coding, [validity], text
    la = (p['digits'] + 1) // 2
    V.check(pdu[0] == 0 and pdu[1] & 3 == 1, 'a message is submitted')
    V.check(pdu[3] == p['digits'] and pdu[5:5 + la] == spec.address([ord(c) - 48 for c in dest], False)[2:], 'to the destination')
    vp = {0: 0, 2: 1, 1: 7, 3: 7}[V.conc((pdu[1] >> 3) & 3)]
    body = pdu[5 + la + 2 + vp:]
    codes = spec.enc7(text)
    V.check(body == [len(codes)] + spec.pack(codes), 'with the text typed')
    V.check(bool(pdu[1] & 0x20) or not p.get('deliver'), 'a report is requested')
    if p['report'] == 'refused':
        V.reach('refused')
        V.check(rc != 0 and not good, 'a refused message is not reported as sent')
        return
    ok = 'delivered OK' in o
    if not p.get('deliver'):
        V.reach('sent')
        V.check(rc == 0 and good, 'the message is reported as sent')
        V.check(not ok, 'and not as delivered')
    elif p['report'] is None:
        V.reach('noreport')
        V.check(rc == 1 and not ok, 'without a report the message is not reported as delivered')
    else:
        V.reach('delivered' if V.conc(status == 0) else 'failed')
        V.check(ok == (status == 0), 'a message is reported as delivered if it was')
        V.check(good, 'and as sent')
    V.check(model.port.closed, 'the port is closed')


INFO = (('AT+CGMI', 'Manufacturer'), ('AT+CGMM', 'Model'), ('AT+CGMR', 'Revision'), ('AT+CGSN', 'IMEI'), ('AT+CIMI', 'IMSI'))
DEBUG = ('ATI', 'AT+CGMI', 'AT+CGMM', 'AT+CGMR', 'AT+CFUN=?', 'AT+WIND=?', 'AT+CNMI=?', 'AT+CVHU=?', 'AT+CSMP?', 'AT+GCAP')


def identify(p):
    model = mdm.Modem('wavecom')
    args = wires(model)
    st = {'on': False}
    ans = {}
    if p['debug']:
        for c in p['which']:
            ans[c] = [V.str(c, p['n'], [(0x61, 0x7A)]), 'OK'] if V.bool('ok' + c) else [V.pick('e' + c, ['ERROR', '+CME ERROR: 3'])]
    else:
        for c, w in INFO:
            ans[c] = [V.str(c, p['n'], [(0x61, 0x7A)]), 'OK']
        csq = V.int('csq', 1, 31)
        op = V.str('op', p['n'], [(0x61, 0x7A)])
        ans['AT+COPS?'] = ['+COPS: 0,0,"' + op + '",2', 'OK']
        ans['AT+CSQ'] = ['+CSQ: ' + str(csq) + ',99', 'OK']
    model.hook = lambda d: ans.get(d[:-1])
    rc = run('identify-modem', ['DEV'] + (['-d'] if p['debug'] else []) + ['-b', '9600'])
    V.check(rc == 0 and args[0][0] == 'DEV' and int(args[0][1]) == 9600, 'the modem is identified')
    lines = out().split('\n')
    if p['debug']:
        V.reach('debug')
        for c in p['which']:
            l = [x for x in lines if x.startswith(c)]
            V.check(len(l) == 1, 'every query is shown')
            for a in ans[c]:
                V.check(("'" + a + "'") in l[0], 'with its answer')
    else:
        V.reach('info')
        for c, w in INFO:
            V.check([x for x in lines if x.startswith(w + ':')] == [w + ': ' + ans[c][0]], 'what the modem answers is shown')
        V.check('Network: ' + op in lines, 'the network is shown')
        V.check('Signal strength: ' + str(csq) in lines, 'the signal strength is shown')


def term(p):
    model = mdm.Modem('generic')
    args = wires(model)
    keys = [V.char('k', (33, 126)), '\x1d']
    V.assume(keys[0] != '?')

    def read(fd, n):
        if not keys:
            V.sched.block(lambda: False, None)
        return keys.pop(0)
    V.set_os_read(read)
    k = keys[0]
    V.reach('term')
    rc = run('gsmterm', ['DEV'] + (['-r'] if p['raw'] else []) + (['--baud', '9600'] if p['baud'] else []))
    V.check(rc == 0, 'the terminal ends with its exit key')
    V.check(args[0][0] == 'DEV' and int(args[0][1]) == (9600 if p['baud'] else 115200), 'the port given is opened')
    time.sleep(3)
    V.check(model.port.closed, 'and closed')
    V.check(model.log == ([k] if p['raw'] else []), 'raw mode passes keys on, the other edits lines')


def jobs(tier):
    q = tier == 'quick'
    n = 3 if q else 6
    j = []

    def s(name, **k):
        d = {'n': 2, 'digits': 2, 'port': True, 'creg': 1, 'report': None}
        d.update(k)
        j.append(('send-' + name, 'send', d))
    for i in range(0, n + 1):
        s('text%d' % i, n=i, digits=3)
    for i in (1, 2, 3):
        s('dest%d' % i, digits=i, n=1, deliver=True, report='status')
    s('noport', port=False)
    s('noport-d', port=False, deliver=True)
    s('baud', baud='9600', iopt='--port', creg=5)
    for pin in (None, '1234', '0000'):
        s('pin-%s' % pin, sim='1234', pin=pin)
        s('pin-ready-%s' % pin, pin=pin, deliver=True, report='status')
    for c in (2, 4):
        s('creg%d' % c, creg=c)
    for d in (False, True):
        for r in (None, 'status', 'refused'):
            s('report-%s-%s' % (d, r), deliver=d, report=r)
    for k in range(0, len(DEBUG), 3):
        j.append(('identify-debug-%d' % k, 'identify', {'debug': True, 'which': DEBUG[k:k + 3], 'n': 2 if q else 4}))
    j.append(('identify', 'identify', {'debug': False, 'n': 2 if q else 4}))
    for r in (False, True):
        for b in (False, True):
            j.append(('term-%d-%d' % (r, b), 'term', {'raw': r, 'baud': b}))
    return j
