import time
import vlib as V
from harness import mdm
from harness.port import Port
from gsmmodem.modem import GsmModem
from gsmmodem.exceptions import CommandError, CmeError, TimeoutException, PinRequiredError, IncorrectPinError

BOUNDS = {'quick': 'every PIN of 4 digits against every SIM PIN, none, on modems that ask for it, refuse everything else until then, or end the PIN query without OK; per modem family, every subset of the '
                   'optional commands rejected (in 4 overlapping groups of 5, the rest accepted or rejected together), each with a plain or extended error; every kind of memory list; every service centre number of 1..4 '
                   'digits, kept or forgotten by the modem when text parameters are set; both message formats',
          'thorough': 'groups of 8; PINs of up to 8 digits; numbers of up to 8 digits'}
OUTSIDE = 'modems that answer a query with OK but without the queried value; a SIM that asks for anything other than its PIN; busy answers (P18)'
ASSUMPTIONS = ['optional commands: CFUN, CLAC, CVOICE, USSDMODE, WIND, CGMI, ZPAS, COPS, CSCA, CSMP, CPMS, CNMI, CLIP, CRC, CVHU; a modem that forgets its service centre number accepts it again']
EXPECT = ('ready', 'unlocked', 'required', 'incorrect', 'connected', 'noclip', 'nocrc', 'nosms', 'restored', 'usercsca', 'textmode', 'switched')
BUDGET = {'thorough': 2400}


def modem(model, **kw):
    def factory(*a, **k):
        model.port.timeout = k.get('timeout', None)
        return model.port
    V.set_serial(factory)
    return GsmModem('dev', 9600, **kw)


def digits(name, n):
    return V.str(name, n, '0123456789')


def pin(p):
    """every PIN given against every PIN of the SIM"""
    style = p['style']
    model = mdm.Modem(p['family'])
    locked = V.bool('locked')
    sim = digits('sim', p['n'])
    given = digits('given', p['n']) if p['given'] else None
    st = {'locked': locked}
    subs = []
    bad = V.pick('bad', ['+CME ERROR: 16', '+CME ERROR: 16', '+CME ERROR: 3'])

    def dev(d):
        if d == 'AT+CPIN?\r':
            if st['locked']:
                return ['+CPIN: SIM PIN'] + (['OK'] if style != 'wavecom' else [])
            return ['+CPIN: READY'] + (['OK'] if style != 'wavecom' else [])
        if d.startswith('AT+CPIN="'):
            subs.append(d)
            if d == 'AT+CPIN="' + sim + '"\r':
                st['locked'] = False
                return ['OK']
            return [bad]
        if st['locked'] and style == 'strict' and d not in ('AT+CMEE=1\r', 'ATE0\r'):
            return [V.pick('lockerr', ['+CME ERROR: 11', 'ERROR'])] if d == 'ATZ\r' else ['+CME ERROR: 11']
        return None
    model.hook = dev
    m = modem(model)
    exc = None
    try:
        m.connect(given)
    except (CommandError, TimeoutException) as e:
        exc = e
    if not locked:
        V.reach('ready')
        V.check(exc is None, 'connecting succeeds')
        V.check(subs == [], 'a PIN is never submitted to a SIM that is ready')
    elif given is None:
        V.reach('required')
        V.check(isinstance(exc, PinRequiredError), 'without a PIN the PIN-required error is raised')
        V.check(subs == [], 'and nothing is submitted')
    else:
        V.check(subs == ['AT+CPIN="' + given + '"\r'], 'the PIN is submitted exactly once')
        if given == sim:
            V.reach('unlocked')
            V.check(exc is None, 'connecting succeeds')
            V.check(not st['locked'], 'with the SIM unlocked')
        else:
            V.reach('incorrect')
            V.check(isinstance(exc, CmeError), 'a wrong PIN surfaces')
            if bad == '+CME ERROR: 16':
                V.check(isinstance(exc, IncorrectPinError), 'as the incorrect-PIN error')
    mdm.fine()
    m.close()


# the optional commands, as the first word of the command line
OPT = ['AT+CFUN?', 'AT+CFUN=1', 'AT+CLAC', 'AT^CVOICE=0', 'AT^USSDMODE=0', 'AT+WIND?', 'AT+WIND=50', 'AT+CGMI', 'AT+ZPAS?', 'AT+COPS=3,0', 'AT+CSCA?', 'AT+CSMP', 'AT+CPMS=?', 'AT+CPMS="', 'AT+CNMI', 'AT+CLIP=1', 'AT+CRC=1', 'AT+CVHU=0']
GROUPS = [[2, 3, 4, 5, 7], [5, 6, 7, 8, 2], [10, 11, 12, 13, 14], [13, 14, 15, 16, 17], [0, 1, 9, 15, 16]]
GROUPS8 = [[2, 3, 4, 5, 6, 7, 8, 9], [10, 11, 12, 13, 14, 15, 16, 17], [0, 1, 5, 6, 7, 8, 15, 16]]
MEMS = ['("ME","SM"),("ME","SM"),("ME","SM")', '("SM"),("SM"),("SM","SR")', '("SM","BM","SR"),("SM")', '("MT","ME"),("ME")', '(),(),()', '"SM","SM","SM"']


def optional(p):
    """whatever optional commands the modem rejects"""
    model = mdm.Modem(p['family'])
    rej = {}
    for i, o in enumerate(OPT):
        rej[o] = V.bool('rej%d' % i) if i in p['group'] else p['rest']
    err = V.pick('err', ['ERROR', '+CME ERROR: 3', 'COMMAND NOT SUPPORT'])
    text = p['text']
    state = {'fmt': None, 'csca': '+2761', 'echo': 1}
    forget = p['forget']
    cfun = V.int('cfun', 0, 255) if 0 in p['group'] else 1
    wind = V.pick('wind', [50, 0]) if 6 in p['group'] else 50
    seen = []

    def dev(d):
        c = d[:-1]
        for o in OPT:
            if c.startswith(o):
                if o not in seen:
                    seen.append(o)
                if rej[o]:
                    return [err if not o.startswith('AT+CSCA') else '+CMS ERROR: 330' if p['csca330'] else err]
                break
        if c == 'AT+CFUN?':
            return ['+CFUN: ' + str(cfun), 'OK']
        if c == 'AT+WIND?' and model.family == 'wavecom':
            return ['+WIND: %d' % wind, 'OK']
        if c.startswith('AT+CMGF='):
            state['fmt'] = c[8:]
            return ['OK']
        if c.startswith('AT+CSMP') and forget:
            state['csca'] = ''
            return ['OK']
        if c == 'AT+CSCA?':
            return ['+CSCA: "%s",145' % state['csca'], 'OK']
        if c.startswith('AT+CSCA='):
            state['csca'] = c[9:-1]
            return ['OK']
        return None
    model.hook = dev
    got = []
    m = modem(model, incomingCallCallbackFunc=got.append)
    m.smsTextMode = text
    try:
        m.connect()
    except (CommandError, TimeoutException) as e:
        V.check(False, 'connecting succeeds whichever optional commands are rejected')
        return
    V.reach('connected')
    V.check(m.alive, 'the modem is connected')
    n = model.log.count('AT+CFUN=1\r')
    if not rej['AT+CFUN?'] and cfun != 1:
        V.reach('switched')
        V.check(n == 1, 'a modem in another mode is switched to full functionality')
    else:
        V.check(n == 0, 'the functionality is not switched without need')
    for c, f in (('AT^CVOICE=0\r', 'huawei'), ('AT^USSDMODE=0\r', 'huawei2')):
        V.check(model.log.count(c) == (1 if p['family'] == f and not rej['AT+CLAC'] else 0), 'voice calls and text-mode USSD are enabled if the modem lists the command for it')
    V.check(state['fmt'] == ('1' if text else '0'), 'the message format matches the selected mode')
    if text:
        V.reach('textmode')
    if not rej['AT+CSCA?']:
        V.check(state['csca'] == '+2761', 'the service centre number is unchanged at the end')
        if forget and not rej['AT+CSMP']:
            V.reach('restored')
    # features off
    sms = not (rej['AT+CPMS=?'] or rej['AT+CPMS="'] or rej['AT+CNMI'])
    V.check(m._smsReadSupported == sms if not rej['AT+CPMS=?'] and not rej['AT+CPMS="'] else not m._smsReadSupported, 'message reading is available exactly if supported')
    if not sms:
        V.reach('nosms')
    clip = not rej['AT+CLIP=1']
    crc = clip and not rej['AT+CRC=1']
    model.hook = None
    del model.cmds[:]
    mdm.notify(model, ['+CRING: VOICE' if crc else 'RING'] + (['+CLIP: "55",129'] if clip else []))
    V.check(len(got) == 1 and got[0].number == ('55' if clip else None), 'calls are announced with what is supported')
    V.check(model.cmds == [], 'and nothing else is requested')
    if not clip:
        V.reach('noclip')
    elif not crc:
        V.reach('nocrc')
    mdm.fine()
    m.close()


def memory(p):
    """every kind of memory list"""
    model = mdm.Modem('generic')
    mem = p['mem']
    model.t['AT+CPMS=?'] = ['+CPMS: ' + mem, 'OK']
    m = modem(model)
    m.connect()
    sets = [c for c in model.cmds if c.startswith('AT+CPMS="')]
    items = mem.split('),(')
    want = []
    for it in items:
        for t in ('"ME"', '"SM"', '"SR"'):
            if t in it:
                want.append(t)
                break
        else:
            want.append('')
    if mem == '(),(),()':
        V.check(all(w == '""' or w == '' for w in want) and m.alive, 'connecting succeeds without message memory')
    else:
        V.check(sets == ['AT+CPMS=' + ','.join(want)], 'the preferred supported memory is selected once')
    V.reach('connected')
    mdm.fine()
    m.close()


def centre(p):
    """the service centre number, the modem's or the one selected"""
    model = mdm.Modem(p['family'])
    num = V.bool('plus')
    own = ('+' if num else '') + digits('own', p['n'])
    user = digits('user', p['n']) if p['user'] else None
    state = {'csca': own}
    forget = V.pick('forget', ['', 'at'])

    def dev(d):
        if d == 'AT+CSCA?\r':
            return ['+CSCA: "' + state['csca'] + '",145', 'OK']
        if d.startswith('AT+CSCA="'):
            state['csca'] = d[9:-2]
            return ['OK']
        if d.startswith('AT+CSMP') and forget:
            state['csca'] = ''
            return ['OK']
        return None
    model.hook = dev
    m = modem(model)
    if user is not None:
        m.smsc = user
    m.connect()
    V.reach('connected')
    want = user if user is not None else own
    if user is not None:
        V.reach('usercsca')
    V.check(state['csca'] == want, 'the service centre number is the one selected, or unchanged')
    n = len(model.log)
    V.check(m.smsc == want, 'and known')
    V.check(len(model.log) == n, 'without another query')
    mdm.fine()
    m.close()


def again(p):
    """closing and connecting again"""
    model = mdm.Modem(p['family'])
    subs = []
    st = {'locked': True}

    def dev(d):
        if d == 'AT+CPIN?\r':
            return ['+CPIN: SIM PIN' if st['locked'] else '+CPIN: READY', 'OK']
        if d.startswith('AT+CPIN="'):
            subs.append(d)
            st['locked'] = False
            return ['OK']
    model.hook = dev
    m = modem(model)
    relock = V.bool('relock')
    m.connect('1234')
    m.close()
    st['locked'] = relock
    model.port = Port()
    model.port.onwrite = model.written
    m.connect('1234')
    V.check(subs == ['AT+CPIN="1234"\r'] * (1 + relock), 'the PIN is submitted exactly when the SIM asks for it')
    V.check(m.alive, 'the modem is connected')
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for style in ('normal', 'strict', 'wavecom'):
        for g in (True, False):
            for n in ((4,) if q else (4, 6, 8)):
                j.append(('pin-%s-%d-%d' % (style, g, n), 'pin', {'style': style, 'given': g, 'n': n, 'family': 'wavecom' if style == 'wavecom' else 'huawei'}))
    for f in mdm.FAMILIES:
        for gi, g in enumerate(GROUPS if q else GROUPS8):
            for rest in (False, True):
                j.append(('optional-%s-%d-%d' % (f, gi, rest), 'optional', {'family': f, 'group': g, 'rest': rest, 'text': bool((gi + rest) % 2), 'forget': gi % 2 == 0, 'csca330': rest}))
    for f in ('huawei2', 'ztevts', 'windvts'):
        j.append(('optional-%s' % f, 'optional', {'family': f, 'group': [2, 3, 4, 5], 'rest': False, 'text': False, 'forget': False, 'csca330': False}))
    for i, mm in enumerate(MEMS):
        j.append(('memory-%d' % i, 'memory', {'mem': mm}))
    for u in (True, False):
        for n in range(1, (4 if q else 8) + 1):
            j.append(('centre-%d-%d' % (u, n), 'centre', {'family': 'generic', 'user': u, 'n': n}))
    for f in mdm.FAMILIES:
        j.append(('again-' + f, 'again', {'family': f}))
    return j
