"""A model of the modem behind the port: answers commands from a table, by family, and records them."""
import vlib as V
from harness.port import Port
from gsmmodem.modem import GsmModem

CLAC = {'huawei': '+CLAC:&C,^CVOICE,^DTMF,+CSQ', 'huawei2': '+CLAC:^USSDMODE,^DTMF', 'vts': '+CLAC: +CSQ,+VTS,D',
        'windvts': '+CLAC: +WIND,+VTS', 'ztevts': '+CLAC: +ZPAS,+VTS'}
# huawei: by its command list; huaweiman: by its manufacturer; wavecom, zte: by the answer to a query; generic: polled
KIND = {'huawei2': 'huawei', 'ztevts': 'zte', 'windvts': 'wavecom'}
FAMILIES = ('generic', 'huawei', 'huaweiman', 'wavecom', 'zte')


class Modem(object):
    def __init__(self, family='generic', **replies):
        self.port = Port()
        self.port.onwrite = self.written
        self.log = []            # every write, as given
        self.cmds = []           # the commands, without CR
        self.connected = False
        self.family = family
        self.hook = None         # fn(data) -> list of lines, a text, or None to use the table
        self.prompt = None       # what follows after a prompt: fn(data)
        self.t = {}
        t = self.t
        t['AT+CFUN?'] = ['+CFUN: 1', 'OK']
        t['AT+CPIN?'] = ['+CPIN: READY', 'OK']
        t['AT+CLAC'] = [CLAC[family], 'OK'] if family in CLAC else ['ERROR']
        t['AT+WIND?'] = ['+WIND: 50', 'OK'] if family == 'wavecom' else ['ERROR']
        t['AT+CGMI'] = ['huawei', 'OK'] if family == 'huaweiman' else ['ACME', 'OK']
        t['AT+ZPAS?'] = ['+ZPAS: "x","y"', 'OK'] if family == 'zte' else ['ERROR']
        t['AT+CSCA?'] = ['+CSCA: "+27",145', 'OK']
        t['AT+CPMS=?'] = ['+CPMS: ("ME","SM"),("ME","SM"),("ME","SM")', 'OK']
        for k in replies:
            t[k] = replies[k]

    def written(self, data):
        self.log.append(data)
        if self.hook is not None:
            r = self.hook(data)
            if r is not None:
                self.reply(r)
                return
        cmd = data[:-1]
        self.cmds.append(cmd)
        self.reply(self.t.get(cmd, ['OK']))

    def reply(self, r):
        if isinstance(r, list):
            for l in r:
                self.port.feed(l + '\r\n')
        else:
            self.port.feed(r)

    def since(self, n):
        return self.cmds[n:]


def attach(family='generic', pin=None, textmode=False, cls=GsmModem, prepare=None, **kw):
    """-> (modem, model) connected"""
    model = Modem(family)
    if prepare is not None:
        prepare(model)
    def factory(*a, **k):
        model.port.timeout = k.get('timeout', None)
        return model.port
    V.set_serial(factory)
    m = cls('dev', 9600, **kw)
    if textmode:
        m.smsTextMode = True
    m.connect(pin)
    V.sched.drain()
    model.log[:] = []
    model.cmds[:] = []
    return m, model


def notify(model, lines):
    """an unsolicited notification, handled completely"""
    for l in lines:
        model.port.feed('\r\n' + l + '\r\n')
    V.sched.drain()


def fine(errors=None):
    for name, e in V.sched.uncaught:
        V.check(False, 'no thread dies of an error')


# ------------------------------------------------------------------ calls, by family
def dial(m, model, number, cid=1, cb=None, settle=True):
    """dial and let the modem report the call as initiated"""
    f = KIND.get(model.family, model.family)
    old = model.hook

    def dev(data):
        if data.startswith('ATD'):
            model.cmds.append(data[:-1])
            if f in ('huawei', 'huaweiman'):
                return ['OK', '^ORIG:%d,0' % cid]
            if f == 'wavecom':
                return ['+WIND: 5,%d' % cid, '+WIND: 2']
            if f == 'generic':
                model.t['AT+CLCC'] = ['+CLCC: %d,0,2,0,0,"%s",129' % (cid, number), 'OK']
                return ['OK']
            return []
        return old(data) if old is not None else None
    model.hook = dev
    c = m.dial(number, callStatusUpdateCallbackFunc=cb)
    model.hook = old
    if settle:
        V.sched.drain()
    return c


def report(m, model, what, cid=1, number='1'):
    """the modem reports a dialled call as answered / ended / rejected, as its family does"""
    import time
    f = KIND.get(model.family, model.family)
    if f in ('huawei', 'huaweiman'):
        notify(model, {'answered': ['^CONN:%d,0' % cid], 'ended': ['^CEND:%d,5,29,16' % cid], 'rejected': ['^CEND:%d,0,21,16' % cid]}[what])
    elif f == 'wavecom':
        notify(model, {'answered': ['OK'], 'ended': ['NO CARRIER', '+WIND: 6,%d' % cid], 'rejected': ['BUSY', '+WIND: 6,%d' % cid]}[what])
    elif f == 'zte':
        notify(model, {'answered': ['CONNECT'], 'ended': ['HANGUP: %d' % cid], 'rejected': ['OK']}[what])
    else:
        model.t['AT+CLCC'] = ['+CLCC: %d,0,0,0,0,"%s",129' % (cid, number), 'OK'] if what == 'answered' else ['OK']
        time.sleep(1.1)
        V.sched.drain()
