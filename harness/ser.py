"""shared by the serial link harnesses"""
import vlib as V
from harness.port import Port
from gsmmodem.serial_comms import SerialComms


def link(notify=True, fatal=True, cls=None):
    """-> (comms, port, notifications, errors) connected"""
    ports = []
    port = Port()

    def factory(*a, **k):
        ports.append(1)
        port.timeout = k.get('timeout', None)
        return port
    V.set_serial(factory)
    got = []
    errors = []
    s = SerialComms('dev', 9600, notifyCallbackFunc=(lambda lines: got.append(list(lines))) if notify else None,
                    fatalErrorCallbackFunc=(lambda e: errors.append(e)) if fatal else None)
    s.connect()
    return s, port, got, errors


def flat(groups):
    r = []
    for g in groups:
        for x in g:
            r.append(x)
    return r


def same(a, b, msg):
    V.check(len(a) == len(b), msg)
    for x, y in zip(a, b):
        V.check(x == y, msg)


def split_lines(text):
    """complete non-empty lines of the text, and the rest"""
    lines = []
    cur = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        cur.append(c)
        i += 1
        if len(cur) >= 2 and cur[-1] == '\n' and cur[-2] == '\r':
            l = ''.join(cur[:-2])
            if len(l) > 0:
                lines.append(l)
            cur = []
    return lines, ''.join(cur)


def alive_reader():
    for name, e in V.sched.uncaught:
        V.check(False, 'no thread dies of an error')


NOEOL = [(0, 9), (11, 12), (14, 0x10FFFF)]
BYTES = [(0, 9), (11, 12), (14, 255)]      # characters of one octet, as a serial line carries them
