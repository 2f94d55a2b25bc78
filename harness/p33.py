import vlib as V
from harness.port import Port

BOUNDS = {'quick': 'every sequence of 4 editing keys (any printable character, cursor left/right, backspace, delete, home, end; an ignored key first) on a line of 3 typed characters, of 4 history and '
                   'editing keys after two entered lines of 2 and 3 arbitrary characters, and of 3 keys on an empty line; 101 entered lines; the local commands; 3 keys in an SMS text, empty or of 2..3 characters',
          'thorough': 'the same with 5 keys; 4 keys of all kinds on a line of 2 characters after an entered line; 4 keys after 100 entered lines; SMS text with 5 keys'}
OUTSIDE = 'longer key sequences; keys delivered several at a time by the console; tab completion (P34); terminal emulation of the escape sequences written to the screen'
ASSUMPTIONS = ['the console delivers one key per read, as native str', 'line editing jobs use a one-entry command table (the real one in the local- jobs)']
EXPECT = ('char', 'left', 'right', 'up', 'down', 'bs', 'del', 'home', 'end', 'enter', 'other', 'ctrlz', 'esc', 'sms', 'nosms')
BUDGET = {'thorough': 2400}

KINDS = ['char', 'left', 'right', 'up', 'down', 'bs', 'del', 'home', 'end', 'enter', 'other']


class Editor(object):
    """an ordinary line editor with a history"""

    def __init__(self):
        self.buf = []
        self.pos = 0
        self.history = []
        self.hpos = 0
        self.sent = []
        self.sms = False         # the text of a message is being typed

    def key(self, kind, ch):
        b = self.buf
        if kind == 'char':
            b.insert(self.pos, ch)
            self.pos += 1
        elif kind == 'left':
            self.pos = max(0, self.pos - 1)
        elif kind == 'right':
            self.pos = min(len(b), self.pos + 1)
        elif kind == 'home':
            self.pos = 0
        elif kind == 'end':
            self.pos = len(b)
        elif kind == 'bs':
            if self.pos > 0:
                self.pos -= 1
                b.pop(self.pos)
        elif kind == 'del':
            if self.pos < len(b):
                b.pop(self.pos)
        elif kind == 'up':
            if self.hpos > 0:
                self.hpos -= 1
                self.recall()
        elif kind == 'down':
            if self.hpos < len(self.history) - 1:
                self.hpos += 1
                self.recall()
        elif kind == 'enter' and self.sms:
            self.sent.append(''.join(b[:self.pos]))
            self.buf = b[self.pos:]
            self.pos = 0
        elif kind in ('ctrlz', 'esc'):
            if self.sms:
                self.sent.append(''.join(b) + '\x1a' if kind == 'ctrlz' else '\x1b')
                self.buf = []
                self.pos = 0
                self.sms = False
        elif kind == 'enter':
            line = ''.join(b)
            if line != '':
                self.history.append(line)
                self.history = self.history[-100:]
                self.hpos = len(self.history)
                self.sent.append(line + '\r')
            self.buf = []
            self.pos = 0

    def recall(self):
        self.buf = list(self.history[self.hpos])
        self.pos = len(self.buf)


def keycode(T, kind, ch):
    c = T.console
    return {'char': ch, 'left': c.CURSOR_LEFT, 'right': c.CURSOR_RIGHT, 'up': c.CURSOR_UP, 'down': c.CURSOR_DOWN,
            'bs': '\x7f', 'del': c.DELETE, 'home': c.HOME, 'end': c.END, 'enter': '\n', 'other': ch, 'ctrlz': '\x1a', 'esc': '\x1b'}[kind]


def start(color=False, raw=False):
    T = V.load('gsmtermlib.terminal')
    ports = []

    def factory(*a, **k):
        ports.append(Port(**k))
        return ports[-1]
    V.set_serial(factory)
    keys = []
    state = {'idle': True}

    def read(fd, n):
        if not keys:
            state['idle'] = True
            V.sched.block(lambda: len(keys) > 0, None)
        state['idle'] = False
        return keys.pop(0)
    V.set_os_read(read)
    t = T.RawTerm('dev', 9600) if raw else T.GsmTerm('dev', 9600, useColor=color)
    t.start()

    def press(k):
        """hand one key over and wait until it has been handled"""
        keys.append(k)
        state['idle'] = False
        V.sched.block(lambda: state['idle'] or not t.alive, 60)
        if not t.alive:
            for name, e in V.sched.uncaught:
                V.check(False, 'a key raised an error')
        V.check(V.Not(len(V.sched.uncaught) > 0), 'no key raises an error')
    return T, t, ports[0], press


def compare(t, m, port):
    V.check(''.join(t.inputBuffer) == ''.join(m.buf), 'the line is that of a line editor')
    V.check(t.cursorPos == m.pos, 'the cursor is where a line editor has it')
    V.check(''.join(port.log) == ''.join(m.sent), 'exactly the entered lines are sent')
    V.check(len(t.history) == len(m.history), 'the history has the entered lines')
    for a, b in zip(t.history, m.history):
        V.check(a == b, 'the history has the entered lines')


def special(line):
    """lines the terminal handles itself"""
    l = line.lower()
    return V.Or(l.startswith('help'), l.startswith('ls'), l.startswith('load'), l.startswith('at+cmgs='), line.startswith('?'), line.endswith('??'))


def typed(m, line, T, press):
    for i in range(len(line)):
        m.key('char', line[i])
        press(line[i])


def edit(p):
    # the help texts play no part in line editing, and loading them dominates the run time
    V.set_module('gsmtermlib.atcommands', ATCOMMANDS=[('AT', ('General', 'Attention'))], CATEGORIES=('General',))
    T, t, port, press = start()
    m = Editor()
    chars = (33, 126)
    if p.get('line'):
        typed(m, V.str('l', p['line'], chars), T, press)
    for i in range(p.get('hist', 0)):
        line = V.str('h%d' % i, 2 + i % 2, chars)
        V.assume(V.Not(special(line)))
        typed(m, line, T, press)
        m.key('enter', '')
        press('\n')
    if p.get('long'):
        for i in range(p['long']):
            for c in 'C%d' % i:
                m.key('char', c)
                press(c)
            m.key('enter', '')
            press('\n')
    kinds = p['kinds']
    for i in range(p['n']):
        kind = V.pick('key%d' % i, kinds) if i or p.get('first') is None else p['first']
        ch = ''
        if kind == 'char':
            ch = V.char('c%d' % i, chars)
        elif kind == 'other':
            ch = V.pick('o%d' % i, ['\x00', '\x1bZ', '\x01', '\x80', 'ab', ''])
        V.reach(kind)
        if kind == 'enter':
            line = ''.join(m.buf)
            V.assume(V.Not(special(line)))
        m.key(kind, ch)
        press(keycode(T, kind, ch))
        V.check(V.And(t.cursorPos >= 0, t.cursorPos <= len(t.inputBuffer)), 'the cursor is inside the line')
        if p.get('each'):
            compare(t, m, port)
    V.observe('line', ''.join(t.inputBuffer))
    V.observe('pos', t.cursorPos)
    compare(t, m, port)
    t.alive = False


def local(p):
    """lines handled by the terminal itself: nothing is sent, nothing is raised"""
    T, t, port, press = start(p.get('color', False))
    V.add_file('cmds', 'AT\n# comment\n\nATI\n')
    line = p.get('pre', '') + V.str('x', p.get('n', 0), (32, 126)) + p.get('post', '')
    if p.get('n'):
        V.assume(special(line.strip()))
        V.assume(V.Not(line.lower().startswith('at+cmgs=')))
    for c in line:
        press(c)
    press('\n')
    V.check(''.join(t.inputBuffer) == '', 'the line is empty after enter')
    V.check(t.cursorPos == 0, 'the cursor is at the start after enter')
    if 'sent' in p:
        V.check(''.join(port.log) == p['sent'], 'what is sent')
    V.check(t.history[-1] == line.strip() or p.get('sent'), 'the history has the line')
    press('A')
    V.check(''.join(t.inputBuffer) == 'A', 'typing goes on')
    t.alive = False


def sms(p):
    """entering a text message"""
    T, t, port, press = start(p.get('color', False))
    reply = V.bool('prompt')

    def onwrite(data):
        if data.endswith('\r') and data.lower().startswith('at+cmgs') and reply:
            port.feed('\r\n> ')
    port.onwrite = onwrite
    m = Editor()
    line = p.get('cmd', 'AT+CMGS="1"')
    typed(m, line, T, press)
    m.key('enter', '')
    press('\n')
    m.sms = reply
    V.reach('sms' if reply else 'nosms')
    if p.get('line'):
        typed(m, V.str('l', p['line'], (33, 126)), T, press)
    kinds = p.get('kinds', ['char', 'left', 'right', 'bs', 'enter', 'ctrlz', 'esc'])
    for i in range(p['n']):
        kind = V.pick('key%d' % i, kinds)
        ch = V.char('c%d' % i, (33, 126)) if kind == 'char' else ''
        V.reach(kind)
        if kind == 'enter' and not m.sms:
            V.assume(V.Not(special(''.join(m.buf))))
        m.key(kind, ch)
        press(keycode(T, kind, ch))
        V.check(V.And(t.cursorPos >= 0, t.cursorPos <= len(t.inputBuffer)), 'the cursor is inside the line')
    V.observe('line', ''.join(t.inputBuffer))
    compare(t, m, port)
    t.alive = False


def jobs(tier):
    q = tier == 'quick'
    j = []
    ED = ['char', 'left', 'right', 'bs', 'del', 'home', 'end']
    HI = ['up', 'down', 'bs', 'left', 'char', 'enter']
    n = 4 if q else 5
    for f in KINDS:
        if f == 'other':
            j.append(('line-other', 'edit', {'n': 3, 'line': 3, 'kinds': ED, 'first': f}))
            j.append(('hist-other', 'edit', {'n': 2, 'hist': 2, 'kinds': HI, 'first': f}))
            continue
        j.append(('empty-' + f, 'edit', {'n': 3 if q else 5, 'kinds': ['char', 'left', 'right', 'bs', 'del', 'enter', 'up', 'home'], 'first': f}))
        if f in ED:
            j.append(('line-' + f, 'edit', {'n': n, 'line': 3, 'kinds': ED, 'first': f}))
        if f in HI:
            j.append(('hist-' + f, 'edit', {'n': n, 'hist': 2, 'kinds': HI, 'first': f}))
    if not q:
        for f in KINDS:
            j.append(('all-' + f, 'edit', {'n': 4, 'line': 2, 'hist': 1, 'kinds': KINDS, 'first': f}))
        j.append(('long-up', 'edit', {'n': 4, 'long': 100, 'kinds': ['up', 'down', 'enter', 'char'], 'first': 'up'}))
    j.append(('long', 'edit', {'n': 2, 'long': 101, 'kinds': ['up', 'down', 'enter'], 'first': 'up'}))
    for l, s in (('help', ''), ('ls', ''), ('lscat', ''), ('ls General', ''), ('ls nothing', 'ls nothing\r'), ('?AT', ''), ('AT??', ''), ('AT+CMGF=??', ''), ('help AT+CMGF', ''), ('?', '?\r'),
                 ('load', 'load\r'), ('load nofile', ''), ('load cmds', 'AT\rATI\r'), ('help zz', ''), ('  ', None), ('HELP', ''), ('???', ''), ('=??', ''), ('lsx', 'lsx\r')):
        d = {'pre': l}
        if l.strip() and s is not None:
            d['sent'] = s
            j.append(('local-' + l, 'local', d))
    for pre, post in (('?', ''), ('', '??'), ('help ', ''), ('ls ', ''), ('', '')):
        for k in ((1, 2) if q else (1, 2, 3)):
            if pre or post or k > 1:
                j.append(('local-%s-%d-%s' % (pre, k, post), 'local', {'pre': pre, 'post': post, 'n': k}))
    j.append(('sms', 'sms', {'n': 3 if q else 5}))
    j.append(('sms-line', 'sms', {'n': 3 if q else 5, 'line': 3}))
    j.append(('sms-all', 'sms', {'n': 2 if q else 3, 'line': 2, 'kinds': ['char', 'left', 'home', 'end', 'del', 'bs', 'up', 'down', 'enter', 'ctrlz', 'esc']}))
    j.append(('sms-pdu', 'sms', {'n': 2, 'line': 2, 'cmd': 'at+cmgs=20'}))
    j.append(('sms-color', 'sms', {'n': 2, 'color': True}))
    return j
