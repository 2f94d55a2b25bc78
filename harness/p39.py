import time
import vlib as V
from harness import p33
from harness.port import Port

BOUNDS = {'quick': 'every sequence of 3 editing keys (any printable character, cursor left/right, backspace, delete, home, end) on a line of 3 arbitrary characters and of 3 history and editing keys after two entered lines of 2 and 3 '
                   'characters, with 0..2 lines of 1..4 arbitrary characters from the modem between any two of them, with and without colours; completion of every line of 1..2 arbitrary characters against small tables; '
                   'the text of a message (2 characters and 2 keys, sent, cancelled or unfinished); raw mode: 3 arbitrary keys',
          'thorough': '4 keys; lines of 3 characters completed; message texts with 4 keys; raw mode: 5 keys'}
OUTSIDE = 'lines wider than the screen; a key pressed while the terminal is printing; the layout of the help texts'
ASSUMPTIONS = p33.ASSUMPTIONS + ['the screen understands carriage return, line feed, cursor left and right, erasing to the end of the line and colours, and has no right edge']
EXPECT = ('char', 'left', 'right', 'up', 'down', 'bs', 'del', 'home', 'end', 'enter', 'modem', 'error', 'several', 'single', 'sms', 'ctrlz', 'esc', 'note', 'raw', 'exit')
BUDGET = {'thorough': 2400}
CHARS = (33, 126)


class Screen(object):
    """what the terminal's user sees"""

    def __init__(self):
        self.rows = [[]]
        self.row = 0
        self.col = 0
        self.taken = 0
        self.esc = None

    def update(self):
        parts = V.stdout.parts
        while self.taken < len(parts):
            for c in parts[self.taken]:
                self.put(c)
            self.taken += 1

    def put(self, c):
        if self.esc is not None:
            self.esc += c
            if len(self.esc) > 1 and c.isalpha():
                if c == 'D':
                    self.col = max(0, self.col - 1)
                elif c == 'C':
                    self.col += 1
                elif c == 'K':
                    del self.rows[self.row][self.col:]
                else:
                    V.check(c == 'm', 'only cursor and colour sequences are written')
                self.esc = None
        elif c == '\x1b':
            self.esc = ''
        elif c == '\r':
            self.col = 0
        elif c == '\n':
            self.row += 1
            self.col = 0
            if self.row == len(self.rows):
                self.rows.append([])
        else:
            r = self.rows[self.row]
            while len(r) <= self.col:
                r.append(' ')
            r[self.col] = c
            self.col += 1


def shows(cells, text, what):
    """a row of the screen shows a text"""
    n = max(len(cells), len(text))
    for i in range(n):
        a = cells[i] if i < len(cells) else ' '
        b = text[i] if i < len(text) else ' '
        V.check(a == b, what)


class World(object):
    def __init__(self, color=False, table=None):
        V.set_module('gsmtermlib.atcommands', ATCOMMANDS=table or [('AT', ('General', 'Attention'))], CATEGORIES=('General',))
        self.T, self.t, self.port, self.press_ = p33.start(color)
        V.sched.drain()
        self.s = Screen()
        self.s.update()
        self.prompt = 'GSM> '
        self.m = p33.Editor()
        self.edited()

    def press(self, k):
        self.press_(k)
        self.s.update()

    def edited(self):
        """the line being edited is on the screen"""
        s = self.s
        V.check(s.row == len(s.rows) - 1, 'the line is edited on the last row')
        shows(s.rows[s.row], self.prompt + ''.join(self.m.buf), 'the screen shows the line being edited')
        V.check(s.col == len(self.prompt) + self.m.pos, 'and the cursor')

    def key(self, kind, tag):
        ch = V.char(tag, CHARS) if kind == 'char' else ''
        V.reach(kind)
        s = self.s
        if kind == 'enter':
            V.assume(V.Not(p33.special(''.join(self.m.buf))))
            line = ''.join(self.m.buf)
            row = s.row
            self.m.key('enter', '')
            self.press('\n')
            shows(s.rows[row], self.prompt + line, 'the line entered stays on the screen')
            V.check(V.And(s.row == row + 1, s.row == len(s.rows) - 1, s.col == 0), 'a new row is started')
            shows(s.rows[s.row], '', 'a new row is started')
            return
        self.m.key(kind, ch)
        self.press(p33.keycode(self.T, kind, ch))
        self.edited()

    def modem(self, lines):
        """the modem sends lines"""
        s = self.s
        row = s.row
        self.port.feed(''.join(['\r\n' + l + '\r\n' for l in lines]))
        V.sched.drain()
        s.update()
        for i in range(len(lines)):
            shows(s.rows[row + i], lines[i], 'every line of the modem is shown, in order')
        V.check(s.row == row + len(lines), 'every line of the modem is shown once')
        self.edited()

    def typed(self, text):
        for c in text:
            self.m.key('char', c)
            self.press(c)


def arrives(w, tag, p):
    k = V.choice(tag + 'n', p['lines'] + 1)
    if k:
        V.reach('modem')
        lines = []
        for i in range(k):
            n = p['len'] if i else V.pick(tag + 'l', [1, p['len']])
            lines.append(V.str('%s%d' % (tag, i), n, CHARS))
        if V.conc(lines[-1] == 'ERROR'):
            V.reach('error')
        w.modem(lines)


def edit(p):
    w = World(p.get('color', False))
    if p.get('line'):
        w.typed(V.str('l', p['line'], CHARS))
        w.edited()
    for i in range(p.get('hist', 0)):
        line = V.str('h%d' % i, 2 + i % 2, CHARS)
        V.assume(V.Not(p33.special(line)))
        w.typed(line)
        w.key('enter', '')
        w.modem([p.get('answer', 'OK')])
    at = V.choice('at', p['n'] + 1) if p['lines'] else -1
    for i in range(p['n'] + 1):
        if i == at:
            arrives(w, 'm', p)
        if i < p['n']:
            kind = V.pick('key%d' % i, p['kinds']) if i or p.get('first') is None else p['first']
            w.key(kind, 'c%d' % i)
            if kind == 'enter':
                w.modem(['OK'])
    w.t.alive = False


def complete(p):
    names = p['names']
    w = World(p.get('color', False), [(k, ('General', 'x', (('0', 'zero'),), None, 'y')) for k in names])
    line = p.get('pre', '') + V.str('x', p['n'], (32, 126))
    w.typed(line)
    for i in range(V.choice('left', 2)):
        w.key('left', '')
    w.edited()
    typed = line.strip().upper()
    k = len([c for c in names if c.startswith(typed)])
    V.reach('several' if k > 1 else 'single' if k else 'char')
    row = w.s.row
    w.press('\t')
    w.m.buf = list(w.t.inputBuffer)
    w.m.pos = w.t.cursorPos
    w.edited()
    if k > 1:
        V.check(w.s.row == row + 2, 'the matches are listed on a row of their own')
    w.typed('z')
    w.edited()
    w.t.alive = False


def sms(p):
    w = World(p.get('color', False))
    port = w.port

    def onwrite(data):
        if data.endswith('\r') and data.lower().startswith('at+cmgs'):
            port.feed('\r\n> ')
    port.onwrite = onwrite
    line = 'AT+CMGS="1"'
    w.typed(line)
    row = w.s.row
    w.press('\n')
    shows(w.s.rows[row], w.prompt + line, 'the line entered stays on the screen')
    w.m.buf, w.m.pos, w.m.sms = [], 0, True
    V.reach('sms')
    old = w.prompt
    w.prompt = '> '
    w.edited()
    text = V.str('x', p['line'], CHARS)
    w.typed(text)
    w.edited()
    kinds = ['char', 'left', 'bs', 'note'] if p['n'] < 3 else ['char', 'left', 'home', 'end', 'del', 'bs', 'note']
    for i in range(p['n']):
        kind = V.pick('key%d' % i, kinds)
        if kind == 'note':
            V.reach('note')
            w.modem([V.str('note%d' % k, 3 - k, CHARS) for k in range(1 + V.choice('notes', 2))])
        else:
            w.key(kind, 'c%d' % i)
    end = V.pick('end', ['ctrlz', 'esc'])
    V.reach(end)
    row, text = w.s.row, ''.join(w.m.buf)
    w.m.key(end, '')
    w.prompt = old
    w.press('\x1a' if end == 'ctrlz' else '\x1b')
    if end == 'ctrlz':
        shows(w.s.rows[row], '> ' + text, 'the text stays on the screen')
    if V.bool('answer'):
        w.modem(['+CMGS: 1', 'OK'] if end == 'ctrlz' else ['OK'])
    w.key('char', 'z')
    V.check(w.port.log[-1] in ('\x1a', '\x1b'), 'what is typed next is not part of the message')
    w.t.alive = False


def raw(p):
    """keys go to the modem and are echoed, its lines are shown"""
    T, t, port, press = p33.start(raw=True)
    V.sched.drain()
    V.reach('raw')
    s = Screen()
    s.update()
    row = s.row
    shows(s.rows[row], '', 'an empty row')
    sent = ''
    for i in range(p['n']):
        kind = V.pick('key%d' % i, ['char', 'enter', 'modem', 'exit'])
        cells = ''.join(s.rows[s.row])
        row = s.row
        if kind == 'char':
            c = V.char('c%d' % i, CHARS)
            press(c)
            s.update()
            sent = sent + c
            shows(s.rows[s.row], cells + c, 'the key is shown')
            V.check(s.row == row, 'on the same row')
        elif kind == 'enter':
            press('\n')
            s.update()
            sent = sent + '\r'
            V.check(s.row == row + 1 and s.col == 0, 'a new row is started')
        elif kind == 'modem':
            n = 1 + V.choice('n%d' % i, 2)
            lines = [V.str('m%d%d' % (i, k), 2, CHARS) for k in range(n)]
            port.feed(''.join(['\r\n' + l + '\r\n' for l in lines]))
            V.sched.drain()
            s.update()
            for k in range(n):
                shows(s.rows[row + k], (cells if k == 0 else '') + lines[k], 'every line of the modem is shown, in order')
            V.check(s.row == row + n, 'every line of the modem is shown once')
        else:
            V.reach('exit')
            press('\x1d')
            time.sleep(3)
            V.check(port.closed and not t.alive, 'the exit key closes the port')
            V.check(not t.rxThread.is_alive(), 'and ends the terminal')
            break
    V.check(''.join(port.log) == sent, 'every key goes to the modem')
    t.alive = False


def leave(p):
    """the exit keys of the terminal"""
    w = World(p['color'])
    w.typed(V.str('x', p['n'], CHARS))
    if V.bool('modem'):
        w.modem([V.str('m', 2, CHARS)])
    w.press_(p['key'])
    time.sleep(3)
    V.reach('exit')
    V.check(w.port.closed and not w.t.alive, 'the exit key closes the port')
    V.check(not w.t.rxThread.is_alive(), 'and ends the terminal')
    V.check(''.join(w.port.log) == '', 'an unfinished line is not sent')


ED = ['char', 'left', 'right', 'bs', 'del', 'home', 'end']
HI = ['up', 'down', 'bs', 'left', 'char', 'enter']


def jobs(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    j = []
    for f in ED:
        j.append(('line-' + f, 'edit', {'n': n, 'line': 3, 'kinds': ED, 'first': f, 'lines': 0}))
        j.append(('note-' + f, 'edit', {'n': 2 if q else 3, 'line': 2, 'kinds': ED, 'first': f, 'lines': 2, 'len': 4 if q else 6}))
    for f in HI:
        j.append(('hist-' + f, 'edit', {'n': n, 'hist': 2, 'kinds': HI, 'first': f, 'lines': 0}))
        j.append(('histnote-' + f, 'edit', {'n': 2, 'hist': 1, 'kinds': HI, 'first': f, 'lines': 1, 'len': 4}))
    j.append(('color', 'edit', {'n': 2, 'line': 2, 'kinds': ED, 'lines': 2, 'len': 5, 'color': True}))
    j.append(('error', 'edit', {'n': 1, 'line': 2, 'kinds': ED, 'lines': 2, 'len': 5}))
    for i, names in enumerate((('ATA', 'ATB', 'ATBC'), ('AB',), ('A', 'ABCD'))):
        for k in ((1, 2) if q else (1, 2, 3)):
            j.append(('complete-%d-%d' % (i, k), 'complete', {'names': names, 'n': k}))
        j.append(('complete-%d-pre' % i, 'complete', {'names': names, 'n': 2, 'pre': 'A', 'color': True}))
    for names in (('AB',), ('AB', 'ABCD'), ('A', 'AB')):
        j.append(('complete-blanks-%s' % '-'.join(names), 'complete', {'names': names, 'n': 2 if q else 3, 'pre': '  '}))
    j.append(('sms', 'sms', {'n': 2 if q else 4, 'line': 2}))
    j.append(('sms-color', 'sms', {'n': 1, 'line': 2, 'color': True}))
    j.append(('raw', 'raw', {'n': n if q else 5}))
    for k, key in enumerate(('\x1d', '\x04')):
        for c in (False, True):
            j.append(('leave-%d-%d' % (k, c), 'leave', {'n': 2, 'key': key, 'color': c}))
    return j
