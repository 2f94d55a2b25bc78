import vlib as V
from harness import p33

BOUNDS = {'quick': 'every input line of 0..3 arbitrary typed characters, and "AT" / "AT+" / "AT+C" in any case followed by 0..2, against the full command table; every table of 1..3 commands of 1..3 '
                   'arbitrary upper-case characters against every line of 0..3 characters; cursor anywhere; completion pressed twice',
          'thorough': 'lines of 0..5 arbitrary characters and 0..4 after the prefixes; tables of up to 4 commands of up to 4 characters, lines of 0..5'}
OUTSIDE = 'longer lines and larger arbitrary tables'
ASSUMPTIONS = p33.ASSUMPTIONS[:1]
EXPECT = ('nomatch', 'exact', 'single', 'several', 'many', 'syntax')
BUDGET = {'thorough': 2400}
CHARS = (32, 126)


def upper(s):
    return s.upper()


def complete(t, press, table, line):
    """press TAB and check what it did; table: the command names, each once"""
    typed = line.strip().upper()
    match = [c for c in table if c.startswith(typed)]
    before = len(V.stdout.parts)
    press('\t')
    out = ''.join(V.stdout.parts[before:])
    got = ''.join(t.inputBuffer)
    V.observe('line', got)
    V.check(V.And(t.cursorPos >= 0, t.cursorPos <= len(t.inputBuffer)), 'the cursor is inside the line')
    V.check(got.strip().upper().startswith(typed), 'no typed character is lost or changed except in case')
    if len(match) == 0:
        V.reach('syntax' if V.conc(typed.endswith('=')) else 'nomatch')
        V.check(got == line, 'nothing matches: the line is unchanged')
    elif len(match) == 1:
        V.reach('exact' if match[0] == typed else 'single')
        V.check(got.strip().upper() == match[0], 'a single match is completed')
    else:
        n = min([len(c) for c in match])
        i = len(typed)
        while i < n and all([c[i] == match[0][i] for c in match]):
            i += 1
        V.check(got.strip().upper() == match[0][:i], 'the line is extended to the longest common prefix')
        V.reach('many' if len(match) > 20 else 'several')
        if len(match) <= 20 and i == len(typed):
            words = [w for w in out.split('\n')[1].split(' ') if w != '']
            V.check(len(words) == len(match), 'each match is listed once')
            for c in match:
                V.check(c in words, 'each match is listed')
    return got


def full(p):
    T, t, port, press = p33.start()
    from gsmtermlib.atcommands import ATCOMMANDS
    table = []
    for c, h in ATCOMMANDS:
        if c not in table:
            table.append(c)
    pre = p['pre']
    if p.get('lower'):
        pre = pre.lower()
    line = pre + V.str('x', p['n'], CHARS)
    if p.get('eq'):
        line = line + '='
    for i in range(len(line)):
        press(line[i])
    for i in range(V.choice('left', p['left'] + 1) if p.get('left') else 0):
        press(T.console.CURSOR_LEFT)
    got = complete(t, press, table, line)
    if p.get('twice'):
        complete(t, press, table, got)
    V.check(''.join(port.log) == '', 'nothing is sent')
    t.alive = False


def table(p):
    names = []
    for i in range(len(p['lens'])):
        k = V.str('k%d' % i, p['lens'][i], p['chars'])
        if k not in names:
            names.append(k)
    V.set_module('gsmtermlib.atcommands', ATCOMMANDS=[(k, ('General', 'x', (('0', 'zero'),), None, 'y')) for k in names], CATEGORIES=('General',))
    T, t, port, press = p33.start()
    line = V.str('x', p['n'], (33, 126))
    for i in range(len(line)):
        press(line[i])
    complete(t, press, names, line)
    t.alive = False


def jobs(tier):
    q = tier == 'quick'
    j = []
    for n in range(0, (3 if q else 5) + 1):
        j.append(('full-%d' % n, 'full', {'pre': '', 'n': n, 'twice': n < 3, 'left': 1 if n < 2 else 0}))
    for pre in ('AT', 'AT+', 'AT+C', 'AT+CPIN', 'AT+CM'):
        for n in range(0, (2 if q else 4) + 1):
            for lo in (False, True):
                j.append(('full-%s-%d-%s' % (pre, n, lo), 'full', {'pre': pre, 'n': n, 'lower': lo, 'twice': n < 2}))
        j.append(('full-%s=' % pre, 'full', {'pre': pre, 'n': 1, 'eq': True}))

    def lens(n, hi):
        l = [[]]
        for _ in range(n):
            l = [a + [b] for a in l for b in range(1, hi + 1)]
        return l
    UP = [(33, 96), (123, 126)]
    for k in ((1, 2, 3) if q else (1, 2, 3, 4)):
        for l in lens(k, (3 if k < 3 else 2) if q else (4 if k < 3 else 3)):
            for n in range(0, min(max(l) + 1, 3 if q else 5) + 1):
                j.append(('table-%s-%d' % (''.join(map(str, l)), n), 'table', {'lens': l, 'n': n, 'chars': UP}))
    return j
