import vlib as V
from harness import mdm, ser
from gsmmodem import exceptions as X

BOUNDS = {'quick': 'every CME and CMS error code of 1..4 digits (the busy codes followed by another result), every other final result, 0..1 arbitrary lines of 0..4 characters before it, arbitrary command of 1..3 characters, '
                   'error parsing on and off; up to 3 busy results in any mix before any other result; with and without an expected terminator',
          'thorough': '5 digits, two lines, up to 5 busy results'}
OUTSIDE = 'more busy results in a row (each is handled alike)'
ASSUMPTIONS = ['virtual time: only waiting takes time']
EXPECT = ('ok', 'cme', 'cms', 'special', 'busy', 'unparsed', 'plain')
BUDGET = {'thorough': 2400}


def number(code):
    """value of a digit string"""
    v = 0
    for c in code:
        v = v * 10 + ord(c) - 48
    return v


def expected(kind, code):
    """(exact class, type, code)"""
    n = number(code)
    if kind == 'CME':
        if n == 11:
            return 'PinRequiredError', n
        if n == 16:
            return 'IncorrectPinError', n
        if n == 12:
            return 'PukRequiredError', n
        return 'CmeError', n
    if n == 330:
        return 'SmscNumberUnknownError', n
    return 'CmsError', n


def verdict(m, cmd, resp, kind, code, e, r):
    """e: raised exception or None, r: the response"""
    if kind in ('CME', 'CMS'):
        V.reach(kind.lower())
        V.check(e is not None, 'an error result is raised')
        V.check(isinstance(e, X.CommandError), 'as a command error')
        name, n = expected(kind, code)
        V.check(type(e).__name__ == name, 'of the documented class')
        V.check(isinstance(e, X.CmeError if kind == 'CME' else X.CmsError), 'of the kind of the result')
        V.check(e.code == n, 'with the code of the result')
        V.check(e.type == kind, 'and its type')
        V.check(e.command == cmd, 'and the command')
        if type(e).__name__ not in ('CmeError', 'CmsError'):
            V.reach('special')
        if type(e).__name__ in ('PinRequiredError', 'IncorrectPinError', 'PukRequiredError'):
            V.check(isinstance(e, X.SecurityException), 'a security error')
    elif kind in ('ERROR', 'COMMAND NOT SUPPORT'):
        V.reach('plain')
        V.check(e is not None, 'an error result is raised')
        V.check(type(e).__name__ == 'CommandError', 'as a generic command error')
        V.check(e.code is None, 'without a code')
    else:
        V.reach('ok')
        V.check(e is None, 'a good result is returned')
        ser.same(list(r), resp, 'with all its lines')


def final(kind, code):
    return '+%s ERROR: %s' % (kind, code) if kind in ('CME', 'CMS') else kind


def attempt(m, *a, **k):
    try:
        return None, m.write(*a, **k)
    except X.CommandError as e:
        return e, None


KINDS = ['OK', 'ERROR', 'COMMAND NOT SUPPORT', 'CME', 'CMS']


def single(p):
    m, model = mdm.attach('generic')
    kind = p['kind']
    code = V.str('code', p['digits'], '0123456789')
    if kind in ('CME', 'CMS'):
        V.assume(V.Not(V.Or(number(code) == 515, number(code) == 14)))
    lines = [V.str('l%d' % i, n, ser.BYTES) for i, n in enumerate(p['lens'])]
    for l in lines:
        V.assume(V.Not(V.Or(l == 'OK', l == 'ERROR')))
    cmd = V.str('cmd', p['cmd'], [(0x20, 0x7E)])
    resp = [l for l in lines if len(l) > 0] + [final(kind, code)]
    model.hook = lambda data: resp
    kw = {}
    if p.get('term'):
        kw['expectedResponseTermSeq'] = '> '
        for l in lines:
            V.assume(V.Not(V.Or(*[l[i:i + 2] == '> ' for i in range(len(l) - 1)])) if len(l) > 1 else True)
    parse = p['parse']
    if not parse:
        kw['parseError'] = False
    e, r = attempt(m, cmd, **kw)
    ser.same(model.log, [cmd + '\r'], 'the command is sent once')
    if parse:
        verdict(m, cmd, resp, kind, code, e, r)
    else:
        V.reach('unparsed')
        V.check(e is None, 'without error parsing nothing is raised')
        ser.same(list(r), resp, 'without error parsing the response is unchanged')
    V.observe('r', r)
    mdm.fine()
    m.close()


def unparsed_busy(p):
    """without error parsing busy results are returned, too"""
    m, model = mdm.attach('generic')
    code = V.pick('code', ['515', '14'])
    fin = '+CME ERROR: ' + code
    model.hook = lambda data: ['A', fin]
    e, r = attempt(m, 'AT', parseError=False)
    V.check(e is None, 'without error parsing nothing is raised')
    ser.same(list(r), ['A', fin], 'without error parsing the response is unchanged')
    ser.same(model.log, ['AT\r'], 'the command is sent once')
    m.close()


def busy(p):
    m, model = mdm.attach('generic')
    n = p['n']
    codes = [V.pick('b%d' % i, ['+CME ERROR: 515', '+CME ERROR: 14', '+CMS ERROR: 515', '+CMS ERROR: 14']) for i in range(n)]
    kind = V.pick('kind', KINDS)
    code = V.str('code', p['digits'], '0123456789')
    if kind in ('CME', 'CMS'):
        V.assume(V.Not(V.Or(number(code) == 515, number(code) == 14)))
    resp = [p['line'], final(kind, code)] if p['line'] else [final(kind, code)]
    script = [[c] for c in codes] + [resp]
    times = []

    def dev(data):
        times.append(V.sched.now)
        return script[len(times) - 1]
    model.hook = dev
    kw = {}
    if p['term']:
        kw['expectedResponseTermSeq'] = '> '
        kw['writeTerm'] = '!'
    e, r = attempt(m, 'AT+X', **kw)
    V.reach('busy')
    ser.same(model.log, ['AT+X' + ('!' if p['term'] else '\r')] * (n + 1), 'the same command is sent again until another result arrives')
    gaps = [times[i + 1] - times[i] for i in range(n)]
    for i in range(n):
        V.check(gaps[i] > 0.05, 'after a pause')
        if i:
            V.check(gaps[i] > gaps[i - 1] + 1e-6, 'that grows')
    verdict(m, 'AT+X', resp, kind, code, e, r)
    # what follows is an ordinary command again
    model.log[:] = []
    model.hook = lambda data: ['+CSQ: 7,9', 'OK']
    e, r = attempt(m, 'AT+CSQ')
    V.check(e is None, 'the next command is not affected')
    ser.same(list(r), ['+CSQ: 7,9', 'OK'], 'the next command gets its own response')
    ser.same(model.log, ['AT+CSQ\r'], 'the next command is sent once')
    mdm.fine()
    m.close()


def nowait(p):
    m, model = mdm.attach('generic')
    cmd = V.str('cmd', p['cmd'], [(0x20, 0x7E)])
    model.hook = lambda data: []
    e, r = attempt(m, cmd, waitForResponse=False)
    V.check(e is None, 'nothing is raised')
    V.check(r is None, 'no response')
    ser.same(model.log, [cmd + '\r'], 'the command is sent once')
    m.close()


def jobs(tier):
    q = tier == 'quick'
    j = []
    for parse in (True, False):
        for kind in KINDS:
            for digits in (range(1, 5) if q else range(1, 6)) if kind in ('CME', 'CMS') else (1,):
                for lens in ([], [4], [0]) if q else ([], [4], [0], [3, 3]):
                    if digits != 2 and lens and kind in ('CME', 'CMS'):
                        continue
                    j.append(('%s-%d-%s%s' % (kind.replace(' ', '_'), digits, '-'.join(map(str, lens)), '' if parse else '-off'), 'single',
                              {'kind': kind, 'digits': digits, 'lens': lens, 'cmd': 2 if not lens else 1, 'parse': parse}))
    for kind in KINDS:
        j.append(('term-%s' % kind.replace(' ', '_'), 'single', {'kind': kind, 'digits': 2, 'lens': [3], 'cmd': 3, 'parse': True, 'term': True}))
    j.append(('unparsed-busy', 'unparsed_busy', {}))
    for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5)):
        j.append(('busy-%d' % n, 'busy', {'n': n, 'digits': 3 if n < 3 else 2, 'line': 'R' if n == 2 else '', 'term': False}))
    j.append(('busy-term', 'busy', {'n': 2, 'digits': 2, 'line': '', 'term': True}))
    j.append(('nowait', 'nowait', {'cmd': 2}))
    return j
