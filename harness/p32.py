import vlib as V
from gsmtermlib.trie import Trie

BOUNDS = {'quick': 'every tree of 1..3 arbitrary keys of 1..3 characters (also 0..2), with or without a deletion, queried with every prefix of 0..4 characters',
          'thorough': 'every tree of 1..4 arbitrary keys of 0..3 characters and of 3 keys of 0..4 characters, with or without a deletion, every prefix of 0..5 characters'}
OUTSIDE = 'more and longer keys'
EXPECT = ('none', 'one', 'several', 'deleted')
BUDGET = {'thorough': 2400}


def query(p):
    t = Trie()
    ks = []
    for i in range(len(p['lens'])):
        k = V.str('k%d' % i, p['lens'][i], (0, 0x10FFFF))
        t[k] = i
        if k not in ks:
            ks.append(k)
    if p.get('delete'):
        k = V.str('x', p['delete'] - 1, (0, 0x10FFFF))
        if k in ks:
            V.reach('deleted')
            del t[k]
            ks = [c for c in ks if c != k]
        else:
            return
    pre = V.str('pre', p['pre'], (0, 0x10FFFF))
    match = [k for k in ks if k.startswith(pre)]
    got = t.keys(pre)
    V.check(len(got) == len(match), 'one entry per matching key')
    for k in match:
        V.check(k in got, 'each matching key is listed')
    V.reach('none' if len(match) == 0 else 'one' if len(match) == 1 else 'several')
    lcp = t.longestCommonPrefix(pre)
    V.observe('lcp', lcp)
    if len(match) == 0:
        V.check(lcp == '', 'no common prefix without a match')
        return
    n = min([len(k) for k in match])
    i = len(pre)
    while i < n and all([k[i] == match[0][i] for k in match]):
        i += 1
    V.check(lcp == match[0][:i], 'the longest common prefix')


def none(p):
    t = Trie()
    for k in ('AT', 'ATD', 'AT+C'):
        t[k] = 1
    V.check(sorted(t.keys(None)) == ['AT', 'AT+C', 'ATD'], 'no prefix lists all')
    V.check(t.longestCommonPrefix() == 'AT', 'common prefix of all keys')


def jobs(tier):
    j = [('none', 'none', {})]

    def lens(n, lo, hi):
        l = [[]]
        for _ in range(n):
            l = [a + [b] for a in l for b in range(lo, hi + 1)]
        return l

    def add(n, lo, hi, plo, phi, dele):
        for l in lens(n, lo, hi):
            for pre in range(plo, min(phi, max(l) + 1) + 1):
                for d in (sorted(set(l)) if dele else [None]):
                    nm = 'q-%s-%d%s' % (''.join(map(str, l)), pre, '' if d is None else '-d%d' % d)
                    j.append((nm, 'query', {'lens': l, 'pre': pre, 'delete': None if d is None else d + 1}))
    if tier == 'quick':
        add(1, 0, 3, 0, 4, False)
        add(2, 0, 3, 0, 3, False)
        add(2, 0, 2, 0, 3, True)
        add(3, 0, 2, 0, 2, False)
        add(3, 1, 2, 0, 2, True)
    else:
        add(1, 0, 4, 0, 5, True)
        add(2, 0, 4, 0, 5, False)
        add(2, 0, 4, 0, 5, True)
        add(3, 0, 4, 0, 5, False)
        add(3, 0, 3, 0, 3, True)
        add(4, 0, 3, 0, 4, False)
        add(4, 0, 2, 0, 2, True)
    return j
