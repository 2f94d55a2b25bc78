import vlib as V
from gsmtermlib.trie import Trie

BOUNDS = {'quick': 'every history of 1..3 store/delete operations on keys of 0..2 arbitrary characters (2 operations: 0..4 characters; 4 operations: 0..1 characters, and store-store-store-delete of 0..2), '
                   'then lookup of every key involved; lookup of an arbitrary other key after up to 3 operations; values None, 0, empty text and another in histories of 3',
          'thorough': 'every history of 3 operations on keys of 0..4 characters, 4 operations on keys of 0..3 and 5 operations on keys of 0..2, lookup of an arbitrary other key after 3 operations'}
OUTSIDE = 'longer histories and keys'
VALUES = [None, 0, '', 7]
EXPECT = ('store', 'overwrite', 'delete', 'deletemissing', 'missing')


def key(tag, maxlen, chars):
    n = V.choice(tag + 'len', maxlen + 1)
    return V.str(tag, n, chars)


class Model(object):
    """association list"""

    def __init__(self):
        self.items = []

    def find(self, k):
        for i in range(len(self.items)):
            if self.items[i][0] == k:
                return i
        return -1


def verify(t, m, probe):
    V.check(len(t) == len(m.items), 'the size is the number of keys')
    ks = list(t.keys())
    V.observe('keys', sorted([str(k) for k in ks]) if False else len(ks))
    V.check(len(ks) == len(m.items), 'key listing has each key once')
    it = list(iter(t))
    V.check(len(it) == len(m.items), 'iteration yields each key once')
    for k, v in m.items:
        V.check(k in t, 'a stored key is found')
        V.check(t[k] == v, 'a stored key has its last value')
        V.check(t.get(k, -1) == v, 'get returns the last value')
        V.check(k in ks, 'a stored key is listed')
        V.check(k in it, 'a stored key is iterated')
    if probe is not None and m.find(probe) < 0:
        V.reach('missing')
        V.check(probe not in t, 'another key is not found')
        V.check(t.get(probe, 'dflt') == 'dflt', 'get of another key returns the default')
        V.check(t.get(probe) is None, 'get of another key returns None')
        try:
            t[probe]
            V.check(False, 'lookup of another key fails')
        except KeyError:
            V.check(True, 'lookup of another key fails')


def history(p):
    t = Trie()
    m = Model()
    used = []
    for i in range(len(p['kinds'])):
        if p.get('first') is not None and i == 0:
            k = V.str('k0', p['first'], p['chars'])
        else:
            k = key('k%d' % i, p['len'], p['chars'])
        used.append(k)
        if p['kinds'][i] == 'd':
            j = m.find(k)
            if j >= 0:
                V.reach('delete')
                del t[k]
                m.items.pop(j)
            else:
                V.reach('deletemissing')
                try:
                    del t[k]
                    V.check(False, 'deleting an unknown key fails with KeyError')
                except KeyError:
                    V.check(True, 'deleting an unknown key fails with KeyError')
        else:
            v = V.pick('v%d' % i, VALUES) if p.get('values') else 100 + i
            t[k] = v
            j = m.find(k)
            if j >= 0:
                V.reach('overwrite')
                m.items[j] = (k, v)
            else:
                V.reach('store')
                m.items.append((k, v))
    probe = key('q', p['len'] + 1, p['chars']) if p.get('probe') else None
    for k in used:
        V.check(V.eq(k in t, m.find(k) >= 0), 'a key is found exactly if it is stored')
    verify(t, m, probe)


def none(p):
    t = Trie()
    t['ab'] = 1
    for f in (lambda: t[None], lambda: t.get(None), lambda: t.__setitem__(None, 1), lambda: t.__delitem__(None)):
        try:
            f()
            V.check(False, 'a None key is refused')
        except ValueError:
            V.check(True, 'a None key is refused')
    V.check(len(t) == 1, 'nothing changed')


def jobs(tier):
    j = [('none', 'none', {})]

    def add(ops, ln, probe, split):
        kinds = ['s']
        for i in range(ops - 1):
            kinds = [k + c for k in kinds for c in 'sd']
        for k in kinds:
            for f in (range(0, ln + 1) if split else (None,)):
                nm = 'hist-%s-%d%s%s' % (k, ln, '' if f is None else '-%d' % f, '-q' if probe else '')
                j.append((nm, 'history', {'kinds': k, 'len': ln, 'first': f, 'chars': (0, 0x10FFFF), 'probe': probe}))
    def vals(ops, ln):
        for k in {2: ('ss', 'sd'), 3: ('sss', 'ssd', 'sds'), 4: ('ssss', 'sssd', 'ssds')}[ops]:
            j.append(('values-%s-%d' % (k, ln), 'history', {'kinds': k, 'len': ln, 'chars': (0, 0x10FFFF), 'values': True}))
    if tier == 'quick':
        add(1, 3, True, False)
        add(2, 2, True, False)
        add(3, 1, True, False)
        add(2, 4, False, True)
        add(3, 2, False, True)
        add(4, 1, False, False)
        vals(3, 2)
        vals(2, 2)
        j.append(('hist-sssd-2', 'history', {'kinds': 'sssd', 'len': 2, 'first': 2, 'chars': (0, 0x10FFFF)}))
        j.append(('hist-ssd-3', 'history', {'kinds': 'ssd', 'len': 3, 'first': 3, 'chars': (0, 0x10FFFF)}))
    else:
        add(2, 4, True, True)
        vals(3, 3)
        vals(4, 2)
        add(3, 2, True, True)
        add(3, 4, False, True)
        add(4, 2, False, True)
        add(4, 3, False, True)
        add(5, 2, False, True)
    return j
