"""Runtime called by the instrumented code (symbolic mode)."""
import sys, builtins, types
import z3
from . import core, strs, coll, rx, dt
from .core import (SymInt, SymBool, SymRat, ite, select, band, bor, bnot, num, Control, EngineError, Incomplete)
from .strs import (SymStr, SymBytes, SBytearray, mkstr, mkbytes, cps_of, is_str, is_bytes, byte_items, nat)
from .coll import SDict, SSet, values_eq, mergeable, KeysView

SYM = (SymInt, SymBool, SymRat, SymStr, SymBytes, SBytearray)


class NonTermination(Control):
    pass


def is_symv(x):
    return isinstance(x, SYM)


def conc(x):
    """concretise a scalar symbolic value"""
    if isinstance(x, SymInt):
        return x.concretize()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymStr):
        return nat(x)
    if isinstance(x, SymBytes):
        return x.native()
    if isinstance(x, SBytearray):
        return bytearray(x.native())
    if isinstance(x, SymRat):
        return float(x)
    if isinstance(x, Facade):
        return x._nat
    if type(x) is tuple:
        return tuple(conc(y) for y in x)
    if type(x) is list:
        return [conc(y) for y in x]
    return x


def reraise():
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


TICKS = 0
MAX_TICKS = 200000


def tick():
    global TICKS
    TICKS += 1
    if TICKS > MAX_TICKS:
        raise NonTermination('loop does not terminate')


FUNCS = set()


def enter(name):
    FUNCS.add(name)


# ------------------------------------------------------------------ operators
def eq(a, b):
    return values_eq(a, b)


def ne(a, b):
    ta = type(a)
    if ta in (list, tuple) or isinstance(a, SYM) or isinstance(b, SYM):
        return bnot(values_eq(a, b))
    return a != b


def is_(a, b):
    if isinstance(a, SymBool):
        return a if b else bnot(a)
    return a is b


def isnot_(a, b):
    return bnot(is_(a, b))


def contains(c, x):
    t = type(c)
    if t is str or issubclass(t, SymStr):
        if not is_str(x):
            raise TypeError("'in <string>' requires string as left operand, not " + type(x).__name__)
        if t is str and type(x) is str:
            return x in c
        hay, sub = cps_of(c), cps_of(x)
        if len(sub) == 1:
            # membership of a character: merge into ranges
            x0 = sub[0]
            if isinstance(x0, SymInt) and all(isinstance(h, int) for h in hay):
                return char_in(x0, hay)
        return bor(*[strs.seq_eq(hay[i:i + len(sub)], sub) for i in range(len(hay) - len(sub) + 1)])
    if t is list or t is tuple:
        return bor(*[True if x is y else values_eq(y, x) for y in c])
    if t is SDict or t is SSet or t is KeysView:
        return c._has(x)
    if t is dict or t is set or t is frozenset:
        if coll.key_sym(x):
            return bor(*[values_eq(x, y) for y in c])
        return x in c
    if t is range and isinstance(x, SymInt):
        if c.step > 0:
            r = band(x >= c.start, x < c.stop)
        else:
            r = band(x <= c.start, x > c.stop)
        return band(r, (x - c.start) % abs(c.step) == 0)
    if t is bytes and isinstance(x, (SymInt, SymBytes, SBytearray)):
        c = SymBytes(list(c))
        t = SymBytes
    if t is SymBytes or t is SBytearray:
        if isinstance(x, (int, SymInt)):
            return bor(*[(y == x) for y in c.b])
        return bnot(SymStr(c.b).find(SymStr(byte_items(x))) == -1)
    return x in c


def notcontains(c, x):
    return bnot(contains(c, x))


def char_in(x, hay):
    s = sorted(set(hay))
    conds = []
    i = 0
    while i < len(s):
        j = i
        while j + 1 < len(s) and s[j + 1] == s[j] + 1:
            j += 1
        conds.append(x == s[i] if i == j else band(x >= s[i], x <= s[j]))
        i = j + 1
    return bor(*conds)


def _symslice(i):
    return isinstance(i, slice) and (isinstance(i.start, SYM) or isinstance(i.stop, SYM) or isinstance(i.step, SYM))


def getitem(o, i):
    t = type(o)
    if t is str or t is bytes or t is list or t is tuple:
        if isinstance(i, SymBool):
            i = i._int()
        if type(i) is SymInt:
            n = len(o)
            if t is str:
                return SymStr(cps_of(o))[i]
            if t is bytes:
                return strs.seq_index(list(o), i, 'bytes')
            if not bool(band(i >= -n, i < n)):
                raise IndexError('list index out of range')
            kind = mergeable(o)
            if kind == 'i':
                return strs.seq_index(list(o), i, 'list')
            if kind == 's':
                return mkstr([strs.seq_index([cps_of(x)[0] for x in o], i, 'list')])
            return o[i.concretize()]
        if _symslice(i):
            return o[strs.conc_slice(i, len(o))]
    elif isinstance(o, Facade):
        return o._nat[conc(i)]
    return o[i]


def mod(a, b):
    if type(a) is str or isinstance(a, SymStr):
        if type(a) is str:
            vals = b if isinstance(b, tuple) else (b,)
            if all(type(v) in (str, int, float, bool, type(None)) for v in vals):
                return a % b
        return strs.percent_format(a, b)
    return a % b


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = strs.to_repr(v)
        elif conv == 115:
            v = strs.to_str(v)
        elif conv == 97:
            v = ascii(conc(v))
        out.append(strs.format_value(v, spec))
    return strs.str_join('', out)


def mkdict(pairs):
    d = SDict()
    for k, v in pairs:
        if k is _DSTAR:
            d.update(v)
        else:
            d[k] = v
    return d


class _D(object):
    pass


_DSTAR = _D()
DSTAR = _DSTAR


def mkset(it):
    return SSet(it)


# --------------------------------------------------------------------- calling
_PASS_MODULES = {'builtins', 'itertools', '_functools', 'functools', '_collections', 'collections', '_operator',
                 'math', 'z3', '_weakref', None}
_plain = (str, int, float, bool, type(None))


def call(f, *a, **k):
    t = type(f)
    if t is types.BuiltinFunctionType:
        m = getattr(f, '__module__', None)
        if m not in _PASS_MODULES:
            if any(isinstance(x, SYM) for x in a) or any(isinstance(x, SYM) for x in k.values()):
                a = tuple(conc(x) for x in a)
                k = {n: conc(x) for n, x in k.items()}
        elif m is None or m == 'builtins':
            s = getattr(f, '__self__', None)
            ts = type(s)
            if ts is str or ts is bytes or ts is list:
                return mcall(s, f.__name__, *a, **k)
    return f(*a, **k)


_LISTM = {'index', 'count', 'remove'}


def mcall(o, name, *a, **k):
    t = type(o)
    if t is str:
        if name == 'join':
            lst = list(a[0])
            for x in lst:
                if type(x) is not str:
                    return strs.str_join(o, lst)
            return o.join(lst)
        if name == 'format':
            for x in a:
                if type(x) not in _plain:
                    return strs.str_format(o, a, k)
            for x in k.values():
                if type(x) not in _plain:
                    return strs.str_format(o, a, k)
            return o.format(*a, **k)
        for x in a:
            if isinstance(x, SYM) or (type(x) is tuple and any(isinstance(y, SYM) for y in x)):
                if name == 'find' and len(a) == 1 and isinstance(x, SymStr) and len(x.c) == 1:
                    return find_char(o, x.c[0])
                return getattr(SymStr(cps_of(o)), name)(*a, **k)
        if name == 'encode' and not a and not k:
            return o.encode()
    elif t is bytes or t is bytearray:
        for x in a:
            if isinstance(x, SYM):
                return getattr(SymBytes(list(o)), name)(*a, **k)
        if name == 'join':
            lst = list(a[0])
            if any(isinstance(x, SYM) for x in lst):
                return SymBytes(list(o)).join(lst)
            return o.join(lst)
    elif t is list:
        if name in _LISTM:
            if name == 'count':
                r = 0
                for x in o:
                    r = r + ite(values_eq(x, a[0]), 1, 0)
                return r
            start = a[1] if len(a) > 1 else 0
            for i in range(start, len(o)):
                x = o[i]
                if x is a[0] or bool(values_eq(x, a[0])):
                    if name == 'index':
                        return i
                    del o[i]
                    return None
            raise ValueError('not in list')
    elif t is dict or t is set:
        pass
    elif isinstance(o, types.ModuleType):
        return call(getattr(o, name), *a, **k)
    f = getattr(o, name)
    if type(f) is types.BuiltinFunctionType:
        return call(f, *a, **k) if type(getattr(f, '__self__', None)) not in (str, bytes, list) else f(*a, **k)
    return f(*a, **k)


_findcache = {}


def find_char(hay, cp):
    if isinstance(cp, int):
        return hay.find(chr(cp))
    key = (hay, cp.e.get_id())
    hit = _findcache.get(key)
    if hit is not None and hit[0].eq(cp.e):
        return hit[1]
    r = -1
    for i in range(len(hay) - 1, -1, -1):
        r = ite(cp == ord(hay[i]), i, r)
    if len(_findcache) > 5000:
        _findcache.clear()
    _findcache[key] = (cp.e, r)
    return r


# --------------------------------------------------------------- builtin types
class Facade(object):
    def __init__(self, name, native, insts, construct):
        self.__name__ = self.__qualname__ = name
        self._nat = native
        self._insts = insts
        self._construct = construct

    def __call__(self, *a, **k):
        return self._construct(*a, **k)

    def __instancecheck__(self, o):
        return isinstance(o, self._insts)

    def __subclasscheck__(self, c):
        if isinstance(c, Facade):
            c = c._nat
        return issubclass(c, self._insts)

    def __mro_entries__(self, bases):
        return (self._nat,)

    def __or__(self, o):
        return self

    def __hash__(self):
        return hash(self._nat)

    def __eq__(self, o):
        return o is self or o is self._nat

    def __ne__(self, o):
        return not (o is self or o is self._nat)

    def __repr__(self):
        return repr(self._nat)

    def __class_getitem__(cls, x):
        return cls

    def __getitem__(self, x):
        return self

    def __getattr__(self, name):
        f = getattr(self._nat, name)
        d = self._nat.__dict__.get(name)
        n = self._nat
        if isinstance(d, (classmethod, staticmethod)) or type(d).__name__ == 'classmethod_descriptor':
            def cm(*a, **k):
                if n in (bytes, bytearray) and name == 'fromhex':
                    items = strs.unhex_items([c for c in cps_of(a[0])], ValueError) if isinstance(a[0], SymStr) \
                        else list(bytes.fromhex(a[0]))
                    return SBytearray(items) if n is bytearray else mkbytes(items)
                if n is int and name == 'from_bytes':
                    items = list(byte_items(a[0]) if is_bytes(a[0]) else a[0])
                    order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
                    if order == 'little':
                        items.reverse()
                    r = 0
                    for x in items:
                        r = r * 256 + x
                    if k.get('signed') and items:
                        r = ite(r >= 1 << (8 * len(items) - 1), r - (1 << (8 * len(items))), r)
                    return r
                if n is dict and name == 'fromkeys':
                    return SDict.fromkeys(*a)
                return f(*[conc(x) for x in a], **{q: conc(x) for q, x in k.items()})
            return cm
        if callable(f):
            def um(self_, *a, **k):
                return mcall(self_, name, *a, **k)
            return um
        return f


def _mk_str(*a, **k):
    if not a and not k:
        return ''
    x = a[0] if a else k.pop('object')
    if len(a) > 1 or k:
        enc = a[1] if len(a) > 1 else k.get('encoding', 'utf-8')
        err = a[2] if len(a) > 2 else k.get('errors', 'strict')
        if isinstance(x, (bytes, bytearray)):
            return x.decode(enc, err)
        if isinstance(x, (SymBytes, SBytearray)):
            return x.decode(enc, err)
        raise TypeError('decoding to str: need a bytes-like object, %s found' % type(x).__name__)
    if isinstance(x, Facade):
        return str(x._nat)
    return strs.to_str(x)


def _mk_int(*a, **k):
    if not a:
        return 0
    x = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    if isinstance(base, SymInt):
        base = base.concretize()
    if isinstance(x, SymStr):
        return strs.parse_int(x, 10 if base is None else base)
    if isinstance(x, (SymBytes, SBytearray)):
        return strs.parse_int(SymStr(x.b), 10 if base is None else base)
    if base is not None:
        return int(x, base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, SymRat):
        return x.trunc()
    f = getattr(type(x), '__int__', None)
    if f is not None and type(x) not in (int, float, bool):
        return f(x)
    return int(x)


def _mk_float(*a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, SymInt):
        return SymRat(x, 1)
    if isinstance(x, SymBool):
        return SymRat(x._int(), 1)
    if isinstance(x, SymRat):
        return x
    if isinstance(x, SymStr):
        return float(nat(x))
    return float(x)


def _mk_bytes(*a, **k):
    if not a:
        return b''
    x = a[0]
    if is_str(x):
        enc = a[1] if len(a) > 1 else k.get('encoding')
        if enc is None:
            raise TypeError('string argument without an encoding')
        err = a[2] if len(a) > 2 else k.get('errors', 'strict')
        return strs.str_encode(x, enc, err)
    return mkbytes(strs.bytes_from(x))


def _mk_bytearray(*a, **k):
    if not a:
        return SBytearray([])
    x = a[0]
    if is_str(x):
        return SBytearray(list(byte_items(_mk_bytes(*a, **k))))
    return SBytearray(strs.bytes_from(x))


F_str = Facade('str', str, (str, SymStr), _mk_str)
F_int = Facade('int', int, (int, SymInt, SymBool), _mk_int)
F_float = Facade('float', float, (float, SymRat), _mk_float)
F_bytes = Facade('bytes', bytes, (bytes, SymBytes), _mk_bytes)
F_bytearray = Facade('bytearray', bytearray, (bytearray, SBytearray), _mk_bytearray)
F_dict = Facade('dict', dict, (dict,), SDict)
F_set = Facade('set', set, (set, SSet), SSet)


def _mk_frozenset(*a):
    return tuple_set(*a)


class FrozenSSet(SSet):
    def __hash__(self):
        return hash(frozenset(conc(x) for x in self))


def tuple_set(*a):
    return FrozenSSet(*a)


F_frozenset = Facade('frozenset', frozenset, (frozenset, FrozenSSet), tuple_set)
F_bool = Facade('bool', bool, (bool, SymBool), lambda x=False: x if isinstance(x, SymBool) else bool(x))

_typemap = {str: F_str, SymStr: F_str, strs.AltStr: F_str, int: F_int, SymInt: F_int, float: F_float, SymRat: F_float,
            bytes: F_bytes, SymBytes: F_bytes, bytearray: F_bytearray, SBytearray: F_bytearray,
            dict: F_dict, SDict: F_dict, set: F_set, SSet: F_set, frozenset: F_frozenset, FrozenSSet: F_frozenset,
            bool: F_bool, SymBool: F_bool}


class _Type(object):
    __name__ = 'type'

    def __call__(self, *a, **k):
        if len(a) == 1:
            t = type(a[0])
            return _typemap.get(t, t)
        a = tuple(x._nat if isinstance(x, Facade) else x for x in a)
        return type(a[0], tuple(x._nat if isinstance(x, Facade) else x for x in a[1]), dict(a[2]), **k)

    def __instancecheck__(self, o):
        return isinstance(o, (type, Facade))

    def __mro_entries__(self, b):
        return (type,)

    def __getattr__(self, n):
        return getattr(type, n)


F_type = _Type()


# ------------------------------------------------------------- builtin functions
def b_len(o):
    t = type(o)
    if t in (str, list, tuple, bytes, dict, SymStr, SBytearray, SymBytes):
        return len(o)
    f = getattr(t, '__len__', None)
    if f is None:
        raise TypeError("object of type '%s' has no len()" % t.__name__)
    r = f(o)
    if isinstance(r, SymInt):
        if r.lo < 0 and bool(r < 0):
            raise ValueError('__len__() should return >= 0')
        return r
    return len(o) if not isinstance(r, int) else r


def b_chr(x):
    if isinstance(x, SymBool):
        x = x._int()
    if isinstance(x, SymInt):
        if x.lo < 0 or x.hi > 0x10FFFF:
            if not bool(band(x >= 0, x <= 0x10FFFF)):
                raise ValueError('chr() arg not in range(0x110000)')
            lo, hi = max(x.lo, 0), min(x.hi, 0x10FFFF)
            x = core.mkint(core.towidth(x.e, core.sbits(lo, hi)), lo, hi)
        return mkstr([x])
    return chr(x)


def b_ord(x):
    if isinstance(x, (SymStr, SymBytes, SBytearray)):
        items = x.c if isinstance(x, SymStr) else x.b
        if len(items) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(items))
        return items[0]
    return ord(x)


def b_hex(x):
    if isinstance(x, (SymInt, SymBool)):
        return strs.int_to_str(x, 16, False, '0x')
    return hex(x)


def b_oct(x):
    if isinstance(x, (SymInt, SymBool)):
        return strs.int_to_str(x, 8, False, '0o')
    return oct(x)


def b_bin(x):
    if isinstance(x, (SymInt, SymBool)):
        return strs.int_to_str(x, 2, False, '0b')
    return bin(x)


def b_repr(x):
    return strs.to_repr(x)


def b_format(x, spec=''):
    return strs.format_value(x, spec)


class SymRange(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        i = self.lo
        if self.step > 0:
            while bool(i < self.hi):
                yield i
                i += self.step
        else:
            while bool(i > self.hi):
                yield i
                i += self.step

    def __len__(self):
        n = (self.hi - self.lo + self.step - (1 if self.step > 0 else -1)) // self.step
        return ite(n > 0, n, 0)

    def _has(self, x):
        return band(x >= self.lo, x < self.hi, (x - self.lo) % self.step == 0)

    def __contains__(self, x):
        return bool(self._has(x))

    def __reversed__(self):
        return reversed(range(int(self.lo), int(self.hi), self.step))

    def __getitem__(self, i):
        return range(int(self.lo), int(self.hi), self.step)[i]


class _Range(object):
    def __call__(self, *a):
        if not any(isinstance(x, SYM) for x in a):
            return range(*a)
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        else:
            lo, hi, st = a[0], a[1], (a[2] if len(a) > 2 else 1)
        if isinstance(st, (SymInt, SymBool)):
            st = int(st)
        if not isinstance(lo, (int, SymInt)) or not isinstance(hi, (int, SymInt)):
            if isinstance(lo, SymRat) or isinstance(hi, SymRat):
                raise TypeError("'float' object cannot be interpreted as an integer")
            lo, hi = int(lo), int(hi)
        if isinstance(lo, SymInt):
            lo = lo.concretize()
        return SymRange(lo, hi, st)

    def __instancecheck__(self, o):
        return isinstance(o, (range, SymRange))


b_range = _Range()


def _minmax(a, k, less):
    if len(a) == 1:
        a = list(a[0])
        if not a:
            if 'default' in k:
                return k['default']
            raise ValueError('arg is an empty sequence')
    key = k.get('key')
    r = a[0]
    for x in a[1:]:
        if key is None and num(r) is not None and num(x) is not None:
            r = ite((x < r) if less else (x > r), x, r)
        else:
            kr, kx = (r, x) if key is None else (key(r), key(x))
            if bool((kx < kr) if less else (kx > kr)):
                r = x
    return r


def b_min(*a, **k):
    return _minmax(a, k, True)


def b_max(*a, **k):
    return _minmax(a, k, False)


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_isinstance(o, c):
    return isinstance(o, c)


def b_float_round(x, n=None):
    return round(x, n) if n is not None else round(x)


def b_sorted(it, **k):
    return sorted(it, **k)


def b_hash(x):
    return hash(x)


def make_builtins(world, imp):
    d = dict(builtins.__dict__)
    d.update({'str': F_str, 'int': F_int, 'float': F_float, 'bytes': F_bytes, 'bytearray': F_bytearray,
              'dict': F_dict, 'set': F_set, 'frozenset': F_frozenset, 'type': F_type, 'bool': F_bool,
              'len': b_len, 'chr': b_chr, 'ord': b_ord, 'hex': b_hex, 'oct': b_oct, 'bin': b_bin,
              'repr': b_repr, 'format': b_format, 'range': b_range, 'min': b_min, 'max': b_max, 'sum': b_sum,
              'print': world.print_, 'open': world.open_, '__import__': imp})
    return d


# --------------------------------------------------------------- module shims
class CodecsModule(object):
    def __getattr__(self, name):
        import codecs
        return getattr(codecs, name)

    def decode(self, obj, encoding='utf-8', errors='strict'):
        import binascii
        if isinstance(obj, SYM):
            e = nat(encoding).replace('-', '_').lower()
            if e in ('hex_codec', 'hex'):
                if isinstance(obj, SymStr):
                    if not bool(obj.isascii()):
                        raise ValueError('string argument should contain only ASCII characters')
                    cps = obj.c
                else:
                    cps = obj.b
                try:
                    return mkbytes(strs.unhex_items(cps, binascii.Error))
                except binascii.Error as ex:
                    raise binascii.Error('decoding with hex codec failed: %s' % ex)
            if isinstance(obj, SymStr):
                raise TypeError('decoder argument')
            return obj.decode(encoding, errors)
        if isinstance(obj, (list,)):
            raise TypeError('a bytes-like object is required')
        import codecs
        return codecs.decode(obj, encoding, errors)

    def encode(self, obj, encoding='utf-8', errors='strict'):
        if isinstance(obj, (SBytearray, SymBytes)):
            e = nat(encoding).replace('-', '_').lower()
            if e in ('hex_codec', 'hex'):
                return mkbytes(strs.hex_cps(obj.b))
            raise TypeError('codecs.encode of bytes')
        if isinstance(obj, SymStr):
            return strs.str_encode(obj, encoding, errors)
        import codecs
        return codecs.encode(obj, encoding, errors)


class BinasciiModule(object):
    def __getattr__(self, name):
        import binascii
        return getattr(binascii, name)

    def hexlify(self, data, *a):
        if isinstance(data, (SBytearray, SymBytes)):
            return mkbytes(strs.hex_cps(data.b))
        import binascii
        return binascii.hexlify(data, *a)
    b2a_hex = hexlify

    def unhexlify(self, data):
        import binascii
        if isinstance(data, SymStr):
            if not bool(data.isascii()):
                raise ValueError('string argument should contain only ASCII characters')
            return mkbytes(strs.unhex_items(data.c, binascii.Error))
        if isinstance(data, (SBytearray, SymBytes)):
            return mkbytes(strs.unhex_items(data.b, binascii.Error))
        return binascii.unhexlify(data)
    a2b_hex = unhexlify


def make_weakref():
    import weakref as _w

    class WeakValueDictionary(object):
        def __init__(self, *a):
            self._d = SDict()

        def _live(self):
            for k in list(self._d.keys()):
                if self._d[k]() is None:
                    del self._d[k]

        def __setitem__(self, k, v):
            self._live()
            self._d[k] = _w.ref(v)

        def __getitem__(self, k):
            self._live()
            v = self._d[k]()
            if v is None:
                raise KeyError(k)
            return v

        def __delitem__(self, k):
            self._live()
            del self._d[k]

        def get(self, k, d=None):
            try:
                return self[k]
            except KeyError:
                return d

        def _has(self, k):
            self._live()
            return self._d._has(k)

        def __contains__(self, k):
            return bool(self._has(k))

        def __len__(self):
            self._live()
            return len(self._d)

        def __iter__(self):
            self._live()
            return iter(list(self._d))

        def keys(self):
            self._live()
            return list(self._d)

        def values(self):
            self._live()
            return [r() for r in self._d.values()]

        def items(self):
            self._live()
            return [(k, r()) for k, r in self._d.items()]

        def pop(self, k, *a):
            self._live()
            try:
                r = self._d.pop(k)
            except KeyError:
                if a:
                    return a[0]
                raise
            return r()

        def setdefault(self, k, v):
            if k in self:
                return self[k]
            self[k] = v
            return v

        def clear(self):
            self._d.clear()

    class Mod(object):
        def __getattr__(self, name):
            return getattr(_w, name)
    m = Mod()
    m.WeakValueDictionary = WeakValueDictionary
    return m
