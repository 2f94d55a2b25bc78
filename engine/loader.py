"""Loads the code under check from the repository's current source.
sym mode   : the source is parsed, instrumented (operators, calls, displays go through rt) and executed;
native mode: the source is executed by CPython, unmodified but for preemption points (SharedPoints).
In both modes the environment modules (serial, threading, time, logging, termios, ...) are stand-ins."""
import ast, builtins, os, sys, types
from . import core, rt, dt, rx, sched as sched_mod
from .core import SymInt, SymBool, band, bor, bnot, ite, PathPruned, PathStop
from .strs import SymStr, SymBytes, SBytearray, mkstr, mkbytes, nat

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ROOTS = {'gsmmodem': os.path.join(REPO, 'gsmmodem'),
         'gsmtermlib': os.path.join(REPO, 'tools', 'gsmtermlib'),
         'sendsms': os.path.join(REPO, 'tools', 'sendsms'),
         'identify-modem': os.path.join(REPO, 'tools', 'identify-modem'),
         'gsmterm': os.path.join(REPO, 'tools', 'gsmterm'),
         'harness': os.path.join(VERIF, 'harness')}

RT = '__vrt__'
_SKIP_CALLS = {'__pt__', 'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', 'getattr', 'hasattr', 'setattr',
               'isinstance', 'issubclass', 'property', 'classmethod', 'staticmethod', 'object', 'iter', 'next',
               'len', 'ord', 'chr', 'range', 'enumerate', 'zip', 'list', 'tuple', 'sorted', 'int', 'str',
               'bytearray', 'bytes'}


def _load(name):
    return ast.Name(id=name, ctx=ast.Load())


def _rt(attr, *args, keywords=()):
    return ast.Call(func=ast.Attribute(value=_load(RT), attr=attr, ctx=ast.Load()), args=list(args),
                    keywords=list(keywords))


def _mangled(n):
    return n.startswith('__') and not n.endswith('__')


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    # functions
    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.stack.append(node.name)
        body = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        qual = '.'.join(self.stack)
        self.stack.pop()
        ent = ast.Expr(_rt('enter', ast.Constant(qual)))
        i = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                  and isinstance(body[0].value.value, str)) else 0
        body.insert(i, ent)
        node.body = body
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in _SKIP_CALLS:
                self.generic_visit(node)
                return node
            self.generic_visit(node)
            return _rt('call', node.func, *node.args, keywords=node.keywords)
        if isinstance(f, ast.Attribute) and not _mangled(f.attr):
            self.generic_visit(node)
            return _rt('mcall', f.value, ast.Constant(f.attr), *node.args, keywords=node.keywords)
        self.generic_visit(node)
        return _rt('call', node.func, *node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                none = ast.Constant(None)
                s = ast.Call(func=ast.Attribute(value=_load(RT), attr='slice', ctx=ast.Load()),
                             args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
            return _rt('getitem', node.value, s)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, a, b = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.Eq):
                return _rt('eq', a, b)
            if isinstance(op, ast.NotEq):
                return _rt('ne', a, b)
            if isinstance(op, ast.In):
                return _rt('contains', b, a)
            if isinstance(op, ast.NotIn):
                return _rt('notcontains', b, a)
            if isinstance(op, (ast.Is, ast.IsNot)):
                for x, y in ((a, b), (b, a)):
                    if isinstance(y, ast.Constant) and isinstance(y.value, bool):
                        return _rt('is_' if isinstance(op, ast.Is) else 'isnot_', x, y)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _rt('mod', node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return _rt('fstr', *parts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            kk = k if k is not None else ast.Attribute(value=_load(RT), attr='DSTAR', ctx=ast.Load())
            pairs.append(ast.Tuple([kk, v], ast.Load()))
        return _rt('mkdict', ast.Tuple(pairs, ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _rt('mkdict', ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return _rt('mkset', ast.Tuple(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _rt('mkset', ast.GeneratorExp(node.elt, node.generators))

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        bare = node.type is None
        if not bare:
            names = [node.type] if not isinstance(node.type, ast.Tuple) else node.type.elts
            bare = any(isinstance(n, ast.Name) and n.id == 'BaseException' for n in names)
        if bare:
            node.body.insert(0, ast.Expr(_rt('reraise')))
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_rt('tick')))
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        return node

    def visit_match_stmt(self, node):
        return node


class SharedPoints(ast.NodeTransformer):
    """inserts a possible preemption point before every access `x.attr` of an attribute that the module
    also assigns outside constructors (both in sym and native mode: the schedule is part of the input)"""
    CTORS = ('__init__', 'connect')

    def __init__(self, tree):
        self.attrs = set()
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef) and f.name not in self.CTORS:
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        self.attrs.add(n.attr)
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute):
                        self.attrs.add(n.value.attr)      # containers changed in place
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.attr in (
                            'pop', 'append', 'add', 'remove', 'clear', 'update', 'setdefault', 'insert', 'extend', 'discard', 'popitem', 'sort', 'reverse'):
                        self.attrs.add(n.func.value.attr)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.value, (ast.Name, ast.Attribute)) and node.attr in self.attrs:
            node.value = ast.copy_location(ast.Call(func=_load('__pt__'), args=[node.value, ast.Constant(node.attr)], keywords=[]), node.value)
        return node


POINTS = ('gsmmodem.serial_comms', 'gsmmodem.modem')
_code_cache = {}


def get_code(path, modname, sym):
    key = (path, sym)
    c = _code_cache.get(key)
    if c is None:
        with open(path, 'r', encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        if modname in POINTS:
            tree = SharedPoints(tree).visit(tree)
            ast.fix_missing_locations(tree)
        if sym:
            tree = Instrument(modname).visit(tree)
            ast.fix_missing_locations(tree)
        c = _code_cache[key] = compile(tree, path, 'exec', dont_inherit=True)
    return c


class NullLogger(object):
    def _n(self, *a, **k):
        return None
    debug = info = warning = warn = error = exception = critical = log = setLevel = addHandler = _n
    disabled = False
    level = 0
    handlers = ()
    name = 'null'
    propagate = False

    def isEnabledFor(self, lvl):
        return False

    def getEffectiveLevel(self):
        return 50

    def hasHandlers(self):
        return False

    def getChild(self, n):
        return self


class NullLogging(object):
    DEBUG, INFO, WARNING, WARN, ERROR, CRITICAL, NOTSET, FATAL = 10, 20, 30, 30, 40, 50, 0, 50
    _l = NullLogger()

    def getLogger(self, *a):
        return self._l

    def basicConfig(self, *a, **k):
        pass

    debug = info = warning = warn = error = exception = critical = basicConfig

    def Formatter(self, *a, **k):
        return None

    def StreamHandler(self, *a, **k):
        return None
    NullHandler = FileHandler = StreamHandler


class Stdout(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class SysShim(object):
    def __init__(self, world):
        self._w = world
        self.stdout = world.stdout
        self.stderr = Stdout()

        class In(object):
            def fileno(self):
                return 0
        self.stdin = In()
        self.argv = ['prog']

    def __getattr__(self, n):
        return getattr(sys, n)


class Obj(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def make_argparse(world):
    """the real argparse on the arguments of the harness (V.set_argv)"""
    import argparse

    class ArgumentParser(argparse.ArgumentParser):
        def parse_args(self, args=None, namespace=None):
            if args is None:
                args = world.shims['sys'].argv[1:]
            ns = argparse.ArgumentParser.parse_args(self, [nat(a) for a in args], namespace)
            for k, v in list(vars(ns).items()):
                if isinstance(v, str) and v in world.argsub:
                    setattr(ns, k, world.argsub[v])
            return ns

        def _print_message(self, message, file=None):
            pass
    return Obj(ArgumentParser=ArgumentParser, __name__='argparse')


def make_serial(world):
    class SerialException(IOError):
        pass

    class SerialTimeoutException(SerialException):
        pass

    def Serial(*a, **k):
        f = world.serial_factory
        if f is None:
            raise SerialException('no device')
        return f(*a, **k)

    def to_bytes(seq):
        return ''.join(chr(x) for x in seq)
    return Obj(Serial=Serial, SerialException=SerialException, SerialTimeoutException=SerialTimeoutException,
               to_bytes=to_bytes, VERSION='2.7', __name__='serial')


class World(object):
    """One execution environment (fresh per path / per native run)."""

    def __init__(self, sym, values=None):
        self.sym = sym
        self.modules = {}
        self.values = values or {}
        self.used = {}
        self.sched = sched_mod.Scheduler()
        self.serial_factory = None
        self.stdout = Stdout()
        self.observed = []
        self.checks = []
        self.reached = {}
        self.files = {}
        self.argsub = {}
        self.input = None
        S = self.sched
        noop = lambda *a, **k: None
        self.shims = {
            'threading': sched_mod.make_threading(S),
            'time': sched_mod.make_time(S),
            'serial': make_serial(self),
            'logging': NullLogging(),
            'sys': SysShim(self),
            'termios': Obj(tcgetattr=lambda fd: [0, 0, 0, 0, 0, 0, {}], tcsetattr=noop, ICANON=2, ECHO=8, ISIG=1,
                           VMIN=6, VTIME=5, TCSANOW=0, TCSAFLUSH=2, error=OSError),
            'tty': Obj(setraw=noop),
            'os': Obj(name='posix', read=None, environ={}, path=os.path, linesep='\n', getpid=lambda: 1,
                      isatty=lambda fd: False),
            'vlib': VLib(self),
        }
        self.shims['argparse'] = make_argparse(self)
        if sym:
            self.shims.update({'re': rx.ReModule(), 'datetime': dt.Module(), 'codecs': rt.CodecsModule(),
                               'binascii': rt.BinasciiModule(), 'weakref': rt.make_weakref()})
            self.builtins = rt.make_builtins(self, self._import)
            self.rtobj = rt
        else:
            self.builtins = dict(builtins.__dict__)
            self.builtins['__import__'] = self._import
            self.builtins['open'] = self.open_
            self.builtins['print'] = self.print_
        self.builtins['input'] = self.input_

    def pt(self, obj, attr):
        S = self.sched
        if S.fine and S.chooser is not None and (S.fine is True or attr in S.fine):
            S.point(attr)
        return obj

    # -- environment functions
    def print_(self, *a, **k):
        sep = k.get('sep', ' ')
        end = k.get('end', '\n')
        st = rt._mk_str if self.sym else str
        for i, x in enumerate(a):
            if i:
                self.stdout.write(sep)
            self.stdout.write(st(x))
        self.stdout.write(end)

    def input_(self, prompt=''):
        self.stdout.write(prompt)
        return self.input()

    def open_(self, name, *a, **k):
        if self.sym:
            name = nat(name)
        if name in self.files:
            import io
            return io.StringIO(self.files[name])
        raise IOError('no such file: %r' % name)

    # -- importing
    def _path(self, name):
        parts = name.split('.')
        root = ROOTS.get(parts[0])
        if root is None:
            return None, False
        p = os.path.join(root, *parts[1:])
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, pkg = self._path(name)
        if path is None or not (os.path.exists(path)):
            raise ImportError('no module named ' + name)
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = m
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__pt__'] = self.pt
        if self.sym:
            m.__dict__[RT] = self.rtobj
        try:
            exec(get_code(path, name, self.sym), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if '.' in name:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name in self.shims and not level:
            return self.shims[name]
        top = name.split('.')[0]
        if top in ROOTS:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ImportError:
                            pass
                return m
            return self.load(top)
        return builtins.__import__(name, globals, locals, fromlist or (), 0)


# ------------------------------------------------------------------ harness API
class CheckFailed(Exception):
    pass


class VLib(object):
    """API of the harnesses (same surface in both modes)."""

    def __init__(self, world):
        self.w = world
        self.sym = world.sym
        self.params = None
        self._n = {}

    def _name(self, name):
        k = self._n.get(name, 0)
        self._n[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    # -- inputs
    def int(self, name, lo, hi):
        name = self._name(name)
        if self.sym:
            return core.fresh_int(name, lo, hi)
        v = self.w.values.get(name, lo)
        self.w.used[name] = v
        return v

    def bool(self, name):
        name = self._name(name)
        if self.sym:
            return core.fresh_bool(name)
        v = bool(self.w.values.get(name, 0))
        return v

    def choice(self, name, n):
        """a concrete int in [0,n), all explored"""
        if n == 1:
            return 0
        v = self.int(name, 0, n - 1)
        if self.sym:
            return v.concretize() if isinstance(v, SymInt) else v
        return v

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    def char(self, name, charset=(0, 0x10FFFF)):
        if isinstance(charset, str):
            cps = sorted({ord(c) for c in charset})
            ranges = []
            for c in cps:
                if ranges and ranges[-1][1] == c - 1:
                    ranges[-1][1] = c
                else:
                    ranges.append([c, c])
        elif isinstance(charset[0], int):
            ranges = [charset]
        else:
            ranges = sorted(charset)
        lo, hi = ranges[0][0], ranges[-1][1]
        v = self.int(name, lo, hi)
        if self.sym:
            if len(ranges) > 1:
                self.assume(bor(*[band(v >= a, v <= b) for a, b in ranges]))
            return mkstr([v])
        return chr(v)

    def str(self, name, n, charset=(0, 0x10FFFF)):
        s = ''
        cs = [self.char('%s[%d]' % (name, i), charset) for i in range(n)]
        if self.sym:
            out = []
            for c in cs:
                out.extend([ord(c)] if isinstance(c, str) else c.c)
            return mkstr(out)
        return ''.join(cs)

    def bytes(self, name, n, lo=0, hi=255):
        vals = [self.int('%s[%d]' % (name, i), lo, hi) for i in range(n)]
        return SBytearray(vals) if self.sym else bytearray(vals)

    # -- logic
    def assume(self, cond):
        if self.sym:
            core.CTX.assume(cond)
        elif not cond:
            raise PathPruned()

    def check(self, cond, msg, known=None):
        if self.sym:
            core.CTX.check(cond, msg, known)
        else:
            ok = bool(cond)
            kn = known[0] if known is not None and bool(known[1]) else None
            self.w.checks.append((msg, ok, kn))
            if not ok:
                raise CheckFailed(msg)

    def reach(self, label):
        r = core.CTX.reached if self.sym else self.w.reached
        r['reach:' + label] = r.get('reach:' + label, 0) + 1

    def observe(self, name, v):
        self.w.observed.append((name, v))

    def stop(self):
        raise PathStop()

    def And(self, *c):
        if self.sym:
            return band(*c)
        return all(bool(x) for x in c)

    def Or(self, *c):
        if self.sym:
            return bor(*c)
        return any(bool(x) for x in c)

    def Not(self, c):
        return bnot(c) if self.sym else not c

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        if self.sym:
            return ite(c, a, b)
        return a if c else b

    def eq(self, a, b):
        if self.sym:
            return rt.values_eq(a, b)
        return a == b

    def conc(self, v):
        """enumerate the values of v"""
        return rt.conc(v) if self.sym else v

    def nth(self, table, i):
        return rt.getitem(table, i) if self.sym else table[i]

    # -- environment
    @property
    def sched(self):
        return self.w.sched

    @property
    def stdout(self):
        return self.w.stdout

    def schedule(self, preemptions, fine=True, tasks=None, blocks=None):
        """lets the solver choose the schedule: up to `preemptions` preemptions at synchronisation calls and
        (fine) accesses of shared attributes, and any order of the tasks (the first `blocks` times) where the
        running one blocks"""
        S = self.w.sched
        S.fine = fine
        left = [preemptions, 10 ** 9 if blocks is None else blocks]
        n = [0]

        def chooser(kind, r, cur, label=''):
            if kind == 'point':
                if left[0] <= 0 or (tasks is not None and cur.name not in tasks):
                    return r.index(cur)
                others = [t for t in r if t is not cur]
                n[0] += 1
                k = self.choice('s%d' % n[0], len(others) + 1)
                if k == 0:
                    return r.index(cur)
                left[0] -= 1
                return r.index(others[k - 1])
            i = S.tasks.index(cur)
            order = [t for t in S.tasks[i + 1:] + S.tasks[:i + 1] if t in r]
            if left[1] <= 0:
                return r.index(order[0])
            left[1] -= 1
            n[0] += 1
            return r.index(order[self.choice('s%d' % n[0], len(r))])
        S.chooser = chooser

    def schedule_off(self):
        self.w.sched.chooser = None

    def set_serial(self, factory):
        self.w.serial_factory = factory

    @property
    def serial(self):
        return self.w.shims['serial']

    def load(self, name):
        return self.w.load(name)

    def set_argv(self, argv, sub=None):
        """the command line; sub: stand-ins for argument values"""
        self.w.shims['sys'].argv[:] = argv
        self.w.argsub.update(sub or {})

    def set_input(self, fn):
        self.w.input = fn

    @property
    def stderr(self):
        return self.w.shims['sys'].stderr

    def add_file(self, name, text):
        self.w.files[name] = text

    def set_module(self, name, **attrs):
        """stands in for a module of the repository (named in the harness' ASSUMPTIONS)"""
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        self.w.modules[name] = m

    def set_os_read(self, fn):
        self.w.shims['os'].read = fn


rt.slice = slice
