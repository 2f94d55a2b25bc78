"""Symbolic core: path exploration by re-execution, symbolic booleans, integers
(exact Python integers: adaptive-width signed bit-vectors with intervals) and
rationals.  Every branch on a symbolic condition is decided by the SMT solver."""
import sys, time
from fractions import Fraction
import z3

z3.set_param('memory_max_size', 6000)


# ---------------------------------------------------------------- control flow
class Control(BaseException):
    """Base of exceptions that steer the exploration (never seen by code under check)."""


class PathPruned(Control):
    pass


class PathStop(Control):
    """End the path early (all obligations of it already decided)."""


class Incomplete(Control):
    """Budget exhausted / solver unknown: the job is inconclusive."""


class EngineError(Control):
    pass


FAST_MS = 200
VALIDATE_MODELS = True


class Entry(object):
    __slots__ = ('kind', 'eid', 'value', 'alts', 'depth', 'model', 'payload', 'cond')

    def __init__(self, kind, cond, value, alts=None, depth=0, model=None, payload=None):
        self.kind = kind
        self.cond = cond         # keeps the expression (and so its id) alive
        self.eid = cond.get_id() if cond is not None else 0
        self.value = value
        self.alts = alts
        self.depth = depth
        self.model = model
        self.payload = payload


class Explorer(object):
    """Depth-first exploration of all feasible paths of a function."""

    def __init__(self, max_paths=10 ** 9, max_seconds=1e9, max_decisions=400000, solver_timeout_ms=60000,
                 stop_after=4):
        # the incremental QF_BV solver of z3 5.3.2 has been seen to return models that violate the
        # asserted formulas (found by replaying counterexamples): the SMT core is used incrementally
        # instead, a fresh QF_BV solver where it takes long, and every model is checked before use
        self.solver = z3.SimpleSolver()
        self.fast_ms = min(FAST_MS, solver_timeout_ms)
        self.slow_ms = solver_timeout_ms
        self.solver.set('timeout', self.fast_ms)
        self.fresh = 0           # queries decided by a fresh solver
        self.trail = []
        self.pos = 0
        self.depth = 0           # solver push depth
        self.model = None
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.pruned = 0
        self.branches = 0        # symbolic branch decisions with two feasible sides
        self.forced = 0          # symbolic decisions with one feasible side
        self.obligations = 0
        self.trivial = 0
        self.max_paths = max_paths
        self.t0 = time.time()
        self.deadline = self.t0 + max_seconds
        self.max_decisions = max_decisions
        self.stop_after = stop_after
        self.vars = {}           # name -> z3 const (per path, same names give same consts)
        self.names = []          # order of creation in the current path: (name, meta)
        self.violations = []
        self.known = []
        self.reached = {}
        self.dead = False
        self.functions = set()
        self.observed = []
        self.incomplete_reason = None
        self.hard_exprs = 0

    # ------------------------------------------------------------ solver glue
    def _check(self, extra=None):
        self.queries += 1
        t = time.time()
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        self.solver.set('timeout', self.fast_ms)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        why = ''
        if r == z3.unknown:
            self.fast_ms = max(25, self.fast_ms // 2)
        elif self.fast_ms < FAST_MS:
            self.fast_ms = min(FAST_MS, self.fast_ms + 5)
        if r == z3.unknown or (m is not None and not self._valid(m)):
            s = z3.SolverFor('QF_BV')
            s.set('timeout', self.slow_ms)
            s.add(self.solver.assertions())
            self.fresh += 1
            r = s.check()
            m = None
            if r == z3.sat:
                m = s.model()
                if not self._valid(m):
                    raise EngineError('the solver returned a model that violates the asserted formulas')
            elif r == z3.unknown:
                why = s.reason_unknown()
        if extra is not None:
            self.solver.pop()
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Incomplete('solver returned unknown: %s' % why)
        if time.time() > self.deadline:
            raise Incomplete('time budget')
        return m

    def _valid(self, m):
        if not VALIDATE_MODELS:
            return True
        return all(z3.is_true(m.eval(a, model_completion=True)) for a in self.solver.assertions())

    def _eval(self, expr):
        v = self.model.eval(expr, model_completion=True)
        return v

    def var(self, name, width):
        key = (name, width)
        v = self.vars.get(key)
        if v is None:
            v = self.vars[key] = z3.BitVec(name, width)
        return v

    def _guard(self):
        if self.dead:
            raise PathPruned('dead')
        if self.pos > self.max_decisions:
            raise Incomplete('decision budget on one path')

    # ---------------------------------------------------------------- branches
    def branch(self, cond):
        """cond: z3 BoolRef.  Returns the truth value taken on this path."""
        self._guard()
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'b' or e.eid != cond.get_id():
                raise EngineError('non-deterministic re-execution (branch)')
            self.pos += 1
            return e.value
        v = z3.is_true(self._eval(cond))
        other = z3.Not(cond) if v else cond
        m = self._check(other)
        if m is None:
            self.forced += 1
            self.trail.append(Entry('b', cond, v))
        else:
            self.branches += 1
            e = Entry('b', cond, v, alts=other, depth=self.depth, model=m)
            self.trail.append(e)
            self.solver.push()
            self.depth += 1
            self.solver.add(cond if v else z3.Not(cond))
        self.pos += 1
        return v

    def payload(self, kind, fn):
        """Record a value computed from the current model so that re-execution sees the same one."""
        self._guard()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != kind:
                raise EngineError('non-deterministic re-execution (payload)')
            self.pos += 1
            return e.payload
        v = fn()
        self.trail.append(Entry(kind, None, None, payload=v))
        self.pos += 1
        return v

    def assume(self, cond):
        self._guard()
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, z3.BoolRef):
            if z3.is_true(cond):
                return
            if z3.is_false(cond):
                raise PathPruned()
        else:
            if cond:
                return
            raise PathPruned()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'a' or e.eid != cond.get_id():
                raise EngineError('non-deterministic re-execution (assume)')
            self.pos += 1
            return
        if not z3.is_true(self._eval(cond)):
            m = self._check(cond)
            if m is None:
                self.trail.append(Entry('a', cond, False))
                self.pos += 1
                raise PathPruned()
            self.model = m
        self.solver.add(cond)
        self.trail.append(Entry('a', cond, True))
        self.pos += 1

    def check(self, cond, msg, known=None):
        """Obligation: cond must hold on this path for every value."""
        self._guard()
        kexpr = None
        if known is not None:
            kid, kcond = known
            kexpr = kcond.e if isinstance(kcond, SymBool) else z3.BoolVal(bool(kcond))
        if isinstance(cond, SymBool):
            e = cond.e
        else:
            e = z3.BoolVal(bool(cond))
        self.reached[msg] = self.reached.get(msg, 0) + 1
        if self.pos < len(self.trail):
            en = self.trail[self.pos]
            if en.kind != 'c' or en.eid != e.get_id():
                raise EngineError('non-deterministic re-execution (check)')
            self.pos += 1
            return
        self.obligations += 1
        self.trail.append(Entry('c', e, None))
        self.pos += 1
        if z3.is_true(e):
            self.trivial += 1
            return
        neg = z3.Not(e)
        if kexpr is None:
            m = self._check(neg)
            if m is not None:
                self.report(m, msg)
        else:
            m = self._check(z3.And(neg, z3.Not(kexpr)))
            if m is not None:
                self.report(m, msg)
            mk = self._check(z3.And(neg, kexpr))
            if mk is not None:
                self.known.append((kid, msg, self.inputs(mk)))
                m = m or mk
        if m is not None:
            # continue under the condition, if possible
            mm = self._check(e)
            if mm is None:
                raise PathPruned()
            self.model = mm
            self.solver.add(e)

    def report(self, model, msg, kind='check'):
        self.violations.append({'msg': msg, 'kind': kind, 'inputs': self.inputs(model)})
        if len(self.violations) >= self.stop_after:
            raise Incomplete('stopped after %d counterexamples' % len(self.violations))

    def inputs(self, model):
        d = {}
        for name, (v, lo, hi, signed) in self.names:
            val = model.eval(v, model_completion=True)
            d[name] = val.as_signed_long() if signed else val.as_long()
        return d

    # -------------------------------------------------------------- exploration
    def run(self, fn, on_end=None, on_exception=None):
        """fn() is executed once per feasible path."""
        global CTX
        CTX = self
        try:
            m = self._check()
        except Incomplete as ex:
            self.incomplete_reason = str(ex)
            return False
        self.model = m
        sys.setrecursionlimit(20000)
        while True:
            self.pos = 0
            self.names = []
            self.observed = []
            self.dead = False
            exc = None
            try:
                try:
                    fn()
                    self.paths += 1
                    if on_end:
                        on_end(self)
                except PathPruned:
                    self.pruned += 1
                except PathStop:
                    self.paths += 1
                    if on_end:
                        on_end(self)
                except Exception as ex:     # escaped from the harness
                    if not on_exception:
                        raise
                    self.paths += 1
                    on_exception(self, ex)
            except Incomplete as ex:
                self.incomplete_reason = str(ex)
                return False
            except EngineError as ex:
                self.incomplete_reason = 'engine: ' + str(ex)
                self.engine_error = True
                return False
            if time.time() > self.deadline:
                self.incomplete_reason = 'time budget'
                return False
            if self.paths >= self.max_paths:
                self.incomplete_reason = 'path budget'
                return False
            # backtrack
            while self.trail and not (self.trail[-1].kind == 'b' and self.trail[-1].alts is not None):
                self.trail.pop()
            if not self.trail:
                return True
            e = self.trail[-1]
            while self.depth > e.depth:
                self.solver.pop()
                self.depth -= 1
            self.solver.add(e.alts)
            # the alternative lives at the enclosing level: that level is popped together with
            # the next outer alternative, and nothing else of this level is explored any more
            e.value = not e.value
            self.model = e.model
            e.alts = None
            e.model = None


CTX = None


def ctx():
    return CTX


# ---------------------------------------------------------------- helpers
def sbits(lo, hi):
    """bits of a signed bit-vector that holds every value of [lo,hi]"""
    n = 1
    if hi > 0:
        n = max(n, hi.bit_length() + 1)
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    return n


def is_sym(v):
    return isinstance(v, SYMTYPES)


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def _int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if o is True:
            return self
        if o is False:
            return mkbool(z3.Not(self.e))
        if isinstance(o, (int, SymInt)):
            return self._int() == o
        return False

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __invert__(self):
        return ~self._int()

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return band(self, o)
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bor(self, o)
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return self != o
        return self._int() ^ o
    __rxor__ = __xor__

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o
    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __repr__(self):
        return 'SymBool(%s)' % self.e


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(b):
    if isinstance(b, SymBool):
        return b.e
    return TRUE if b else FALSE


def bnot(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.e))
    return not b


def band(*bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return SymBool(es[0]) if len(es) == 1 else SymBool(z3.And(*es))


def bor(*bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return SymBool(es[0]) if len(es) == 1 else SymBool(z3.Or(*es))


def towidth(e, w):
    s = e.size()
    if s == w:
        return e
    if s < w:
        return z3.SignExt(w - s, e)
    return z3.Extract(w - 1, 0, e)


class SymInt(object):
    """Exact integer: signed bit-vector e, value known to lie in [lo,hi]."""
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    # -- conversions
    def at(self, w):
        return towidth(self.e, w)

    def concretize(self):
        c = CTX
        while True:
            v = c.payload('v', lambda: c._eval(self.e).as_signed_long())
            if c.branch(self.e == z3.BitVecVal(v, self.e.size())):
                return v

    def __index__(self):
        return self.concretize()
    __int__ = __index__

    def __float__(self):
        return float(self.concretize())

    def __hash__(self):
        return hash(self.concretize())

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __repr__(self):
        return 'SymInt[%d,%d]' % (self.lo, self.hi)

    # -- arithmetic
    def __add__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymRat):
            return SymRat(self, 1) + o
        if isinstance(o, int):
            if o == 0:
                return self
            lo, hi = self.lo + o, self.hi + o
            w = sbits(lo, hi)
            return SymInt(self.at(w) + z3.BitVecVal(o, w), lo, hi)
        lo, hi = self.lo + o.lo, self.hi + o.hi
        w = sbits(lo, hi)
        return mkint(self.at(w) + o.at(w), lo, hi)
    __radd__ = __add__

    def __neg__(self):
        lo, hi = -self.hi, -self.lo
        w = sbits(lo, hi)
        return mkint(-self.at(w), lo, hi)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return ite(self >= 0, self, -self)

    def __sub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymRat):
            return SymRat(self, 1) - o
        if isinstance(o, int):
            return self + (-o)
        lo, hi = self.lo - o.hi, self.hi - o.lo
        w = sbits(lo, hi)
        return mkint(self.at(w) - o.at(w), lo, hi)

    def __rsub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymRat):
            return SymRat(self, 1) * o
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            a, b = self.lo * o, self.hi * o
            lo, hi = min(a, b), max(a, b)
            w = sbits(lo, hi)
            return mkint(self.at(w) * z3.BitVecVal(o, w), lo, hi)
        c = (self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi)
        lo, hi = min(c), max(c)
        w = sbits(lo, hi)
        return mkint(self.at(w) * o.at(w), lo, hi)
    __rmul__ = __mul__

    def _modc(self, n):
        """self mod n, n>0 concrete"""
        if self.lo >= 0 and self.hi < n:
            return self
        if n == 1:
            return 0
        w = max(self.e.size(), sbits(0, n))
        if n & (n - 1) == 0:
            k = n.bit_length() - 1
            return mkint(z3.ZeroExt(1, z3.Extract(k - 1, 0, self.at(w))), 0, n - 1)
        x = self.at(w)
        c = z3.BitVecVal(n, w)
        r = z3.URem(x, c) if self.lo >= 0 else x % c    # bvsmod: sign of divisor
        return mkint(towidth(r, sbits(0, n - 1)), 0, n - 1)

    def _divc(self, n):
        """floor division by n>0 concrete"""
        if n == 1:
            return self
        lo, hi = self.lo // n, self.hi // n
        if lo == hi:
            return lo
        w = max(self.e.size(), sbits(0, n))
        if n & (n - 1) == 0:
            return self >> (n.bit_length() - 1)
        x = self.at(w)
        c = z3.BitVecVal(n, w)
        if self.lo >= 0:
            r = z3.UDiv(x, c)
        else:
            r = z3.If(x >= 0, z3.UDiv(x, c), ~z3.UDiv(~x, c))
        return mkint(towidth(r, sbits(lo, hi)), lo, hi)

    def __floordiv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymRat):
            return (SymRat(self, 1) / o).floor()
        if isinstance(o, SymInt):
            o = o.concretize()
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o > 0:
            return self._divc(o)
        return (-self) // (-o)

    def __mod__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymRat):
            raise EngineError('rational modulo')
        if isinstance(o, SymInt):
            o = o.concretize()
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o > 0:
            return self._modc(o)
        return -((-self) % (-o))

    def __rfloordiv__(self, o):
        return o // self.concretize()

    def __rmod__(self, o):
        return o % self.concretize()

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return divmod(o, self.concretize())

    def __truediv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return SymRat(self, 1) / o

    def __rtruediv__(self, o):
        return o / self.concretize()

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.concretize(), int(o), m)

    def __rpow__(self, o):
        k = self.concretize()
        return o ** k

    def __lshift__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            if isinstance(o, SymBool):
                o = o._int()
            if o.lo < 0 and bool(o < 0):
                raise ValueError('negative shift count')
            o = o.concretize()
        if o < 0:
            raise ValueError('negative shift count')
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.concretize()

    def __rshift__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = o.__index__()
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        lo, hi = self.lo >> o, self.hi >> o
        if lo == hi:
            return lo
        w = self.e.size()
        return mkint(z3.Extract(min(w - 1, o + sbits(lo, hi) - 1), o, self.e)
                     if o + sbits(lo, hi) <= w else towidth(z3.Extract(w - 1, o, self.e), sbits(lo, hi)), lo, hi)

    def __rrshift__(self, o):
        return o >> self.concretize()

    def _bit(self, o, op):
        if isinstance(o, SymBool):
            o = o._int()
        if isinstance(o, bool):
            o = int(o)
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        olo, ohi = (o, o) if isinstance(o, int) else (o.lo, o.hi)
        w = max(self.e.size(), sbits(olo, ohi))
        a = self.at(w)
        b = z3.BitVecVal(o, w) if isinstance(o, int) else o.at(w)
        if op == '&':
            r = a & b
            if self.lo >= 0 and olo >= 0:
                lo, hi = 0, min(self.hi, ohi)
            elif olo >= 0:
                lo, hi = 0, ohi
            elif self.lo >= 0:
                lo, hi = 0, self.hi
            else:
                lo, hi = -(1 << (w - 1)), max(self.hi, ohi, 0)
        else:
            r = (a | b) if op == '|' else (a ^ b)
            if self.lo >= 0 and olo >= 0:
                n = max(self.hi.bit_length(), ohi.bit_length())
                lo, hi = (max(self.lo, olo) if op == '|' else 0), (1 << n) - 1
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mkint(towidth(r, sbits(lo, hi)), lo, hi)

    def __and__(self, o):
        return self._bit(o, '&')
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, '|')
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, '^')
    __rxor__ = __xor__

    def __invert__(self):
        return mkint(~self.e, ~self.hi, ~self.lo)

    # -- comparison
    def _cmp(self, o, op):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymRat):
            return SymRat(self, 1)._cmp(o, op)
        olo, ohi = (o, o) if isinstance(o, int) else (o.lo, o.hi)
        if op == '==':
            if self.hi < olo or self.lo > ohi:
                return False
        elif op == '<':
            if self.hi < olo:
                return True
            if self.lo >= ohi:
                return False
        elif op == '<=':
            if self.hi <= olo:
                return True
            if self.lo > ohi:
                return False
        w = max(self.e.size(), sbits(olo, ohi))
        a = self.at(w)
        b = z3.BitVecVal(o, w) if isinstance(o, int) else o.at(w)
        if op == '==':
            if a.eq(b):
                return True
            return mkbool(a == b)
        if op == '<':
            return mkbool(a < b)
        return mkbool(a <= b)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        r = self._cmp(o, '<=')
        return r if r is NotImplemented else bnot(r)

    def __ge__(self, o):
        r = self._cmp(o, '<')
        return r if r is NotImplemented else bnot(r)

    # int methods
    def bit_length(self):
        x = abs(self)
        if isinstance(x, int):
            return x.bit_length()
        r = 0
        for k in range(x.hi.bit_length()):
            r = ite(x >= (1 << k), k + 1, r)
        return r

    def to_bytes(self, length=1, byteorder='big', signed=False):
        if signed:
            return self.concretize().to_bytes(length, byteorder, signed=True)
        if self.lo < 0 and bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if self.hi >= 256 ** length and bool(self >= 256 ** length):
            raise OverflowError('int too big to convert')
        from . import strs
        out = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == 'big':
            out.reverse()
        return strs.mkbytes(out)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def is_integer(self):
        return True

    def __format__(self, spec):
        from . import strs
        return strs.nat(strs.format_value(self, spec))


def mkint(e, lo, hi):
    if lo == hi:
        return lo
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def num(o):
    """int | SymInt | SymRat for a numeric operand, None otherwise"""
    t = type(o)
    if t is int or t is SymInt or t is SymRat:
        return o
    if t is bool:
        return int(o)
    if t is SymBool:
        return o._int()
    if t is float:
        if o != o or o in (float('inf'), float('-inf')):
            return None
        f = Fraction(o).limit_denominator(10 ** 6)
        if float(f) != o:
            f = Fraction(o)
        if f.denominator == 1:
            return SymRat(f.numerator, 1)
        return SymRat(f.numerator, f.denominator)
    if t is Fraction:
        return SymRat(o.numerator, o.denominator)
    if isinstance(o, int):
        return int(o)
    return None


class SymRat(object):
    """Exact rational n/d with d a positive concrete int (models a float result of a division)."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @staticmethod
    def of(o):
        o = num(o)
        if o is None:
            return None
        if isinstance(o, SymRat):
            return o
        return SymRat(o, 1)

    def _norm(self):
        if isinstance(self.n, int):
            return float(Fraction(self.n, self.d))
        return self

    def __add__(self, o):
        o = SymRat.of(o)
        if o is None:
            return NotImplemented
        if self.d == o.d:
            return SymRat(self.n + o.n, self.d)._norm()
        return SymRat(self.n * o.d + o.n * self.d, self.d * o.d)._norm()
    __radd__ = __add__

    def __neg__(self):
        return SymRat(-self.n, self.d)

    def __sub__(self, o):
        o = SymRat.of(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = SymRat.of(o)
        if o is None:
            return NotImplemented
        if isinstance(self.n, int) and isinstance(o.n, int):
            return float(Fraction(self.n * o.n, self.d * o.d))
        n, d = self.n, self.d
        on, od = o.n, o.d
        if isinstance(on, int):
            f = Fraction(on, d * od)
            return SymRat(n * f.numerator, f.denominator)._norm()
        if isinstance(n, int):
            f = Fraction(n, d * od)
            return SymRat(on * f.numerator, f.denominator)._norm()
        return SymRat(n * on, d * od)._norm()
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymRat.of(o)
        if o is None:
            return NotImplemented
        n = o.n
        if isinstance(n, SymInt):
            n = n.concretize()
        if n == 0:
            raise ZeroDivisionError('division by zero')
        return self * Fraction(o.d, n) if not isinstance(self.n, int) else float(Fraction(self.n, self.d) / Fraction(n, o.d))

    def __rtruediv__(self, o):
        n = self.n.concretize() if isinstance(self.n, SymInt) else self.n
        if n == 0:
            raise ZeroDivisionError('division by zero')
        return o / float(Fraction(n, self.d))

    def floor(self):
        return self.n // self.d

    def __floordiv__(self, o):
        r = self / o
        r = SymRat.of(r)
        return SymRat(r.n // r.d, 1)

    def __mod__(self, o):
        o = SymRat.of(o)
        if isinstance(o.n, SymInt):
            o = SymRat(o.n.concretize(), o.d)
        q = SymRat.of(self / Fraction(o.n, o.d)).floor()
        return self - q * Fraction(o.n, o.d)

    def __divmod__(self, o):
        return (self // o, self % o)

    def trunc(self):
        n = self.n
        if isinstance(n, int):
            return int(Fraction(n, self.d))
        if n.lo >= 0:
            return n // self.d
        if n.hi <= 0:
            return -((-n) // self.d)
        return ite(n >= 0, n // self.d, -((-n) // self.d))

    def ceil(self):
        return -((-self.n) // self.d)

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __round__(self, nd=None):
        if nd is not None:
            return round(float(self), nd)
        fl = self.floor()
        rem2 = (self.n - fl * self.d) * 2           # in [0, 2d)
        up = bor(rem2 > self.d, band(rem2 == self.d, (fl % 2) == 1))
        return ite(up, fl + 1, fl)

    def is_integer(self):
        return (self.n % self.d) == 0

    def __abs__(self):
        return SymRat(abs(self.n), self.d)

    def __float__(self):
        n = self.n.concretize() if isinstance(self.n, SymInt) else self.n
        return float(Fraction(n, self.d))

    def __int__(self):
        t = self.trunc()
        return t.concretize() if isinstance(t, SymInt) else t

    def __bool__(self):
        return bool(self.n != 0)

    def _cmp(self, o, op):
        o = SymRat.of(o)
        if o is None:
            return NotImplemented
        a, b = self.n * o.d, o.n * self.d
        if isinstance(a, int) and isinstance(b, int):
            return a == b if op == '==' else a < b if op == '<' else a <= b
        if isinstance(a, int):
            return (b == a) if op == '==' else (b > a) if op == '<' else (b >= a)
        return a._cmp(b, op)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        r = self._cmp(o, '<=')
        return r if r is NotImplemented else bnot(r)

    def __ge__(self, o):
        r = self._cmp(o, '<')
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        return hash(float(self))

    def __repr__(self):
        return 'SymRat(%r/%d)' % (self.n, self.d)


SYMTYPES = (SymInt, SymBool, SymRat)


def ite(c, a, b):
    """if-then-else without forking; a, b ints/bools (symbolic or not)."""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(c, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(z3.If(c.e, bexpr(a), bexpr(b)))
        a = num(a)
        b = num(b)
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if isinstance(a, SymRat) or isinstance(b, SymRat):
            a, b = SymRat.of(a), SymRat.of(b)
            return SymRat(ite(c, a.n * b.d, b.n * a.d), a.d * b.d)
        alo, ahi = (a, a) if isinstance(a, int) else (a.lo, a.hi)
        blo, bhi = (b, b) if isinstance(b, int) else (b.lo, b.hi)
        lo, hi = min(alo, blo), max(ahi, bhi)
        w = sbits(lo, hi)
        ea = z3.BitVecVal(a, w) if isinstance(a, int) else a.at(w)
        eb = z3.BitVecVal(b, w) if isinstance(b, int) else b.at(w)
        return mkint(z3.If(c.e, ea, eb), lo, hi)
    return a if c else b


def select(table, idx):
    """table[idx] for a list of (possibly symbolic) ints and SymInt idx known to be in range
    (mux tree over the bits of idx)."""
    n = len(table)
    lo, hi = max(idx.lo, 0), min(idx.hi, n - 1)
    vals = list(table)
    vlo = min((v if isinstance(v, int) else v.lo) for v in vals[lo:hi + 1])
    vhi = max((v if isinstance(v, int) else v.hi) for v in vals[lo:hi + 1])
    w = sbits(vlo, vhi)
    bits = hi.bit_length()
    if bits == 0:
        return vals[0]
    iw = max(idx.e.size(), bits + 1)
    ie = idx.at(iw)
    leaves = []
    for i in range(1 << bits):
        if lo <= i <= hi:
            v = vals[i]
            leaves.append(z3.BitVecVal(v, w) if isinstance(v, int) else v.at(w))
        else:
            leaves.append(None)
    one = z3.BitVecVal(1, 1)
    for b in range(bits):
        cond = z3.Extract(b, b, ie) == one
        nxt = []
        for i in range(0, len(leaves), 2):
            l, r = leaves[i], leaves[i + 1]
            if l is None:
                nxt.append(r)
            elif r is None or l.eq(r):
                nxt.append(l)
            else:
                nxt.append(z3.If(cond, r, l))
        leaves = nxt
    return mkint(leaves[0], vlo, vhi)


def fresh_int(name, lo, hi):
    """Symbolic input in [lo,hi] (registered as an input of the harness)."""
    c = CTX
    if lo == hi:
        return lo
    w = sbits(lo, hi)
    v = c.var(name, w)
    c.names.append((name, (v, lo, hi, True)))
    if lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1:
        return SymInt(v, lo, hi)
    c.assume(z3.And(v >= z3.BitVecVal(lo, w), v <= z3.BitVecVal(hi, w)))
    return SymInt(v, lo, hi)


def fresh_bool(name):
    c = CTX
    v = c.var(name, 1)
    c.names.append((name, (v, 0, 1, False)))
    return SymBool(v == z3.BitVecVal(1, 1))
