"""
Bounded symbolic execution of Python code: path exploration and proxy values.

The code under test runs natively, on proxy objects.  A proxy boolean asks the engine which way to
go when Python needs its truth value; the engine asks z3 which ways are feasible, takes one and
remembers the other.  Paths are explored depth-first by deterministic re-execution; the solver's
assertion stack is kept for the common prefix of two consecutive paths.

Integers are bit-vectors with an interval: every operation widens its result as needed, so that the
semantics are those of Python's unbounded integers, never wrapping.  Byte strings are ropes made of
vectors of 8-bit terms, slices of opaque arrays and runs of a repeated byte, whose lengths may be
symbolic.
"""
import math
import time

import weakref

import z3


class EngineStop(BaseException):
    """Control flow of the engine; code under test cannot catch it with `except Exception`."""

class PathAbort(EngineStop):
    pass

class PathLimit(EngineStop):
    pass

class Unsupported(EngineStop):
    pass

class EngineError(EngineStop):
    pass


class _Entry:
    __slots__ = ('cond', 'taken', 'pending', 'level', 'alt_model', 'kind')
    def __init__(self, kind, cond, taken=None, pending=False, level=0, alt_model=None):
        self.kind = kind
        self.cond = cond
        self.taken = taken
        self.pending = pending
        self.level = level
        self.alt_model = alt_model


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.decisions = 0
        self.forks = 0
        self.checks = 0          # assertions discharged by a query or syntactically
        self.check_queries = 0
        self.unknown = 0


class Engine:
    def __init__(self, timeout_ms=60000, max_events=60000):
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set('timeout', timeout_ms)
        self.max_events = max_events
        self.trace = []
        self.pos = 0
        self.model = None
        self.stats = Stats()
        self.level = 0
        self.deadline = None
        self.resyncs = 0
        self.begin_path()

    # -------------------------------------------------------------- path
    def begin_path(self):
        self.pos = 0
        self.counters = {}
        self.terms = []            # hash-like terms of this path
        self.term_index = {}       # (kind, input key) -> term
        self.term_bytes = {}       # ast id of an output byte -> (term, index)
        self.term_values = {}      # concrete output -> term
        self.exposed = []
        self.keepalive = []
        self.xor_forms = {}
        self.inputs = {}           # name -> ('int', SymInt|int) ... in creation order
        self.blobs = []
        self.path_forks = 0
        self.tables = {}           # of the crypto models

    def fresh(self, prefix):
        n = self.counters.get(prefix, 0)
        self.counters[prefix] = n + 1
        return f'{prefix}!{n}'

    # ------------------------------------------------------------ solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_time += time.perf_counter() - t
        if self.deadline and time.monotonic() > self.deadline:
            raise PathLimit("time budget exhausted")
        if r == z3.unknown:
            # second opinion from a non-incremental solver
            t = time.perf_counter()
            s = z3.SolverFor('QF_AUFBV')
            s.set('timeout', self.timeout_ms)
            s.add(self.solver.assertions())
            s.add(*extra)
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_time += time.perf_counter() - t
            if r == z3.sat:
                self._other_model = s.model()
            if r == z3.unknown:
                self.stats.unknown += 1
                raise Unsupported("solver answered unknown")
        elif r == z3.sat:
            self._other_model = self.solver.model()
        return r == z3.sat

    def get_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort("infeasible path")
            self.model = self._other_model
        return self.model

    def _next(self, kind, expr):
        """The recorded event that the re-execution meets again, None beyond the record."""
        if self.pos >= len(self.trace):
            if self.pos > self.max_events:
                raise PathLimit(f"more than {self.max_events} events on one path")
            return None
        # z3's simplifier depends on the order of creation of the terms: an event may be trivial
        # in one execution and not in another, so look a little further
        for j in range(self.pos, min(self.pos + 6, len(self.trace))):
            entry = self.trace[j]
            if entry.kind == kind and entry.cond.eq(expr):
                self.pos = j + 1
                return entry
        for j in range(self.pos, min(self.pos + 6, len(self.trace))):
            entry = self.trace[j]
            if entry.kind == kind and self._same(entry.cond, expr):
                self.pos = j + 1
                return entry
        return self._forced(kind, expr)

    def _forced(self, kind, expr):
        """An event that was not recorded: its outcome must follow from the recorded ones."""
        self.resyncs += 1
        if not self._check():
            raise PathAbort
        v = self._other_model.eval(expr, model_completion=True)
        if kind == 'a' and not z3.is_true(v) or self._check(expr != v):
            raise EngineError(f"non-deterministic execution: {self.trace[self.pos].cond} / {expr}")
        return _Entry(kind, expr, v.as_long() if kind == 'p' else z3.is_true(v))

    def _push_entry(self, entry):
        self.trace.append(entry)
        self.pos += 1

    def _same(self, a, b):
        """Re-execution must meet the same expressions (z3 may order arguments differently)."""
        if a.eq(b):
            return True
        if a.sort() != b.sort():
            return False
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(a != b)
        self.stats.queries += 1
        return s.check() == z3.unsat

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if entry := self._next('d', cond):
            return entry.taken
        self.stats.decisions += 1
        model = self.get_model()
        val = model.eval(cond, model_completion=True)
        taken = z3.is_true(val)
        other = z3.Not(cond) if taken else cond
        if self._check(other):
            alt = self._other_model
            self.stats.forks += 1
            self.path_forks += 1
            entry = _Entry('d', cond, taken, True, self.level, alt)
            self.solver.push()
            self.level += 1
            self.solver.add(cond if taken else z3.Not(cond))
        else:
            entry = _Entry('d', cond, taken)
        self._push_entry(entry)
        return taken

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if self._next('a', cond):
            return
        if z3.is_false(cond):
            raise PathAbort
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(
                self.model.eval(cond, model_completion=True)):
            self.model = None
        self._push_entry(_Entry('a', cond))
        if self.model is None and not self._check():
            raise PathAbort
        elif self.model is None:
            self.model = self._other_model

    def pick(self, expr):
        """A feasible value of a bit-vector; remembered so that re-execution picks the same."""
        expr = z3.simplify(expr)
        if z3.is_bv_value(expr):
            return expr.as_long()
        if entry := self._next('p', expr):
            return entry.taken
        v = self.get_model().eval(expr, model_completion=True).as_long()
        self._push_entry(_Entry('p', expr, v))
        return v

    def valid(self, cond):
        """Is cond true for all remaining values?  Returns None, or a model that breaks it."""
        self.stats.checks += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return None
        if z3.is_false(cond):
            return self.get_model()
        self.stats.check_queries += 1
        if self._check(z3.Not(cond)):
            return self._other_model
        return None

    def backtrack(self):
        """Prepare the next path; False when everything has been explored."""
        # events that were never reached again (aborted early) are dropped as well
        while self.trace:
            e = self.trace.pop()
            if not e.pending:
                continue
            for _ in range(self.level - e.level):
                self.solver.pop()
            self.level = e.level
            e.pending = False
            e.taken = not e.taken
            self.solver.add(e.cond if e.taken else z3.Not(e.cond))
            self.model = e.alt_model
            e.alt_model = None
            self.trace.append(e)
            return True
        return False


ENG = None        # the current engine

def set_engine(eng):
    global ENG
    ENG = eng


# ---------------------------------------------------------------------------------- booleans

def truth(x):
    if type(x) is SymBool:
        return ENG.decide(x.e)
    return bool(x)

def to_z3bool(x):
    if type(x) is SymBool:
        return x.e
    if x is True or x is False:
        return z3.BoolVal(x)
    if isinstance_sym_int(x):
        r = x != 0
        return to_z3bool(r)
    return z3.BoolVal(bool(x))

def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)

def sym_and(items):
    out = []
    for x in items:
        if x is False:
            return False
        if x is True:
            continue
        out.append(to_z3bool(x))
    if not out:
        return True
    return mkbool(z3.And(*out) if len(out) > 1 else out[0])

def sym_or(items):
    out = []
    for x in items:
        if x is True:
            return True
        if x is False:
            continue
        out.append(to_z3bool(x))
    if not out:
        return False
    return mkbool(z3.Or(*out) if len(out) > 1 else out[0])

def sym_not(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    return not x


class SymBool:
    __slots__ = ('e',)
    def __init__(self, e):
        self.e = e
    __class__ = property(lambda self: bool)
    def __bool__(self):
        return ENG.decide(self.e)
    def __and__(self, o):
        if o is True or o is False or type(o) is SymBool:
            return sym_and((self, o))
        return self._int() & o
    __rand__ = __and__
    def __or__(self, o):
        if o is True or o is False or type(o) is SymBool:
            return sym_or((self, o))
        return self._int() | o
    __ror__ = __or__
    def __xor__(self, o):
        if o is True or o is False or type(o) is SymBool:
            return mkbool(z3.Xor(self.e, to_z3bool(o)))
        return self._int() ^ o
    __rxor__ = __xor__
    def __eq__(self, o):
        if o is True or o is False or type(o) is SymBool:
            return mkbool(self.e == to_z3bool(o))
        return self._int() == o
    def __ne__(self, o):
        return sym_not(self == o)
    def _int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)
    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__
    def __mul__(self, o):
        return self._int() * o
    __rmul__ = __mul__
    def __sub__(self, o):
        return self._int() - o
    def __rsub__(self, o):
        return o - self._int()
    def __neg__(self): return -self._int()
    def __invert__(self): return ~self._int()
    def __lshift__(self, o): return self._int() << o
    def __rshift__(self, o): return self._int() >> o
    def __rlshift__(self, o): return o << self._int()
    def __rrshift__(self, o): return o >> self._int()
    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o
    def __int__(self):
        return int(bool(self))
    __index__ = __int__
    def __hash__(self):
        return hash(bool(self))
    def __repr__(self):
        return '<SymBool>'
    def __format__(self, spec):
        return '<SymBool>'


# ---------------------------------------------------------------------------------- integers

def _need(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((~lo).bit_length() if lo < 0 else 0, hi.bit_length() if hi > 0 else 0) + 1

def isinstance_sym_int(x):
    t = type(x)
    return t is SymInt or t is SymEnum

def _fit(e, signed, width):
    """Resize a bit-vector that is known to fit."""
    n = e.size()
    if n == width:
        return e
    if n > width:
        return z3.Extract(width - 1, 0, e)
    return z3.SignExt(width - n, e) if signed else z3.ZeroExt(width - n, e)

def lift(x):
    if type(x) is SymInt or type(x) is SymEnum:
        return x
    if type(x) is SymBool:
        return x._int()
    if isinstance(x, int):
        x = int(x)
        w = _need(x, x)
        return SymInt(z3.BitVecVal(x, w), x, x)
    return None

def mkint(e, lo, hi):
    """Normalise: constants become Python ints."""
    if lo == hi:
        return lo
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        v = e.as_long()
        if lo < 0 and v >= 1 << (e.size() - 1):
            v -= 1 << e.size()
        return v
    w = _need(lo, hi)
    if e.size() != w:
        e = z3.simplify(_fit(e, lo < 0, w))
    return SymInt(e, lo, hi)

def _common(a, b):
    lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
    w = _need(lo, hi)
    return _fit(a.e, a.lo < 0, w), _fit(b.e, b.lo < 0, w), lo < 0

def _widen(a, b, lo, hi):
    """Both operands in a width that holds them and any result in [lo, hi]."""
    l, h = min(a.lo, b.lo, lo), max(a.hi, b.hi, hi)
    w = _need(l, h)
    return _fit(a.e, a.lo < 0, w), _fit(b.e, b.lo < 0, w)

def _is_int(x):
    return type(x) is SymInt or type(x) is SymEnum or type(x) is SymBool or isinstance(x, int)


class SymInt:
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    __class__ = property(lambda self: int)

    # -- arithmetic
    def _bin(self, o, f, bounds):
        if isinstance(o, float):
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        lo, hi = bounds(self, o)
        a, b = _widen(self, o, lo, hi)
        return mkint(f(a, b), lo, hi)

    def __add__(self, o):
        if isinstance(o, float) and not isinstance(o, int):
            return o if math.isinf(o) else NotImplemented
        return self._bin(o, lambda a, b: a + b, lambda a, b: (a.lo + b.lo, a.hi + b.hi))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float) and not isinstance(o, int):
            return -o if math.isinf(o) else NotImplemented
        return self._bin(o, lambda a, b: a - b, lambda a, b: (a.lo - b.hi, a.hi - b.lo))

    def __rsub__(self, o):
        if isinstance(o, float) and not isinstance(o, int):
            return o if math.isinf(o) else NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        if type(o) in SEQ_TYPES:
            return o * self
        if isinstance(o, (bytes, bytearray)):
            if len(o) == 1:
                if self.lo <= 0 and truth(self <= 0):
                    return type(o)()
                r = mkbytes([Fill(o[0], self)])
                return SymByteArray(r) if isinstance(o, bytearray) else r
            return o * max(0, concretize(self))
        if isinstance(o, (str, list, tuple)):
            return o * concretize(self)
        if not _is_int(o):
            return NotImplemented
        def bounds(a, b):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return min(c), max(c)
        return self._bin(o, lambda a, b: a * b, bounds)
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0 or truth(self < 0):
            return -self
        return self

    def __invert__(self):
        return -1 - self

    def __floordiv__(self, o):
        if not _is_int(o):
            return NotImplemented
        o = concretize(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return (-self) // (-o)
        lo, hi = self.lo // o, self.hi // o
        a, b = _widen(self, lift(o), self.lo - o if self.lo < 0 else 0, max(hi, o))
        if self.lo >= 0:
            return mkint(z3.UDiv(a, b), lo, hi)
        m = a % b          # bvsmod: sign of the divisor
        return mkint((a - m) / b, lo, hi)

    def __rfloordiv__(self, o):
        if not _is_int(o):
            return NotImplemented
        return o // concretize(self)

    def __mod__(self, o):
        if not _is_int(o):
            return NotImplemented
        o = concretize(o)
        if o == 0:
            raise ZeroDivisionError("integer modulo by zero")
        if o < 0:
            return -((-self) % (-o))
        if 0 <= self.lo and self.hi < o:
            return self
        a, b = _widen(self, lift(o), min(0, self.lo), o)
        if self.lo >= 0:
            return mkint(z3.URem(a, b), 0, min(o - 1, self.hi))
        return mkint(a % b, 0, o - 1)

    def __rmod__(self, o):
        if not _is_int(o):
            return NotImplemented
        return o % concretize(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return divmod(o, concretize(self))

    def __truediv__(self, o):
        return SymRatio(self, concretize(o))

    def __rtruediv__(self, o):
        return o / concretize(self)

    def __pow__(self, o, mod=None):
        o = concretize(o)
        if mod is not None or o < 0:
            return pow(concretize(self), o, mod)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        return o ** concretize(self)

    def __lshift__(self, o):
        return self * (1 << concretize(o))

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, o):
        return self // (1 << concretize(o))

    def __rrshift__(self, o):
        return o >> concretize(self)

    def _bits(self, o, f, kind):
        if not _is_int(o):
            return NotImplemented
        o = lift(o)
        a, b, signed = _common(self, o)
        w = a.size()
        if signed:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if kind == 'and':
                if self.lo >= 0:
                    lo, hi = 0, self.hi
                if o.lo >= 0:
                    lo, hi = 0, min(o.hi, hi)
        else:
            lo, hi = 0, (1 << w) - 1
            if kind == 'and':
                hi = min(self.hi, o.hi)
            elif kind == 'or':
                lo = max(self.lo, o.lo)
        return mkint(f(a, b), lo, hi)

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b, 'and')
    __rand__ = __and__
    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b, 'or')
    __ror__ = __or__
    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b, 'xor')
    __rxor__ = __xor__

    # -- comparison
    def __eq__(self, o):
        if isinstance(o, float) and not isinstance(o, int):
            if o.is_integer():
                o = int(o)
            else:
                return False
        if not _is_int(o):
            return NotImplemented
        o = lift(o)
        if self.hi < o.lo or o.hi < self.lo:
            return False
        a, b, _ = _common(self, o)
        return mkbool(a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _cmp(self, o, sf, uf):
        a, b, signed = _common(self, o)
        return mkbool(sf(a, b) if signed else uf(a, b))

    def __lt__(self, o):
        if isinstance(o, float) and not isinstance(o, int):
            if math.isinf(o):
                return o > 0
            return self < math.ceil(o)
        if not _is_int(o):
            return NotImplemented
        o = lift(o)
        if self.hi < o.lo:
            return True
        if self.lo >= o.hi:
            return False
        return self._cmp(o, lambda a, b: a < b, z3.ULT)

    def __gt__(self, o):
        if isinstance(o, float) and not isinstance(o, int):
            if math.isinf(o):
                return o < 0
            return self > math.floor(o)
        if not _is_int(o):
            return NotImplemented
        return lift(o) < self

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else sym_not(r)

    def __bool__(self):
        return truth(self != 0)

    # -- conversions
    def __index__(self):
        return concretize(self)
    __int__ = __index__
    def __hash__(self):
        return hash(concretize(self))
    def __float__(self):
        return float(concretize(self))
    def __ceil__(self):
        return self
    __floor__ = __trunc__ = __ceil__
    def __round__(self, n=None):
        return self
    def __repr__(self):
        return FORMAT(self, 'r')
    def __str__(self):
        return FORMAT(self, 's')
    def __format__(self, spec):
        return FORMAT(self, spec)

    @property
    def real(self):
        return self
    numerator = real
    imag = 0
    denominator = 1

    def bit_length(self):
        m = max(abs(self.lo), abs(self.hi))
        x = abs(self)
        if not isinstance_sym_int(x):
            return x.bit_length()
        w = m.bit_length()
        rw = max(1, w.bit_length())
        e = z3.BitVecVal(0, rw)
        xe = _fit(x.e, False, max(w, x.e.size()))
        for i in range(w):
            e = z3.If(z3.Extract(i, i, xe) == 1, z3.BitVecVal(i + 1, rw), e)
        return mkint(e, 0, w)

    def bit_count(self):
        return concretize(self).bit_count()

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        length = concretize(length)
        x = self
        if signed:
            raise Unsupported("signed to_bytes")
        if x.lo < 0 and truth(x < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if x.hi >= 1 << (8 * length) and truth(x >= 1 << (8 * length)):
            raise OverflowError("int too big to convert")
        if not length:
            return b''
        # here 0 <= x < 256 ** length
        e = x.e
        if e.size() > 8 * length:
            e = z3.Extract(8 * length - 1, 0, e)
        elif e.size() < 8 * length:
            e = z3.ZeroExt(8 * length - e.size(), e)
        items = [byte_item(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(length - 1, -1, -1)]
        if byteorder == 'little':
            items.reverse()
        return mkbytes([tuple(items)])


class SymEnum(SymInt):
    """A symbolic member of an IntEnum (constrained to the values of its members)."""
    __slots__ = ('cls',)

    def __init__(self, e, lo, hi, cls):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.cls = cls

    __class__ = property(lambda self: self.cls)

    @property
    def value(self):
        return SymInt(self.e, self.lo, self.hi)
    _value_ = value

    def member(self):
        return self.cls(concretize(self))

    @property
    def name(self):
        return self.member().name
    _name_ = name

    def __getattr__(self, attr):
        if attr.startswith('__') and attr.endswith('__'):
            raise AttributeError(attr)
        return getattr(self.member(), attr)

    def __repr__(self):
        return f'<{self.cls.__name__}.?>'
    __str__ = __repr__
    def __format__(self, spec):
        return f'<{self.cls.__name__}.?>'


def make_enum(cls, x):
    """cls(x) for an IntEnum class and a symbolic integer."""
    if type(x) is SymEnum and x.cls is cls:
        return x
    x = SymInt(x.e, x.lo, x.hi)
    values = sorted({m.value for m in cls if x.lo <= m.value <= x.hi})
    if not truth(sym_or([x == v for v in values])):
        missing = getattr(cls, '_missing_', None)
        if missing is not None and getattr(missing, '__func__', None) is not \
                getattr(type_base_enum()._missing_, '__func__', None):
            got = missing(x)
            if got is not None:
                return got
        raise ValueError(f"<symbolic> is not a valid {cls.__qualname__}")
    if len(values) == 1:
        return cls(values[0])
    simplified = z3.simplify(x.e)
    if z3.is_bv_value(simplified):
        return cls(simplified.as_long())
    return SymEnum(x.e, max(x.lo, values[0]) if x.lo >= 0 else x.lo, x.hi, cls)

def type_base_enum():
    import enum
    return enum.Enum


class SymRatio:
    """symbolic / concrete, only good for rounding."""
    def __init__(self, num, den):
        if den == 0:
            raise ZeroDivisionError("division by zero")
        if isinstance(den, float):
            raise Unsupported("float division")
        if den < 0:
            num, den = -num, -den
        self.num, self.den = num, den
    def __ceil__(self):
        return -((-self.num) // self.den)
    def __floor__(self):
        return self.num // self.den
    def __trunc__(self):
        if truth(self.num < 0):
            return self.__ceil__()
        return self.__floor__()
    __int__ = __trunc__
    def __lt__(self, o): return self.num < o * self.den
    def __le__(self, o): return self.num <= o * self.den
    def __gt__(self, o): return self.num > o * self.den
    def __ge__(self, o): return self.num >= o * self.den
    def __eq__(self, o): return self.num == o * self.den
    __hash__ = None


CONCRETIZE_CAP = 1 << 17

def concretize(x, cap=None):
    """Fork over all values of x."""
    if not isinstance_sym_int(x):
        if type(x) is SymBool:
            return truth(x)
        return x
    if x.lo == x.hi:
        return x.lo
    n = 0
    signed = x.lo < 0
    w = x.e.size()
    while True:
        v = ENG.pick(x.e)
        sv = v - (1 << w) if signed and v >= 1 << (w - 1) else v
        if ENG.decide(x.e == z3.BitVecVal(v, w)):
            return sv
        n += 1
        if n > (cap or CONCRETIZE_CAP):
            raise Unsupported("too many values to enumerate")


FORMAT_CONCRETIZE = False
def FORMAT(x, spec):
    if FORMAT_CONCRETIZE:
        v = concretize(x)
        if spec == 'r':
            return repr(v)
        if spec == 's':
            return str(v)
        return format(v, spec)
    return '<int>'


class SymRange:
    def __init__(self, *args):
        if len(args) == 1:
            self.start, self.stop, self.step = 0, args[0], 1
        elif len(args) == 2:
            self.start, self.stop, self.step = *args, 1
        else:
            self.start, self.stop, self.step = args
        self.step = concretize(self.step)
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")
    def __iter__(self):
        i = self.start
        while truth(i < self.stop if self.step > 0 else i > self.stop):
            yield i
            i = i + self.step
    def length(self):
        s = abs(self.step)
        d = (self.stop - self.start) if self.step > 0 else (self.start - self.stop)
        if truth(d <= 0):
            return 0
        return (d + (s - 1)) // s
    def __len__(self):
        return concretize(self.length())
    def __bool__(self):
        return truth(self.start < self.stop if self.step > 0 else self.start > self.stop)
    def __reversed__(self):
        n = self.length()
        i = self.start + (n - 1) * self.step
        k = 0
        while truth(k < n):
            yield i
            i = i - self.step
            k = k + 1
    def __contains__(self, x):
        if self.step == 1:
            return truth(sym_and([x >= self.start, x < self.stop]))
        return any(truth(x == y) for y in self)
    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic range")
        n = self.length()
        if truth(i < 0):
            i = i + n
        if truth(sym_or([i < 0, i >= n])):
            raise IndexError("range object index out of range")
        return self.start + i * self.step
    def index(self, x):
        return x - self.start


# ------------------------------------------------------------------------------- byte strings

def byte_item(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e

def item_to_int(it):
    if isinstance(it, int):
        return it
    return SymInt(it, 0, 255)

def int_to_item(x):
    """A byte from an int-like; ValueError outside 0..255, as bytes() does."""
    if isinstance_sym_int(x):
        if (x.lo < 0 or x.hi > 255) and truth(sym_or([x < 0, x > 255])):
            raise ValueError("bytes must be in range(0, 256)")
        return byte_item(_fit(x.e, x.lo < 0, 8))
    if type(x) is SymBool:
        return byte_item(_fit(x._int().e, False, 8))
    x = x.__index__()
    if not 0 <= x <= 255:
        raise ValueError("bytes must be in range(0, 256)")
    return x


class Blob:
    """Opaque content of a symbolic length."""
    def __init__(self, name, length):
        self.name = name
        self.length = length
        self.arr = z3.Array(name, z3.BitVecSort(32), z3.BitVecSort(8))
        self.reads = []
    def at(self, i):
        i = lift(i)
        idx = z3.simplify(_fit(i.e, i.lo < 0, 32))
        self.reads.append(idx)
        return byte_item(z3.Select(self.arr, idx))


class Sub:
    __slots__ = ('blob', 'off', 'n')
    def __init__(self, blob, off, n):
        self.blob, self.off, self.n = blob, off, n

class Fill:
    __slots__ = ('b', 'n')
    def __init__(self, b, n):
        self.b, self.n = b, n


def seg_len(s):
    return len(s) if type(s) is tuple else s.n

def to_segs(x):
    """Segments of any bytes-like; None if it is not one."""
    t = type(x)
    if t is SymBytes:
        return x.segs
    if t is SymByteArray:
        return x.r.segs if type(x.r) is SymBytes else ((tuple(x.r),) if x.r else ())
    if t is bytes or t is bytearray:
        return (tuple(x),) if x else ()
    if t is memoryview:
        return (tuple(x),) if len(x) else ()
    if t is SymMemoryView:
        return x._segs()
    if isinstance(x, (bytes, bytearray)):
        return (tuple(x),) if len(x) else ()
    return None

def mkbytes(segs):
    """Merge segments; a fully concrete result becomes a real bytes object."""
    out = []
    for s in segs:
        if type(s) is tuple:
            if not s:
                continue
            if out and type(out[-1]) is tuple:
                out[-1] = out[-1] + s
            else:
                out.append(s)
        else:
            n = s.n
            if not isinstance_sym_int(n):
                if n == 0:
                    continue
                if type(s) is Fill and n <= 20000:
                    s = (s.b,) * n
                    if out and type(out[-1]) is tuple:
                        out[-1] = out[-1] + s
                    else:
                        out.append(s)
                    continue
            if out and type(s) is Sub and type(out[-1]) is Sub and out[-1].blob is s.blob:
                p = out[-1]
                if same_int(p.off + p.n, s.off):
                    out[-1] = Sub(p.blob, p.off, p.n + s.n)
                    continue
            if out and type(s) is Fill and type(out[-1]) is Fill and out[-1].b is s.b:
                out[-1] = Fill(s.b, out[-1].n + s.n)
                continue
            out.append(s)
    if not out:
        return b''
    if len(out) == 1 and type(out[0]) is tuple and all(type(i) is int for i in out[0]):
        return bytes(out[0])
    return SymBytes(tuple(out))

def same_int(a, b):
    """Syntactic equality."""
    if not isinstance_sym_int(a) and not isinstance_sym_int(b):
        return a == b
    r = a == b
    return r is True

def total_len(segs):
    n = 0
    for s in segs:
        n = n + seg_len(s)
    return n

def cut(segs, k):
    """Split at position k, 0 <= k <= length."""
    left, i, segs = [], 0, list(segs)
    while i < len(segs):
        s = segs[i]
        n = seg_len(s)
        if not isinstance_sym_int(k) and k == 0:
            break
        if truth(k >= n):
            left.append(s)
            k = k - n
            i += 1
            continue
        if type(s) is tuple:
            c = concretize(k)
            left.append(s[:c])
            return left, [s[c:], *segs[i+1:]]
        if type(s) is Sub:
            left.append(Sub(s.blob, s.off, k))
            return left, [Sub(s.blob, s.off + k, n - k), *segs[i+1:]]
        left.append(Fill(s.b, k))
        return left, [Fill(s.b, n - k), *segs[i+1:]]
    return left, segs[i:]

def norm_slice(n, sl):
    """(start, stop) of a step-1 slice over length n."""
    if sl.step is not None and not (not isinstance_sym_int(sl.step) and sl.step == 1):
        return None
    def clamp(v, default):
        if v is None:
            return default
        if not isinstance_sym_int(v):
            v = v.__index__()
        if truth(v < 0):
            v = v + n
            if truth(v < 0):
                v = 0
        elif truth(v > n):
            v = n
        return v
    start = clamp(sl.start, 0)
    stop = clamp(sl.stop, n)
    return start, stop

def segs_slice(segs, sl):
    n = total_len(segs)
    ns = norm_slice(n, sl)
    if ns is None:
        if len(segs) <= 1 and all(type(s) is tuple for s in segs):
            sl = slice(*[None if v is None else concretize(v)
                         for v in (sl.start, sl.stop, sl.step)])
            return [segs[0][sl]] if segs else []
        raise Unsupported("extended slice of symbolic-length bytes")
    start, stop = ns
    if truth(stop <= start):
        return []
    # cut the tail first: keeps `stop - start` out of the second cut
    a, _ = cut(segs, stop) if not same_int(stop, n) else (list(segs), None)
    if not isinstance_sym_int(start) and start == 0:
        return a
    return cut(a, start)[1]

def segs_index(segs, i):
    n = total_len(segs)
    if not isinstance_sym_int(i):
        i = i.__index__()
    if truth(i < 0):
        i = i + n
    if truth(sym_or([i < 0, i >= n])):
        raise IndexError("index out of range")
    for s in segs:
        sn = seg_len(s)
        if truth(i >= sn):
            i = i - sn
            continue
        if type(s) is tuple:
            if not isinstance_sym_int(i):
                return item_to_int(s[i])
            lo, hi = max(0, i.lo), min(len(s) - 1, i.hi)
            if hi - lo > 256:
                return item_to_int(s[concretize(i)])
            e = None
            for k in range(lo, hi + 1):
                v = s[k] if not isinstance(s[k], int) else z3.BitVecVal(s[k], 8)
                if e is None:
                    e = v
                else:
                    e = z3.If(to_z3bool(i == k), v, e)
            return item_to_int(byte_item(e))
        if type(s) is Sub:
            return item_to_int(s.blob.at(s.off + i))
        return item_to_int(s.b)
    raise IndexError("index out of range")

def iter_segs(segs):
    for s in segs:
        if type(s) is tuple:
            for it in s:
                yield item_to_int(it)
        else:
            k = 0
            while truth(k < s.n):
                if type(s) is Sub:
                    yield item_to_int(s.blob.at(s.off + k))
                else:
                    yield item_to_int(s.b)
                k = k + 1

def xor_form(e):
    """(base, mask) when the byte e is base ^ mask as z3 spells it, else (e, 0)."""
    cache = ENG.xor_forms if ENG else None
    if cache is None:
        return e, 0
    hit = cache.get(e.get_id())
    if hit is not None:
        return hit
    parts = e.children() if z3.is_app_of(e, z3.Z3_OP_CONCAT) else [e]
    base, mask, pos = None, 0, 8
    for part in parts:
        inv = z3.is_app_of(part, z3.Z3_OP_BNOT)
        if inv:
            part = part.arg(0)
        n = part.size()
        pos -= n
        if z3.is_app_of(part, z3.Z3_OP_EXTRACT):
            lo, hi, src = part.params()[1], part.params()[0], part.arg(0)
            if lo != pos or hi != pos + n - 1 or src.size() != 8:
                break
        elif n == 8:
            src = part
        else:
            break
        if base is not None and not base.eq(src):
            break
        base = src
        if inv:
            mask |= ((1 << n) - 1) << pos
    else:
        cache[e.get_id()] = (base, mask)
        ENG.keepalive.append(e)
        return base, mask
    cache[e.get_id()] = (e, 0)
    ENG.keepalive.append(e)
    return e, 0

def quick_eq(x, y):
    """Equality of two bytes when it takes no solver, None otherwise."""
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if x is y:
        return True
    if not isinstance(x, int) and not isinstance(y, int):
        if x.get_id() == y.get_id():
            return True
        (bx, mx), (by, my) = xor_form(x), xor_form(y)
        if bx is by or bx.get_id() == by.get_id():
            return mx == my
    return None

def bit_eq(x, y):
    c = quick_eq(x, y)
    if c is not None:
        return c
    ex = x if not isinstance(x, int) else z3.BitVecVal(x, 8)
    ey = y if not isinstance(y, int) else z3.BitVecVal(y, 8)
    return mkbool(ex == ey)

def items_eq(a, b):
    """Equality of two equally long vectors, aware of hash-like terms."""
    conds = []
    i, n = 0, len(a)
    tb = ENG.term_bytes if ENG else None
    while i < n:
        x, y = a[i], b[i]
        if tb and (not isinstance(x, int) or not isinstance(y, int)) and x is not y:
            ra, la = term_run(a, i)
            rb, lb = term_run(b, i)
            if ra or rb:
                c = None
                if ra and rb:
                    m = min(la, lb)
                    if ra is rb:
                        c = True
                    elif m >= MIN_TERM or m == ra.n == rb.n:
                        c = term_eq(ra, rb)
                else:
                    t, m, other = (ra, la, b) if ra else (rb, lb, a)
                    run = other[i:i + m]
                    if all(isinstance(v, int) for v in run):
                        if m == t.n:
                            t2 = ENG.term_values.get(bytes(run))
                            c = term_eq(t, t2) if t2 else False
                        elif m >= MIN_TERM:
                            c = False
                            for out, t2 in ENG.term_values.items():
                                if out[:m] == bytes(run) and t2.kind == t.kind:
                                    c = term_eq(t, t2)
                                    break
                if c is not None:
                    if c is False:
                        return False
                    if c is not True:
                        conds.append(c)
                    i += m
                    continue
        c = quick_eq(x, y)
        if c is None:
            if tb:
                for v in (x, y):
                    if not isinstance(v, int) and v.get_id() in tb:
                        expose(tb[v.get_id()][0])
            c = bit_eq(x, y)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
        i += 1
    return sym_and(conds)

def segs_eq(a, b):
    na, nb = total_len(a), total_len(b)
    if not truth(na == nb):
        return False
    if all(type(s) is tuple for s in a) and all(type(s) is tuple for s in b):
        return items_eq(a[0] if a else (), b[0] if b else ())
    a, b = list(a), list(b)
    conds = []
    while a and b:
        x, y = a[0], b[0]
        if not same_int(seg_len(x), seg_len(y)):
            if truth(seg_len(x) < seg_len(y)):
                l, r = cut([y], seg_len(x))
                b[0:1] = l + r
            elif truth(seg_len(x) > seg_len(y)):
                l, r = cut([x], seg_len(y))
                a[0:1] = l + r
            x, y = a[0], b[0]
        a.pop(0)
        b.pop(0)
        n = seg_len(x)
        if type(x) is tuple and type(y) is tuple:
            if len(x) != len(y):
                raise EngineError("misaligned comparison")
            c = items_eq(x, y)
        elif type(x) is Sub and type(y) is Sub and x.blob is y.blob and truth(x.off == y.off):
            c = True
        elif type(x) is Fill and type(y) is Fill:
            c = bit_eq(x.b, y.b)
            if c is not True:
                c = sym_or([n == 0, c])
        else:
            if isinstance_sym_int(n) and n.hi > 64:
                if truth(n == 0):
                    continue
                # two unrelated opaque contents: decided by their first byte differing, or equal
                # up to a bounded length, would need a quantifier
                raise Unsupported("comparison of unrelated opaque bytes")
            m = concretize(n)
            xs = list(iter_segs(cut([x], m)[0]))
            ys = list(iter_segs(cut([y], m)[0]))
            c = items_eq(tuple(int_to_item(v) for v in xs), tuple(int_to_item(v) for v in ys))
        if c is False:
            return False
        conds.append(c)
    for s in a + b:
        if not truth(seg_len(s) == 0):
            raise EngineError("length mismatch in comparison")
    return sym_and(conds)


# hash-like terms: outputs of a collision-free function

class Term:
    __slots__ = ('kind', 'inputs', 'out', 'n', 'exposed', 'eqs')
    def __init__(self, kind, inputs, out):
        self.kind, self.inputs, self.out = kind, inputs, out
        self.n = len(out)
        self.exposed = False
        self.eqs = {}

# this many leading bytes of a hash-like output identify it
MIN_TERM = 8

def term_run(items, i):
    """(term, n) when the first n bytes of the output of a term start at i, else (None, 0)."""
    it = items[i]
    if isinstance(it, int):
        return None, 0
    hit = ENG.term_bytes.get(it.get_id())
    if not hit or hit[1] != 0:
        return None, 0
    t = hit[0]
    k = 1
    while k < t.n and i + k < len(items):
        v = items[i + k]
        if isinstance(v, int) or v.get_id() != t.out[k].get_id():
            break
        k += 1
    return t, k

def term_eq(t1, t2):
    if t1 is t2:
        return True
    if t1.kind != t2.kind or t1.n != t2.n:
        return False
    c = t1.eqs.get(id(t2))
    if c is None:
        cs = []
        for x, y in zip(t1.inputs, t2.inputs):
            c = bytes_eq(x, y)
            if c is False:
                cs = [False]
                break
            cs.append(c)
        c = sym_and(cs)
        t1.eqs[id(t2)] = t2.eqs[id(t1)] = c
    return c

def expose(t):
    """The bytes of t meet other data: state that the function is injective."""
    if t.exposed:
        return
    t.exposed = True
    for o in ENG.exposed:
        if o.n != t.n:
            continue
        same = sym_and([bit_eq(x, y) for x, y in zip(t.out, o.out)])
        ENG.assume(to_z3bool(same) == to_z3bool(term_eq(t, o)))
    ENG.exposed.append(t)

def bytes_key(x):
    """A hashable syntactic key of a bytes-like."""
    out = []
    for s in to_segs(x):
        if type(s) is tuple:
            for i in s:
                if isinstance(i, int):
                    out.append(i)
                else:
                    ENG.keepalive.append(i)
                    out.append(('z', i.get_id()))
        else:
            def k(v):
                if isinstance_sym_int(v):
                    ENG.keepalive.append(v.e)
                    return ('z', v.e.get_id(), v.lo, v.hi)
                return v
            if type(s) is Sub:
                out.append(('s', id(s.blob), k(s.off), k(s.n)))
            else:
                out.append(('f', s.b if isinstance(s.b, int) else ('z', s.b.get_id()), k(s.n)))
    return tuple(out)

def is_concrete(x):
    segs = to_segs(x)
    return all(type(s) is tuple and all(type(i) is int for i in s) for s in segs)

def concrete_bytes(x):
    segs = to_segs(x)
    return b''.join(bytes(s) for s in segs)

def apply_term(kind, inputs, n, real):
    """out = kind(*inputs), n bytes; the real function when every input is concrete."""
    if all(is_concrete(x) for x in inputs):
        out = real(*[concrete_bytes(x) for x in inputs])
        if ENG and out not in ENG.term_values:
            ENG.term_values[out] = Term(kind, tuple(concrete_bytes(x) for x in inputs), out)
        return out
    key = (kind, tuple(bytes_key(x) for x in inputs))
    t = ENG.term_index.get(key)
    if t is None:
        name = ENG.fresh('h')
        out = tuple(z3.BitVec(f'{name}.{i}', 8) for i in range(n))
        t = Term(kind, tuple(freeze(x) for x in inputs), out)
        for i, v in enumerate(out):
            ENG.term_bytes[v.get_id()] = (t, i)
        ENG.terms.append(t)
        ENG.term_index[key] = t
    return SymBytes((t.out,))

def freeze(x):
    """An immutable bytes value from any bytes-like."""
    if type(x) is SymByteArray or type(x) is SymMemoryView:
        return mkbytes(to_segs(x))
    if type(x) is bytearray or type(x) is memoryview:
        return bytes(x)
    return x

def bytes_eq(a, b):
    a, b = to_segs(a), to_segs(b)
    return segs_eq(a, b)


class _BytesOps:
    """Operations shared by the immutable and the mutable byte strings."""
    __slots__ = ()

    # subclass: _segs() and _wrap(bytes-like)
    def _other(self, o):
        return to_segs(o)

    def length(self):
        return total_len(self._segs())

    def __len__(self):
        return concretize(self.length())

    def __bool__(self):
        return truth(self.length() != 0)

    def __iter__(self):
        return iter_segs(self._segs())

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._wrap(mkbytes(segs_slice(self._segs(), i)))
        return segs_index(self._segs(), i)

    def __add__(self, o):
        s = to_segs(o)
        if s is None:
            return NotImplemented
        return self._wrap(mkbytes([*self._segs(), *s]))

    def __radd__(self, o):
        s = to_segs(o)
        if s is None:
            return NotImplemented
        r = mkbytes([*s, *self._segs()])
        if isinstance(o, bytearray):
            return SymByteArray(r)
        return r

    def __mul__(self, k):
        if isinstance_sym_int(k):
            segs = self._segs()
            if len(segs) == 1 and type(segs[0]) is tuple and len(segs[0]) == 1:
                if truth(k <= 0):
                    return self._wrap(b'')
                return self._wrap(mkbytes([Fill(segs[0][0], k)]))
            k = concretize(k)
        return self._wrap(mkbytes(list(self._segs()) * max(0, k)))
    __rmul__ = __mul__

    def __eq__(self, o):
        s = to_segs(o)
        if s is None:
            return NotImplemented
        return segs_eq(self._segs(), s)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _order(self, o):
        """-1, 0, 1, by forking."""
        s = to_segs(o)
        if s is None:
            raise TypeError("'<' not supported between instances")
        ia, ib = iter(self), iter_segs(s)
        while True:
            x, y = next(ia, None), next(ib, None)
            if x is None:
                return 0 if y is None else -1
            if y is None:
                return 1
            if truth(x == y):
                continue
            return -1 if truth(x < y) else 1

    def __lt__(self, o): return self._order(o) < 0
    def __le__(self, o): return self._order(o) <= 0
    def __gt__(self, o): return self._order(o) > 0
    def __ge__(self, o): return self._order(o) >= 0

    def contains(self, x):
        if _is_int(x):
            segs = self._segs()
            if all(type(s) is tuple for s in segs):
                return sym_or([x == item_to_int(i) for s in segs for i in s])
            return sym_or([x == i for i in self])
        return self.find(x) != -1

    def __contains__(self, x):
        return truth(self.contains(x))

    def __repr__(self):
        return '<bytes>'
    __str__ = __repr__
    def __format__(self, spec):
        return '<bytes>'

    def hex(self, *args):
        if args:
            raise Unsupported("hex with separator")
        out = []
        for s in self._segs():
            if type(s) is not tuple:
                raise Unsupported("hex of opaque bytes")
            for it in s:
                if isinstance(it, int):
                    out += list(f'{it:02x}'.encode())
                else:
                    for nib in (z3.Extract(7, 4, it), z3.Extract(3, 0, it)):
                        n8 = z3.ZeroExt(4, nib)
                        out.append(byte_item(z3.If(z3.ULT(nib, 10), n8 + 48, n8 + 87)))
        return mkstr(mkbytes([tuple(out)]))

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('latin-1', 'latin1', 'iso-8859-1'):
            raise Unsupported("latin-1")
        if all(type(s) is tuple for s in self._segs()):
            ok = sym_and([item_to_int(i) < 128 for s in self._segs() for i in s])
            if truth(ok):
                return mkstr(mkbytes(self._segs()))
            if enc in ('ascii', 'us-ascii') and errors == 'strict':
                raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)')
            # enumerate the (few) remaining values
            b = concretize_bytes(self)
            return b.decode(encoding, errors)
        raise Unsupported("decode of opaque bytes")

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sym_or([self.startswith(x, start, end) for x in p])
        s = self if start is None and end is None else self[start:end]
        segs = to_segs(p)
        if segs is None:
            raise TypeError("startswith first arg must be bytes")
        n = total_len(segs)
        mine = to_segs(s)
        if truth(total_len(mine) < n):
            return False
        return segs_eq(cut(mine, n)[0], segs)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sym_or([self.endswith(x, start, end) for x in p])
        s = self if start is None and end is None else self[start:end]
        segs = to_segs(p)
        n = total_len(segs)
        mine = to_segs(s)
        m = total_len(mine)
        if truth(m < n):
            return False
        return segs_eq(cut(mine, m - n)[1], segs)

    def find(self, x, start=None, end=None):
        if _is_int(x):
            x = mkbytes([(int_to_item(x),)])
        segs = to_segs(x)
        n = total_len(segs)
        total = self.length()
        i = 0 if start is None else start
        stop = total if end is None else end
        if truth(i < 0):
            i = max(0, i + total)
        while truth(i + n <= stop):
            if truth(segs_eq(tuple(segs_slice(self._segs(), slice(i, i + n))), segs)):
                return i
            i = i + 1
        return -1

    def rfind(self, x, start=None, end=None):
        if start is not None or end is not None:
            raise Unsupported("rfind range")
        if _is_int(x):
            x = mkbytes([(int_to_item(x),)])
        segs = to_segs(x)
        n = total_len(segs)
        i = self.length() - n
        while truth(i >= 0):
            if truth(segs_eq(tuple(segs_slice(self._segs(), slice(i, i + n))), segs)):
                return i
            i = i - 1
        return -1

    def index(self, x, *a):
        i = self.find(x, *a)
        if not isinstance_sym_int(i) and i == -1:
            raise ValueError("subsection not found")
        return i

    def rindex(self, x, *a):
        i = self.rfind(x, *a)
        if not isinstance_sym_int(i) and i == -1:
            raise ValueError("subsection not found")
        return i

    def count(self, x, start=None, end=None):
        if start is not None or end is not None:
            return self[start:end].count(x)
        if _is_int(x):
            return sum(1 if truth(b == x) else 0 for b in self)
        n = total_len(to_segs(x))
        if truth(n == 0):
            return self.length() + 1
        k, i = 0, self.find(x)
        while not truth(i == -1):
            k = k + 1
            i = self.find(x, i + n)
        return k

    def replace(self, old, new, count=-1):
        n = total_len(to_segs(old))
        if not truth(n > 0):
            raise Unsupported("replace of nothing")
        out, rest = [], mkbytes(self._segs())
        while count:
            i = SymBytes(to_segs(rest)).find(old)
            if truth(i == -1):
                break
            out += [*to_segs(rest[:i]), *to_segs(new)]
            rest = rest[i + n:]
            count -= 1
        return self._wrap(mkbytes([*out, *to_segs(rest)]))

    def translate(self, table, /, delete=b''):
        table = bytes(range(256)) if table is None else concrete_or_stop(table)
        delete = concrete_or_stop(delete)
        if len(table) != 256:
            raise ValueError("translation table must be 256 characters long")
        if not all(type(s) is tuple for s in self._segs()):
            raise Unsupported("translate of opaque bytes")
        out = []
        for s in self._segs():
            for it in s:
                if isinstance(it, int):
                    if it not in delete:
                        out.append(table[it])
                    continue
                if delete and truth(sym_or([item_to_int(it) == d for d in delete])):
                    continue
                e = z3.BitVecVal(table[255], 8)
                for k in range(254, -1, -1):
                    if table[k] != table[255]:
                        e = z3.If(it == k, z3.BitVecVal(table[k], 8), e)
                out.append(byte_item(e))
        return self._wrap(mkbytes([tuple(out)]))

    def _strip_set(self, chars):
        if chars is None:
            chars = b' \t\n\r\x0b\f'
        return list(iter_segs(to_segs(chars)))

    def lstrip(self, chars=None):
        cs = self._strip_set(chars)
        segs = self._segs()
        n = total_len(segs)
        i = 0
        while truth(i < n) and truth(sym_or([segs_index(segs, i) == c for c in cs])):
            i = i + 1
        return self[i:]

    def rstrip(self, chars=None):
        cs = self._strip_set(chars)
        segs = self._segs()
        i = total_len(segs)
        while truth(i > 0) and truth(sym_or([segs_index(segs, i - 1) == c for c in cs])):
            i = i - 1
        return self[:i]

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def join(self, items):
        items = list(items)
        out = []
        for i, x in enumerate(items):
            s = to_segs(x)
            if s is None:
                raise TypeError(f"sequence item {i}: expected a bytes-like object")
            if i:
                out += self._segs()
            out += s
        return self._wrap(mkbytes(out))

    def ljust(self, width, fill=b' '):
        return self + fill * max(0, width - self.length())

    def rjust(self, width, fill=b' '):
        return self._wrap(fill * max(0, width - self.length()) + self)

    def zfill(self, width):
        return self.rjust(width, b'0')

    def partition(self, sep):
        i = self.find(sep)
        if truth(i == -1):
            return self[:], b'', b''
        n = total_len(to_segs(sep))
        return self[:i], sep, self[i + n:]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if truth(i == -1):
            return b'', b'', self[:]
        n = total_len(to_segs(sep))
        return self[:i], sep, self[i + n:]

    def removeprefix(self, p):
        if truth(self.startswith(p)):
            return self[total_len(to_segs(p)):]
        return self[:]

    def removesuffix(self, p):
        if truth(self.endswith(p)):
            return self[:self.length() - total_len(to_segs(p))]
        return self[:]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("split on whitespace")
        out, rest = [], self
        while maxsplit:
            i = rest.find(sep) if type(rest) in SEQ_TYPES else rest.find(sep)
            if truth(i == -1):
                break
            out.append(rest[:i])
            rest = rest[i + total_len(to_segs(sep)):]
            maxsplit -= 1
        out.append(rest)
        return out

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        if hasattr(bytes, name):
            def method(*args, **kwargs):
                return getattr(concretize_bytes(self), name)(*args, **kwargs)
            return method
        raise AttributeError(name)


def concretize_bytes(x, cap=4096):
    """Fork over all contents (small domains only)."""
    out = []
    n = 0
    for v in iter_segs(to_segs(x)):
        if isinstance_sym_int(v):
            n += 1
            if n > 8:
                raise Unsupported("too many symbolic bytes to enumerate")
            v = concretize(v, cap)
        out.append(v)
    return bytes(out)


def unhex(b):
    """bytes.fromhex of a text without blanks."""
    if is_concrete(b):
        return bytes.fromhex(concrete_bytes(b).decode())
    out, values, valid = [], [], []
    for c in iter_segs(to_segs(b)):
        e = z3.BitVecVal(c, 8) if type(c) is int else int_to_item(c)
        digit = z3.And(z3.UGE(e, 48), z3.ULE(e, 57))
        lower = z3.And(z3.UGE(e, 97), z3.ULE(e, 102))
        upper = z3.And(z3.UGE(e, 65), z3.ULE(e, 70))
        valid.append(mkbool(z3.Or(digit, lower, upper)))
        values.append(z3.If(digit, e - 48, z3.If(lower, e - 87, e - 55)))
    if not truth(sym_and(valid)):
        if truth(sym_or([c == x for c in iter_segs(to_segs(b)) for x in b' \t\n\r\x0b\f'])):
            raise Unsupported("blanks in a hexadecimal text")
        raise ValueError("non-hexadecimal number found in fromhex() arg")
    if len(values) % 2:
        raise ValueError("non-hexadecimal number found in fromhex() arg")
    for hi, lo in zip(values[::2], values[1::2]):
        out.append(byte_item(hi * 16 + lo))
    return mkbytes([tuple(out)])


class SymBytes(_BytesOps):
    __slots__ = ('segs',)
    def __init__(self, segs):
        self.segs = segs
    __class__ = property(lambda self: bytes)
    def _segs(self):
        return self.segs
    def _wrap(self, x):
        return x
    def __hash__(self):
        return hash(concretize_bytes(self))
    def __bytes__(self):
        return concretize_bytes(self)
    def tobytes(self):
        return self


class SymByteArray(_BytesOps):
    __slots__ = ('_r', 'views')
    def __init__(self, r=b''):
        self._r = r
        self.views = None
    @property
    def r(self):
        return self._r
    @r.setter
    def r(self, new):
        # like CPython: the array cannot change its size while a memoryview of it is alive
        if self.views is not None:
            if any(v is not None and not v.released for v in [r() for r in self.views]):
                if truth(total_len(to_segs(new)) != total_len(to_segs(self._r))):
                    raise BufferError("Existing exports of data: object cannot be re-sized")
            else:
                self.views = None
        self._r = new
    __class__ = property(lambda self: bytearray)
    __hash__ = None
    def _segs(self):
        return to_segs(self.r)
    def _wrap(self, x):
        return SymByteArray(x)
    def __buffer__(self, flags):
        return memoryview(concrete_or_stop(self))
    def __iadd__(self, o):
        if to_segs(o) is None:
            o = bytes_from_iterable(o)
        if type(o) is SymByteArray:
            o = o.r
        if type(self.r) is bytes and type(o) in (bytes, bytearray):
            self.r += o
            return self
        self.r = mkbytes([*self._segs(), *to_segs(o)])
        return self
    def extend(self, o):
        self.__iadd__(o)
    def append(self, x):
        self.r = mkbytes([*self._segs(), (int_to_item(x),)])
    def clear(self):
        self.r = b''
    def copy(self):
        return SymByteArray(self.r)
    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v
    def insert(self, i, x):
        self[i:i] = mkbytes([(int_to_item(x),)])
    def reverse(self):
        self.r = self[::-1].r
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            segs = self._segs()
            n = total_len(segs)
            ns = norm_slice(n, i)
            if ns is None:
                raise Unsupported("extended slice assignment")
            a, b = ns
            if truth(b < a):
                b = a
            s = to_segs(v)
            if s is None:
                s = to_segs(bytes_from_iterable(v))
            head, _ = cut(segs, a)
            _, tail = cut(segs, b)
            self.r = mkbytes([*head, *s, *tail])
        else:
            self[i]
            n = self.length()
            if truth(i < 0):
                i = i + n
            self[i:i+1] = mkbytes([(int_to_item(v),)])
    def __delitem__(self, i):
        if isinstance(i, slice):
            self[i] = b''
        else:
            self[i]
            n = self.length()
            if truth(i < 0):
                i = i + n
            self[i:i+1] = b''


class SymMemoryView:
    """A one-dimensional memoryview of bytes: it sees, and makes, the changes of what it views."""
    __slots__ = ('_obj', '_a', '_n', '_readonly', 'released', '__weakref__')
    __class__ = property(lambda self: memoryview)
    itemsize = 1
    ndim = 1
    format = 'B'
    strides = (1,)
    contiguous = c_contiguous = f_contiguous = True

    def __init__(self, obj, a=0, n=None, readonly=None):
        if type(obj) is SymMemoryView:
            obj._alive()
            a, n, readonly, obj = obj._a, obj._n, obj._readonly, obj._obj
        if to_segs(obj) is None:
            raise TypeError("memoryview: a bytes-like object is required")
        self._obj = obj
        self._a = a
        self._n = total_len(to_segs(obj)) if n is None else n
        self._readonly = type(obj) is not SymByteArray if readonly is None else readonly
        self.released = False
        if type(obj) is SymByteArray:
            obj.views = [r for r in obj.views or () if r() is not None] + [weakref.ref(self)]

    def _alive(self):
        if self.released:
            raise ValueError("operation forbidden on released memoryview object")

    def _segs(self):
        self._alive()
        segs = to_segs(self._obj)
        rest = cut(segs, self._a)[1]
        return tuple(cut(rest, self._n)[0])

    @property
    def obj(self):
        self._alive()
        return self._obj
    @property
    def nbytes(self):
        self._alive()
        return self._n
    @property
    def shape(self):
        self._alive()
        return (self._n,)
    @property
    def readonly(self):
        self._alive()
        return self._readonly

    def length(self):
        self._alive()
        return self._n
    def __len__(self):
        return concretize(self.length())
    def __bool__(self):
        return truth(self.length() != 0)
    def __iter__(self):
        return iter_segs(self._segs())
    def __reversed__(self):
        return iter(list(self)[::-1])

    def _range(self, i):
        ns = norm_slice(self._n, i)
        if ns is None:
            raise Unsupported("memoryview slice with a step")
        a, b = ns
        if truth(b < a):
            b = a
        return a, b

    def __getitem__(self, i):
        self._alive()
        if isinstance(i, slice):
            a, b = self._range(i)
            return SymMemoryView(self._obj, self._a + a, b - a, self._readonly)
        return segs_index(self._segs(), i)

    def __setitem__(self, i, v):
        self._alive()
        if self._readonly:
            raise TypeError("cannot modify read-only memory")
        if isinstance(i, slice):
            a, b = self._range(i)
            segs = to_segs(v)
            if segs is None:
                raise TypeError("a bytes-like object is required")
            if truth(total_len(segs) != b - a):
                raise ValueError("memoryview assignment: lvalue and rvalue have different "
                                 "structures")
            self._obj[self._a + a:self._a + b] = mkbytes(segs)
        else:
            segs_index(self._segs(), i)
            if truth(i < 0):
                i = i + self._n
            self._obj[self._a + i] = v

    def __delitem__(self, i):
        raise TypeError("cannot delete memory")

    def __eq__(self, o):
        if self is o:
            return True
        s = to_segs(o)
        if s is None:
            return NotImplemented
        return segs_eq(self._segs(), s)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)
    def __hash__(self):
        if not self._readonly:
            raise ValueError("cannot hash writable memoryview object")
        return hash(concretize_bytes(self))

    def __radd__(self, o):
        s = to_segs(o)
        if s is None or type(o) is SymMemoryView:
            return NotImplemented
        r = mkbytes([*s, *self._segs()])
        return SymByteArray(r) if isinstance(o, bytearray) else r

    def contains(self, x):
        return sym_or([x == i for i in self])
    def __contains__(self, x):
        return truth(self.contains(x))

    def tobytes(self, order=None):
        return mkbytes(self._segs())
    def __bytes__(self):
        return concretize_bytes(self)
    def __buffer__(self, flags):
        return memoryview(concrete_or_stop(self))
    def tolist(self):
        return list(self)
    def hex(self, *args):
        return mkbytes(self._segs()).hex(*args)
    def toreadonly(self):
        self._alive()
        return SymMemoryView(self._obj, self._a, self._n, True)
    def cast(self, fmt, *shape):
        if fmt not in ('B', '@B') or shape:
            raise Unsupported(f"memoryview cast to {fmt}")
        return self[:]
    def count(self, x):
        return sum(1 if truth(b == x) else 0 for b in self)
    def index(self, x):
        for i, b in enumerate(self):
            if truth(b == x):
                return i
        raise ValueError("memoryview.index(x): x not found")
    def release(self):
        self.released = True
    def __enter__(self):
        self._alive()
        return self
    def __exit__(self, *exc):
        self.release()
    def __repr__(self):
        return '<memory>'
    __str__ = __repr__
    def __format__(self, spec):
        return '<memory>'


SEQ_TYPES = (SymBytes, SymByteArray, SymMemoryView)

def concrete_or_stop(x):
    if is_concrete(x):
        return concrete_bytes(x)
    raise Unsupported("symbolic bytes given to native code")

def bytes_from_iterable(it):
    return mkbytes([tuple(int_to_item(x) for x in it)])


# ------------------------------------------------------------------------------------ strings

def mkstr(b):
    """A str from ASCII bytes."""
    if type(b) is bytes:
        return b.decode()
    return SymStr(b)


class SymStr:
    """ASCII text over a symbolic byte string."""
    __slots__ = ('b',)
    def __init__(self, b):
        self.b = b
    __class__ = property(lambda self: str)

    @staticmethod
    def _bytes(o):
        if type(o) is SymStr:
            return o.b
        if isinstance(o, str):
            s = str.__str__(o) if not hasattr(o, 'value') else str(o.value)
            return s.encode() if s.isascii() else None
        return None

    def length(self):
        return self.b.length()
    def __len__(self):
        return len(self.b)
    def __bool__(self):
        return bool(self.b)
    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        b = self._bytes(o)
        if b is None:
            return False
        return bytes_eq(self.b, b)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)
    def __hash__(self):
        return hash(concretize_bytes(self.b).decode())
    def __add__(self, o):
        b = self._bytes(o)
        if b is None:
            raise Unsupported("non-ascii text")
        return mkstr(self.b + b)
    def __radd__(self, o):
        b = self._bytes(o)
        if b is None:
            raise Unsupported("non-ascii text")
        return mkstr(b + self.b)
    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.b[i])
        return mkstr(mkbytes([(int_to_item(self.b[i]),)]))
    def __iter__(self):
        for c in self.b:
            yield mkstr(mkbytes([(int_to_item(c),)]))
    def encode(self, encoding='utf-8', errors='strict'):
        return self.b
    def __repr__(self):
        return "'<str>'"
    def __str__(self):
        if FORMAT_CONCRETIZE:
            return concretize_bytes(self.b).decode()
        return '<str>'
    def __format__(self, spec):
        return format(str(self), spec)
    def isascii(self):
        return True
    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return sym_or([self.b.startswith(self._bytes(x), *a) for x in p])
        return self.b.startswith(self._bytes(p), *a)
    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return sym_or([self.b.endswith(self._bytes(x), *a) for x in p])
        return self.b.endswith(self._bytes(p), *a)
    def find(self, p, *a):
        return self.b.find(self._bytes(p), *a)
    def isprintable(self):
        return sym_and([sym_and([c >= 32, c <= 126]) for c in self.b])
    def lower(self):
        out = []
        for c in self.b:
            if isinstance_sym_int(c):
                up = z3.And(z3.UGE(c.e, 65), z3.ULE(c.e, 90))
                out.append(byte_item(z3.If(up, c.e + 32, c.e)))
            else:
                out.append(c + 32 if 65 <= c <= 90 else c)
        return mkstr(mkbytes([tuple(out)]))
    def upper(self):
        out = []
        for c in self.b:
            if isinstance_sym_int(c):
                lw = z3.And(z3.UGE(c.e, 97), z3.ULE(c.e, 122))
                out.append(byte_item(z3.If(lw, c.e - 32, c.e)))
            else:
                out.append(c - 32 if 97 <= c <= 122 else c)
        return mkstr(mkbytes([tuple(out)]))
    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        if hasattr(str, name):
            def method(*args, **kwargs):
                return getattr(concretize_bytes(self.b).decode(), name)(*args, **kwargs)
            return method
        raise AttributeError(name)


# ------------------------------------------------------------------------------- dictionaries

def is_sym(x):
    t = type(x)
    if t is SymInt or t is SymEnum or t is SymBool or t is SymStr:
        return True
    if t is SymBytes:
        return True
    if t is tuple:
        return any(is_sym(y) for y in x)
    return False

def key_eq(a, b):
    try:
        r = a == b
    except (EngineStop, Exception):
        raise
    if r is NotImplemented:
        return False
    return r

def find_key(keys, key):
    """Index of the key equal to `key` among `keys` (pairwise distinct), or None; forks."""
    conds = [(i, key_eq(key, k)) for i, k in enumerate(keys)]
    conds = [(i, c) for i, c in conds if c is not False]
    if not conds:
        return None
    if any(c is True for _, c in conds):
        return next(i for i, c in conds if c is True)
    if not truth(sym_or([c for _, c in conds])):
        return None
    while len(conds) > 1:
        # prefer the candidate that the current model designates
        index = z3.BitVecVal(len(conds) - 1, 16)
        for j in range(len(conds) - 2, -1, -1):
            index = z3.If(to_z3bool(conds[j][1]), z3.BitVecVal(j, 16), index)
        i, c = conds.pop(ENG.pick(index))
        if truth(c):
            return i
    return conds[0][0]


class SymDict(dict):
    """A dict whose keys may be symbolic (then kept as an association list)."""
    __slots__ = ('_e', 'default_factory')

    def __init__(self, *args, **kwargs):
        dict.__init__(self)
        self._e = None
        self.default_factory = None     # a collections.defaultdict
        self.update(*args, **kwargs)

    def _switch(self):
        if self._e is None:
            self._e = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, key):
        return find_key([k for k, _ in self._e], key)

    def __setitem__(self, k, v):
        if self._e is None:
            if not is_sym(k):
                dict.__setitem__(self, k, v)
                return
            self._switch()
        i = self._find(k)
        if i is None:
            self._e.append([k, v])
        else:
            self._e[i][1] = v

    def _lookup(self, k):
        if self._e is None:
            if not is_sym(k):
                return dict.__getitem__(self, k)
            keys = list(dict.keys(self))
            i = find_key(keys, k)
            if i is None:
                raise KeyError(k)
            return dict.__getitem__(self, keys[i])
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        return self._e[i][1]

    def __getitem__(self, k):
        if self.default_factory is None:
            return self._lookup(k)
        try:
            return self._lookup(k)
        except KeyError:
            v = self.default_factory()
            self[k] = v
            return v

    def __delitem__(self, k):
        if self._e is None and not is_sym(k):
            dict.__delitem__(self, k)
            return
        self._switch()
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        del self._e[i]

    def contains(self, k):
        return sym_or([key_eq(k, x) for x in self.keys()])

    def __contains__(self, k):
        if self._e is None and not is_sym(k):
            return dict.__contains__(self, k)
        return truth(self.contains(k))

    def get(self, k, default=None):
        try:
            return self._lookup(k)
        except KeyError:
            return default

    def setdefault(self, k, default=None):
        try:
            return self._lookup(k)
        except KeyError:
            self[k] = default
            return default

    _MISSING = object()
    def pop(self, k, default=_MISSING):
        try:
            v = self._lookup(k)
        except KeyError:
            if default is SymDict._MISSING:
                raise
            return default
        del self[k]
        return v

    def popitem(self):
        if self._e is None:
            return dict.popitem(self)
        if not self._e:
            raise KeyError("popitem(): dictionary is empty")
        return tuple(self._e.pop())

    def clear(self):
        self._e = None
        dict.clear(self)

    def keys(self):
        if self._e is None:
            return dict.keys(self)
        return [k for k, _ in self._e]

    def values(self):
        if self._e is None:
            return dict.values(self)
        return [v for _, v in self._e]

    def items(self):
        if self._e is None:
            return dict.items(self)
        return [(k, v) for k, v in self._e]

    def __iter__(self):
        return iter(self.keys())

    def __reversed__(self):
        return iter(list(self.keys())[::-1])

    def __len__(self):
        return dict.__len__(self) if self._e is None else len(self._e)

    def __bool__(self):
        return len(self) > 0

    def update(self, *args, **kwargs):
        if args:
            o = args[0]
            if hasattr(o, 'keys'):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    def copy(self):
        return SymDict(self)
    __copy__ = copy

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if self._e is None and not (type(o) is SymDict and o._e is not None):
            return dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        a, b = list(self.items()), list(o.items())
        conds = []
        o2 = o if type(o) is SymDict else SymDict(o)
        for k, v in a:
            try:
                w = o2[k]
            except KeyError:
                return False
            conds.append(v == w)
        return sym_and(conds)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    __hash__ = None

    def __repr__(self):
        return repr(dict(zip(map(str, self.keys()), self.values())))


class SymSet(set):
    """A set whose items may be symbolic (then kept as a list, made distinct when it matters)."""
    __slots__ = ('_e', '_distinct')

    def __init__(self, items=()):
        set.__init__(self)
        self._e = None
        self._distinct = True
        for x in items:
            self.add(x)

    def _switch(self):
        if self._e is None:
            self._e = list(set.__iter__(self))
            set.clear(self)

    def _items(self):
        """The distinct items; forks."""
        if self._e is None:
            return list(set.__iter__(self))
        if not self._distinct:
            out = []
            for x in self._e:
                if find_key(out, x) is None:
                    out.append(x)
            self._e, self._distinct = out, True
        return list(self._e)

    def add(self, x):
        if self._e is None:
            if not is_sym(x):
                set.add(self, x)
                return
            self._switch()
        conds = [key_eq(x, y) for y in self._e]
        if any(c is True for c in conds):
            return
        if any(c is not False for c in conds):
            self._distinct = False
        self._e.append(x)

    def contains(self, x):
        return sym_or([key_eq(x, y) for y in (self._e if self._e is not None else set.__iter__(self))])

    def __contains__(self, x):
        if self._e is None and not is_sym(x):
            return set.__contains__(self, x)
        return truth(self.contains(x))

    def __iter__(self):
        return iter(self._items()) if self._e is not None else set.__iter__(self)

    def __len__(self):
        return len(self._items()) if self._e is not None else set.__len__(self)

    def __bool__(self):
        return bool(self._e) if self._e is not None else set.__len__(self) > 0

    def discard(self, x):
        if self._e is None and not is_sym(x):
            set.discard(self, x)
            return
        self._switch()
        self._e = [y for y in self._e if not truth(key_eq(x, y))]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if self._e is None:
            return set.pop(self)
        items = self._items()
        if not items:
            raise KeyError('pop from an empty set')
        self._e = items[:-1]
        return items[-1]

    def clear(self):
        self._e, self._distinct = None, True
        set.clear(self)

    def copy(self):
        r = SymSet()
        if self._e is None:
            set.update(r, set.__iter__(self))
        else:
            r._e, r._distinct = list(self._e), self._distinct
        return r
    __copy__ = copy

    def _raw(self):
        return list(self._e) if self._e is not None else list(set.__iter__(self))

    def update(self, *others):
        for o in others:
            for x in (o._raw() if type(o) is SymSet else o):
                self.add(x)

    def union(self, *others):
        r = self.copy()
        r.update(*others)
        return r

    def intersection(self, *others):
        r = self
        for o in others:
            o = o if type(o) is SymSet else SymSet(o)
            r = SymSet([x for x in r._raw() if x in o])
        return r.copy()

    def difference(self, *others):
        r = self
        for o in others:
            o = o if type(o) is SymSet else SymSet(o)
            r = SymSet([x for x in r._raw() if x not in o])
        return r.copy()

    def symmetric_difference(self, o):
        o = o if type(o) is SymSet else SymSet(o)
        return self.difference(o).union(o.difference(self))

    def intersection_update(self, *others):
        self._become(self.intersection(*others))

    def difference_update(self, *others):
        self._become(self.difference(*others))

    def symmetric_difference_update(self, o):
        self._become(self.symmetric_difference(o))

    def _become(self, o):
        self.clear()
        self.update(o)

    def issubset(self, o):
        o = o if type(o) is SymSet else SymSet(o)
        return sym_and([o.contains(x) for x in self._raw()])

    def issuperset(self, o):
        return sym_and([self.contains(x) for x in (o._raw() if type(o) is SymSet else o)])

    def isdisjoint(self, o):
        return sym_and([sym_not(self.contains(x)) for x in (o._raw() if type(o) is SymSet else o)])

    def __or__(self, o):
        return self.union(o) if isinstance(o, (set, frozenset)) else NotImplemented
    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, (set, frozenset)) else NotImplemented
    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self) if isinstance(o, (set, frozenset)) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if isinstance(o, (set, frozenset)) else NotImplemented
    __rxor__ = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return sym_and([self.issubset(o), self.issuperset(o)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return sym_and([self.issubset(o), sym_not(self.issuperset(o))])

    def __gt__(self, o):
        return sym_and([self.issuperset(o), sym_not(self.issubset(o))])

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self._raw()))
