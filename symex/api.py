"""What a harness sees.  The same harness runs symbolically and, for replays, concretely."""
import sys
import traceback


CASES = {}          # property -> list of Case


class Case:
    def __init__(self, prop, fn, name, tiers, params, budget, reach, functions, bounds):
        self.prop = prop
        self.fn = fn
        self.name = name
        self.tiers = tiers
        self.params = params
        self.budget = budget
        self.reach = reach
        self.functions = functions
        self.bounds = bounds

    @property
    def key(self):
        return f'{self.fn.__module__}:{self.name}'


def case(prop, *, tiers=('quick', 'thorough'), params=None, quick=None, thorough=None,
         budget=None, reach=(), functions=(), bounds='', name=None):
    """
    Register a case of a property (or of several).

    params: list of dicts, one job per dict; quick=/thorough= override it per tier.
    reach: labels that some path must reach, or the case proves nothing.
    """
    props = [prop] if isinstance(prop, str) else list(prop)
    def deco(fn):
        table = {'quick': quick if quick is not None else params,
                 'thorough': thorough if thorough is not None else (
                     params if params is not None else quick)}
        for t in table:
            if table[t] is None:
                table[t] = [{}]
        for p in props:
            CASES.setdefault(p, []).append(Case(
                p, fn, name or fn.__name__, tiers, table, budget, frozenset(reach),
                tuple(functions), bounds))
        return fn
    return deco


class CheckFailed(BaseException):
    def __init__(self, label, detail=''):
        super().__init__(label, detail)
        self.label = label
        self.detail = detail


class AssumeFailed(BaseException):
    pass


class Inconclusive(BaseException):
    """The harness cannot interpret the code under test (renamed internals...)."""


def origin(exc):
    """(file, function) of the innermost frame of the code under test or of the harness."""
    best = ('?', '?')
    for fs in traceback.extract_tb(exc.__traceback__):
        f = fs.filename
        if '/siotls/' in f or '/harness/' in f:
            best = (f[f.rindex('/siotls/') + 1:] if '/siotls/' in f else
                    f[f.rindex('/harness/') + 1:], fs.name)
    return best


class BaseSx:
    symbolic = False

    def __init__(self, case, params):
        self.case = case
        self.param = params
        self.reached = set()
        self.observed = []
        self.cleanups = []
        self.ok_checks = 0

    def p(self, name, default=None):
        return self.param.get(name, default)

    def cleanup(self, fn):
        self.cleanups.append(fn)

    def close(self):
        while self.cleanups:
            self.cleanups.pop()()

    def reach(self, label):
        self.reached.add(label)

    def fail(self, label, detail=''):
        self.check(False, label, detail)

    def attempt(self, fn, *args, **kwargs):
        """(exception or None, result or None)"""
        try:
            return None, fn(*args, **kwargs)
        except Exception as exc:  # noqa: BLE001
            return exc, None


class ConcreteSx(BaseSx):
    """Replays a set of input values on the code under test as it is."""

    def __init__(self, case, params, inputs):
        super().__init__(case, params)
        self.inputs = inputs
        self.used = {}

    def _name(self, name):
        n = self.used.get(name, 0)
        self.used[name] = n + 1
        return name if not n else f'{name}#{n}'

    def _get(self, name, default):
        name = self._name(name)
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def bool(self, name):
        return bool(self._get(name, 0))

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, 0)
        if not 0 <= i < len(options):
            raise AssumeFailed(name)
        return options[i]

    def bytes(self, name, lo, hi=None):
        hi = lo if hi is None else hi
        v = bytes.fromhex(self._get(name, '00' * lo))
        if not lo <= len(v) <= hi:
            raise AssumeFailed(name)
        return v
    blob = bytes

    def text(self, name, lo, hi=None):
        return self.bytes(name, lo, hi).decode('ascii')

    def assume(self, cond):
        if not cond:
            raise AssumeFailed

    def check(self, cond, label, detail=''):
        if not cond:
            raise CheckFailed(label, detail)
        self.ok_checks += 1

    def observe(self, label, value):
        self.observed.append((label, plain(value)))

    # conjunction etc. without forking in the symbolic mode
    def all(self, items):
        return all(list(items))

    def any(self, items):
        return any(list(items))

    def implies(self, a, b):
        return (not a) or b

    def neg(self, a):
        return not a

    def eq(self, a, b):
        return a == b

    def concrete(self, x):
        return x

    def is_symbolic(self, x):
        return False

    def is_true(self, x):
        return bool(x)


def plain(v):
    """A JSON-able picture of an observed value."""
    if v is None or v is True or v is False or isinstance(v, str):
        return v if not isinstance(v, str) else str.__str__(v) if not hasattr(v, 'value') else str(v.value)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[plain(k), plain(x)] for k, x in v.items()]
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, BaseException):
        return type(v).__name__
    return type(v).__name__
