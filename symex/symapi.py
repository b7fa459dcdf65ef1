"""The symbolic side of the harness interface."""
import hashlib
import hmac

import z3

from . import core
from .api import BaseSx, plain
from .core import (
    Blob, Sub, SymBytes, SymInt, _need, concretize, isinstance_sym_int, mkbool, mkbytes, mkint,
    mkstr, sym_and, sym_not, sym_or, to_segs, to_z3bool, truth,
)


class SymSx(BaseSx):
    symbolic = True

    def __init__(self, eng, case, params, sink):
        super().__init__(case, params)
        self.eng = eng
        self.sink = sink
        self.used = {}

    def _name(self, name):
        n = self.used.get(name, 0)
        self.used[name] = n + 1
        return name if not n else f'{name}#{n}'

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            return lo
        w = _need(lo, hi)
        v = z3.BitVec(name, w)
        x = SymInt(v, lo, hi)
        self.eng.inputs[name] = ('int', x)
        full_lo, full_hi = ((0, (1 << w) - 1) if lo >= 0 else (-(1 << (w - 1)), (1 << (w - 1)) - 1))
        cs = []
        raw = SymInt(v, full_lo, full_hi)
        if lo > full_lo:
            cs.append(raw >= lo)
        if hi < full_hi:
            cs.append(raw <= hi)
        if cs:
            self.eng.assume(to_z3bool(sym_and(cs)))
        return x

    def bool(self, name):
        x = self.int(name, 0, 1)
        return x == 1

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self._name(name)
            return options[0]
        return options[concretize(self.int(name, 0, len(options) - 1))]

    def bytes(self, name, lo, hi=None):
        name = self._name(name)
        n = lo
        if hi is not None and hi != lo:
            n = concretize(self.int(name + '.len', lo, hi))
        vs = tuple(z3.BitVec(f'{name}.{i}', 8) for i in range(n))
        self.eng.inputs[name] = ('bytes', vs)
        return SymBytes((vs,)) if vs else b''

    def blob(self, name, lo, hi=None):
        name = self._name(name)
        n = lo if hi is None or hi == lo else self.int(name + '.len', lo, hi)
        b = Blob(name + '.arr', n)
        self.eng.blobs.append(b)
        self.eng.inputs[name] = ('blob', b)
        return mkbytes([Sub(b, 0, n)])

    def text(self, name, lo, hi=None):
        b = self.bytes(name, lo, hi)
        if b:
            self.eng.assume(to_z3bool(sym_and(
                [sym_and([x < 128]) for x in list(b)])))
        return mkstr(b)

    def assume(self, cond):
        if type(cond) is core.SymBool:
            self.eng.assume(cond.e)
        elif not cond:
            raise core.PathAbort

    def check(self, cond, label, detail=''):
        if type(cond) is not core.SymBool:
            self.eng.stats.checks += 1
            if cond:
                return
            self.sink(self, label, detail, self.eng.get_model())
            raise core.PathAbort
        model = self.eng.valid(cond.e)
        if model is not None:
            self.sink(self, label, detail, model)
            self.eng.assume(cond.e)

    def observe(self, label, value):
        self.observed.append((label, value))

    def all(self, items):
        return sym_and(list(items))

    def any(self, items):
        return sym_or(list(items))

    def implies(self, a, b):
        return sym_or([sym_not(a), b])

    def neg(self, a):
        return sym_not(a)

    def eq(self, a, b):
        return a == b

    def concrete(self, x):
        return concretize(x)

    def is_symbolic(self, x):
        from .core import is_sym
        return is_sym(x)

    def is_true(self, x):
        return truth(x)


# ------------------------------------------------------------------------- values under a model

def ev_int(model, x):
    if not isinstance_sym_int(x):
        if type(x) is core.SymBool:
            return z3.is_true(model.eval(x.e, model_completion=True))
        return x
    v = model.eval(x.e, model_completion=True).as_long()
    if x.lo < 0 and v >= 1 << (x.e.size() - 1):
        v -= 1 << x.e.size()
    return v

def ev_item(model, it):
    if isinstance(it, int):
        return it
    return model.eval(it, model_completion=True).as_long()

def ev_bytes(model, b, cache=None):
    out = bytearray()
    for s in to_segs(b):
        if type(s) is tuple:
            out += bytes(ev_item(model, i) for i in s)
        elif type(s) is Sub:
            off, n = ev_int(model, s.off), ev_int(model, s.n)
            out += ev_blob(model, s.blob, off + n)[off:off + n]
        else:
            out += bytes([ev_item(model, s.b)]) * ev_int(model, s.n)
    return bytes(out)

def ev_blob(model, blob, n=None):
    n = ev_int(model, blob.length) if n is None else n
    if n <= 300:
        return bytes(model.eval(z3.Select(blob.arr, i), model_completion=True).as_long()
                     for i in range(n))
    default = model.eval(z3.Select(blob.arr, 0x7ffffff0), model_completion=True).as_long()
    out = bytearray([default]) * n
    # the entries of the array's interpretation
    idx = set(range(16)) | {n - 1 - i for i in range(8)}
    interp = model[blob.arr.decl()]
    if isinstance(interp, z3.FuncInterp):
        for i in range(interp.num_entries()):
            idx.add(interp.entry(i).arg_value(0).as_long())
    else:
        e = interp
        while e is not None and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE:
            k = e.arg(1)
            if z3.is_bv_value(k):
                idx.add(k.as_long())
            e = e.arg(0)
    for r in blob.reads:
        idx.add(model.eval(r, model_completion=True).as_long())
    for i in idx:
        if 0 <= i < n:
            out[i] = model.eval(z3.Select(blob.arr, i), model_completion=True).as_long()
    return bytes(out)

def ev_plain(model, v):
    t = type(v)
    if t is core.SymBool:
        return ev_int(model, v)
    if isinstance_sym_int(v):
        return ev_int(model, v)
    if t in core.SEQ_TYPES:
        return ev_bytes(model, v).hex()
    if t is core.SymStr:
        return ev_bytes(model, v.b).decode('ascii', 'replace')
    if t is list or t is tuple:
        return [ev_plain(model, x) for x in v]
    if issubclass(t, core.SymDict) or t is dict:
        return [[ev_plain(model, k), ev_plain(model, x)] for k, x in v.items()]
    return plain(v)

_REAL = {}
for _n in ('sha256', 'sha384', 'sha512', 'sha1'):
    _REAL[_n] = (lambda n: lambda d: hashlib.new(n, d).digest())(_n)
    _REAL['hmac-' + _n] = (lambda n: lambda k, m: hmac.digest(k, m, n))(_n)

def refine(eng, model):
    """A model in which the hash terms have their real values, when there is one."""
    terms = [t for t in eng.terms if t.kind in _REAL]
    if not terms:
        return model
    eng.solver.push()
    try:
        cur = model
        for t in terms:
            vals = [ev_bytes(cur, x) for x in t.inputs]
            out = _REAL[t.kind](*vals)
            cs = []
            for x, v in zip(t.inputs, vals):
                if all(type(s) is tuple for s in to_segs(x)):
                    its = [i for s in to_segs(x) for i in s]
                    cs += [a == b for a, b in zip(its, v) if not isinstance(a, int)]
            cs += [a == b for a, b in zip(t.out, out)]
            eng.solver.add(*cs)
            eng.stats.queries += 1
            if eng.solver.check() != z3.sat:
                return None
            cur = eng.solver.model()
        return cur
    finally:
        eng.solver.pop()

def extract(eng, model):
    out = {}
    for name, (kind, x) in eng.inputs.items():
        if kind == 'int':
            out[name] = ev_int(model, x)
        elif kind == 'bytes':
            out[name] = bytes(ev_item(model, i) for i in x).hex()
        else:
            out[name] = ev_blob(model, x).hex()
    return out
