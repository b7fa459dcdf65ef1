"""
What the rewritten code calls: Python's builtins and the few C libraries siotls relies on, extended
to symbolic arguments.  With concrete arguments the real function runs.
"""
import _bisect
import _heapq
import binascii
import builtins
import collections
import enum
import functools
import hashlib
import hmac
import io
import itertools
import math
import operator
import re
import string
import struct
import types

from . import core
from .core import (
    ENG, Fill, SymBool, SymByteArray, SymBytes, SymDict, SymEnum, SymInt, SymMemoryView,
    SymRange, SymSet, SymStr,
    Unsupported, apply_term, bytes_eq, concretize, concretize_bytes, freeze, is_concrete, is_sym,
    isinstance_sym_int, int_to_item, iter_segs, make_enum, mkbool, mkbytes, mkint, mkstr, sym_and,
    sym_not, sym_or, to_segs, total_len, truth,
)
import z3

slice = builtins.slice
_bi = types.BuiltinFunctionType
_SYM = (SymInt, SymEnum, SymBool, SymStr, SymBytes, SymByteArray, SymMemoryView)
_SYMSET = frozenset(_SYM)
_SEQ = frozenset((SymBytes, SymByteArray, SymMemoryView))


def _has_sym(args, kwargs=None):
    for a in args:
        t = type(a)
        if t in _SYMSET:
            return True
        if (t is tuple or t is list) and any(type(x) in _SYMSET for x in a):
            return True
    if kwargs:
        for a in kwargs.values():
            if type(a) in _SYMSET:
                return True
    return False


# ------------------------------------------------------------------------------ syntax helpers

def mkdict(items):
    d = SymDict()
    for it in items:
        if it[0]:
            d.update(it[1])
        else:
            d[it[1]] = it[2]
    return d


def mkset(items):
    return SymSet(items)


def getitem(o, k):
    tk = type(k)
    if tk is SymInt or tk is SymEnum or tk is SymBool or (tk is slice and (
            type(k.start) in _SYMSET or type(k.stop) in _SYMSET or type(k.step) in _SYMSET)):
        to = type(o)
        if to in _SEQ or issubclass(to, SymDict) or to is SymStr or to is SymRange:
            return o[k]
        if to is bytes or to is bytearray:
            if tk is slice:
                r = mkbytes(core.segs_slice(to_segs(o), k))
                return SymByteArray(r) if to is bytearray else r
            return core.segs_index(to_segs(o), k)
        if to is str:
            return SymStr(SymBytes((tuple(o.encode('ascii')),)))[k]
        if isinstance(o, dict):
            if to is dict or to.__getitem__ is dict.__getitem__:
                return dict_get(o, k)
            return o[k]
        if to is list or to is tuple or to is range:
            if tk is slice:
                return o[slice(*[concretize(x) for x in (k.start, k.stop, k.step)])]
            n = len(o)
            if truth(sym_or([k < -n, k >= n])):
                raise IndexError("list index out of range")
            return o[concretize(k)]
        return o[k]
    if is_sym(k) and isinstance(o, dict) and not isinstance(o, SymDict):
        return dict_get(o, k)
    return o[k]


def dict_get(o, k):
    keys = list(o.keys())
    i = core.find_key(keys, k)
    if i is None:
        raise KeyError(k)
    return o[keys[i]]


def setitem_v(v, o, k):
    if is_sym(k) and isinstance(o, dict) and not isinstance(o, SymDict):
        keys = list(o.keys())
        i = core.find_key(keys, k)
        if i is not None:
            o[keys[i]] = v
            return
        raise Unsupported("symbolic key into a plain dict")
    if type(o) is bytearray and (type(v) in _SYMSET or type(k) in _SYMSET or type(k) is slice):
        raise Unsupported("symbolic store into a native bytearray")
    if type(o) is list and isinstance_sym_int(k):
        k = concretize(k)
    o[k] = v


def delitem(o, k):
    if is_sym(k) and isinstance(o, dict) and not isinstance(o, SymDict):
        keys = list(o.keys())
        i = core.find_key(keys, k)
        if i is None:
            raise KeyError(k)
        del o[keys[i]]
        return
    if type(o) is list and isinstance_sym_int(k):
        k = concretize(k)
    del o[k]


def contains(x, c):
    tc = type(c)
    if tc is SymSet:
        return x in c if c._e is None and not is_sym(x) else c.contains(x)
    if issubclass(tc, SymDict):
        if c._e is None and not is_sym(x):
            return x in c
        return c.contains(x)
    if tc in _SEQ:
        return c.contains(x)
    if tc is SymStr:
        return sym_not(c.b.find(SymStr._bytes(x)) == -1)
    if tc is SymRange:
        return c.__contains__(x)
    tx = type(x)
    if tc is range and tx in _SYMSET and c.step == 1:
        return sym_and([x >= c.start, x < c.stop])
    if tc is list or tc is tuple:
        if tx in _SYMSET or any(type(i) in _SYMSET for i in c):
            return sym_or([core.key_eq(x, i) for i in c])
        return x in c
    if tx in _SYMSET or is_sym(x):
        if tc in (set, frozenset, dict) or isinstance(c, (dict, set, frozenset)) \
                or isinstance(c, (type({}.keys()), type({}.values()))):
            return sym_or([core.key_eq(x, i) for i in c])
        if tc is bytes or tc is bytearray:
            return SymBytes(to_segs(c)).contains(x) if c else False
        if tc is str:
            return contains(x, SymStr(SymBytes((tuple(c.encode('ascii')),)))) if c else not x
        if isinstance(c, enum.EnumMeta):
            return sym_or([x == m.value for m in c])
        return truth(x in c)
    return x in c


def not_contains(x, c):
    return sym_not(contains(x, c))


def is_(a, b):
    ta, tb = type(a), type(b)
    if ta is SymEnum or tb is SymEnum:
        if ta is SymEnum and tb is SymEnum:
            return a == b if a.cls is b.cls else False
        s, o = (a, b) if ta is SymEnum else (b, a)
        return s == o if type(o) is s.cls else False
    if ta is SymInt or tb is SymInt:
        if a is None or b is None:
            return False
        if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
            return False
        return a is b
    if ta is SymBool or tb is SymBool:
        if ta in (bool, SymBool) and tb in (bool, SymBool):
            return a == b
        return False
    return a is b


def is_not(a, b):
    return sym_not(is_(a, b))


def base(b):
    if b is io.BytesIO:
        return SymBytesIO
    return b


# ------------------------------------------------------------------------------------ builtins

def m_len(x):
    t = type(x)
    if t in _SEQ or t is SymStr:
        return x.length()
    if t is SymRange:
        return x.length()
    return len(x)

def m_range(*args):
    if any(type(a) in _SYMSET for a in args):
        if all(not isinstance_sym_int(a) or a.lo == a.hi for a in args):
            return range(*[concretize(a) for a in args])
        return SymRange(*args)
    return range(*args)

def m_bytes(*args, **kwargs):
    if kwargs or len(args) > 1:
        x = args[0]
        if type(x) is SymStr:
            return x.encode(*args[1:], **kwargs)
        return bytes(*args, **kwargs)
    if not args:
        return b''
    x = args[0]
    t = type(x)
    if t is SymBytes:
        return x
    if t is SymByteArray or t is SymMemoryView:
        return freeze(x)
    if t is bytes or t is str or t is memoryview:
        return bytes(x)
    if t is SymInt or t is SymEnum:
        if truth(x < 0):
            raise ValueError("negative count")
        return mkbytes([Fill(0, x)])
    if isinstance(x, (int, bytes, bytearray)):
        return bytes(x)
    if hasattr(type(x), '__bytes__'):
        return x.__bytes__()
    return core.bytes_from_iterable(x)

def m_bytearray(*args, **kwargs):
    return SymByteArray(m_bytes(*args, **kwargs))

def m_int(x=0, *args, **kwargs):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymEnum:
        return SymInt(x.e, x.lo, x.hi)
    if t is SymBool:
        return x._int()
    if t is core.SymRatio:
        return x.__trunc__()
    if t is SymMemoryView:
        x = freeze(x)
        t = type(x)
    if t is SymStr or t in _SEQ:
        b = x.b if t is SymStr else x
        return int_of_text(b, *args, **kwargs)
    return int(x, *args, **kwargs)

def int_of_text(b, base=10):
    if base != 10:
        raise Unsupported("int() of symbolic text in another base")
    items = [core.item_to_int(i) for s in to_segs(b) for i in s]
    sign = 1
    if not items:
        raise ValueError("invalid literal for int()")
    if truth(items[0] == 45):
        sign, items = -1, items[1:]
    elif truth(items[0] == 43):
        items = items[1:]
    ok = sym_and([sym_and([i >= 48, i <= 57]) for i in items]) if items else False
    if not truth(ok):
        # blanks and underscores: enumerate
        text = concretize_bytes(b)
        return int(text)
    v = 0
    for i in items:
        d = i - 48
        if isinstance_sym_int(d):
            d = SymInt(z3.Extract(3, 0, i.e - 48), 0, 9)
        v = v * 10 + d
    return sign * v

def m_bool(x=False):
    return truth(x)

def m_str(*args, **kwargs):
    if args and type(args[0]) in _SYMSET:
        x = args[0]
        if type(x) is SymStr:
            return x
        if type(x) in _SEQ and (len(args) > 1 or kwargs):
            return freeze(x).decode(*args[1:], **kwargs)
        return x.__str__()
    return str(*args, **kwargs)

def m_dict(*args, **kwargs):
    return SymDict(*args, **kwargs)

def m_set(items=()):
    return items.copy() if type(items) is SymSet else SymSet(items)

def m_frozenset(items=()):
    if type(items) is not SymSet:
        items = list(items)
        if not any(is_sym(x) for x in items):
            return frozenset(items)
    r = m_set(items)
    return frozenset(r._raw()) if r._e is None else r

def m_type(*args, **kwargs):
    if len(args) == 1:
        x = args[0]
        t = type(x)
        if t is SymInt: return int
        if t is SymEnum: return x.cls
        if t is SymBool: return bool
        if t is SymBytes: return bytes
        if t is SymByteArray: return bytearray
        if t is SymMemoryView: return memoryview
        if t is SymStr: return str
        if t is SymDict: return dict
        if t is SymOrderedDict: return collections.OrderedDict
        if t is SymCounter: return collections.Counter
        if t is SymSet: return set
        return t
    return type(*args, **kwargs)

def m_isinstance(x, c):
    if type(x) is SymBytesIO and type(c) is type and issubclass(io.BytesIO, c):
        return True
    if type(x) is SymOrderedDict and c is collections.OrderedDict:
        return True
    if type(x) is SymCounter and c is collections.Counter:
        return True
    return isinstance(x, c)

def m_ord(x):
    if type(x) in _SEQ or type(x) is SymStr:
        b = x.b if type(x) is SymStr else x
        if not truth(b.length() == 1):
            raise TypeError("ord() expected a character")
        return b[0]
    return ord(x)

def m_chr(x):
    if isinstance_sym_int(x):
        if truth(sym_and([x >= 0, x < 128])):
            return mkstr(mkbytes([(int_to_item(x),)]))
        return chr(concretize(x))
    return chr(x)

def m_defaultdict(default_factory=None, *args, **kwargs):
    d = SymDict(*args, **kwargs)
    d.default_factory = modelled(default_factory)
    return d

def m_memoryview(x):
    return SymMemoryView(x)

def m_from_bytes(b, byteorder='big', *, signed=False):
    segs = to_segs(b)
    if segs is None:
        segs = to_segs(core.bytes_from_iterable(b))
    if all(type(s) is tuple and all(type(i) is int for i in s) for s in segs):
        return int.from_bytes(core.concrete_bytes(b if to_segs(b) is not None
                                                  else mkbytes(segs)), byteorder, signed=signed)
    if signed:
        raise Unsupported("signed from_bytes")
    items = []
    for s in segs:
        if type(s) is tuple:
            items += s
        else:
            n = concretize(s.n)
            items += [int_to_item(v) for v in iter_segs(core.cut([s], n)[0])]
    if byteorder == 'little':
        items.reverse()
    while items and isinstance(items[0], int) and items[0] == 0:
        items.pop(0)
    if not items:
        return 0
    parts = [i if not isinstance(i, int) else z3.BitVecVal(i, 8) for i in items]
    e = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    hi = 0
    lo = 0
    for i in items:
        hi = hi << 8 | (i if isinstance(i, int) else 255)
        lo = lo << 8 | (i if isinstance(i, int) else 0)
    return mkint(e, lo, hi)

def m_isinf(x):
    return False if type(x) in _SYMSET else math.isinf(x)

def m_ceil(x):
    return x.__ceil__() if type(x) in (core.SymRatio, SymInt, SymEnum) else math.ceil(x)

def m_floor(x):
    return x.__floor__() if type(x) in (core.SymRatio, SymInt, SymEnum) else math.floor(x)

def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start

def m_min(*args, **kwargs):
    return _extreme(args, kwargs, False)

def m_max(*args, **kwargs):
    return _extreme(args, kwargs, True)

def _extreme(args, kwargs, big):
    f = max if big else min
    if kwargs or not args:
        return f(*args, **kwargs)
    if len(args) == 1:
        args = list(args[0])
        if not args:
            return f(args)
    if not any(isinstance_sym_int(a) for a in args) or not all(core._is_int(a) for a in args):
        return f(args)
    r = args[0]
    for a in args[1:]:
        c = (a > r) if big else (a < r)
        if type(c) is SymBool:
            x, y = core.lift(a), core.lift(r)
            ex, ey, _ = core._common(x, y)
            lo, hi = ((max(x.lo, y.lo), max(x.hi, y.hi)) if big
                      else (min(x.lo, y.lo), min(x.hi, y.hi)))
            r = mkint(z3.If(c.e, ex, ey), lo, hi)
        elif c:
            r = a
    return r

def m_all(it):
    # evaluate lazily, as all() does
    for x in it:
        if not truth(x):
            return False
    return True

def m_any(it):
    for x in it:
        if truth(x):
            return True
    return False

def m_hash(x):
    return hash(x)

def m_hexlify(data, *args, **kwargs):
    if type(data) in _SEQ and not is_concrete(data):
        if not args:
            return data.hex().encode()
        sep = args[0]
        sep = sep.encode() if isinstance(sep, str) else bytes(sep)
        if len(args) > 1 and args[1] != 1:
            raise Unsupported("hexlify grouping")
        out = b''
        for n, it in enumerate(data):
            if n:
                out = out + sep
            h = mkbytes([(int_to_item(it),)])
            h = h.hex().encode() if type(h) is not bytes else binascii.hexlify(h)
            out = out + h
        return out
    return binascii.hexlify(native(data), *args, **kwargs)


# ---- struct

def _struct_fields(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if fmt[:1] not in '!>':
        raise Unsupported(f"struct format {fmt}")
    out, num = [], ''
    for c in fmt[1:]:
        if c.isdigit():
            num += c
            continue
        n = int(num) if num else 1
        num = ''
        if c in 's':
            out.append(('s', n))
        elif c == 'x':
            out.append(('x', n))
        elif c in 'BHIQL':
            out += [('u', {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}[c])] * n
        else:
            raise Unsupported(f"struct format {fmt}")
    return out

def m_unpack(fmt, data):
    if type(data) not in _SEQ:
        return struct.unpack(fmt, data)
    fields = _struct_fields(fmt)
    size = sum(n for _, n in fields)
    if not truth(data.length() == size):
        raise struct.error(f"unpack requires a buffer of {size} bytes")
    return m_unpack_from(fmt, data, 0)

def m_unpack_from(fmt, data, offset=0):
    if type(data) not in _SEQ and not isinstance_sym_int(offset):
        return struct.unpack_from(fmt, data, offset)
    fields = _struct_fields(fmt)
    size = sum(n for _, n in fields)
    if truth(m_len(data) < offset + size):
        raise struct.error("unpack_from requires a larger buffer")
    out, i = [], offset
    for kind, n in fields:
        piece = getitem(data, slice(i, i + n))
        if kind == 'u':
            out.append(m_from_bytes(piece, 'big'))
        elif kind == 's':
            out.append(freeze(piece))
        i = i + n
    return tuple(out)

def m_pack(fmt, *values):
    if not any(type(v) in _SYMSET for v in values):
        return struct.pack(fmt, *values)
    out, values = [], list(values)
    for kind, n in _struct_fields(fmt):
        if kind == 'x':
            out += to_segs(b'\0' * n)
            continue
        v = values.pop(0)
        if kind == 'u':
            v = core.lift(v)
            if (v.lo < 0 or v.hi >= 1 << (8 * n)) and truth(sym_or([v < 0, v >= 1 << (8 * n)])):
                raise struct.error("argument out of range")
            out += to_segs(v.to_bytes(n, 'big'))
        else:
            v = v + b'\0' * n
            out += to_segs(v[:n])
    return mkbytes(out)


def m_pack_into(fmt, buffer, offset, *values):
    data = m_pack(fmt, *values)
    if type(buffer) not in _SEQ:
        return struct.pack_into(fmt, buffer, offset, *values)
    if truth(m_len(buffer) - offset < m_len(data)):
        raise struct.error("pack_into requires a larger buffer")
    buffer[offset:offset + m_len(data)] = data

def m_iter_unpack(fmt, data):
    if type(data) not in _SEQ:
        yield from struct.iter_unpack(fmt, data)
        return
    size = sum(n for _, n in _struct_fields(fmt))
    n = concretize(m_len(data))
    if n % size:
        raise struct.error(f"iterative unpacking requires a buffer of a multiple of {size} bytes")
    for i in range(0, n, size):
        yield m_unpack_from(fmt, data, i)

class SymStruct:
    """struct.Struct"""
    def __init__(self, format):
        self.size = struct.calcsize(format)
        self.format = format if isinstance(format, str) else format.decode()
    def pack(self, *values):
        return m_pack(self.format, *values)
    def unpack(self, data):
        return m_unpack(self.format, data)
    def unpack_from(self, buffer, offset=0):
        return m_unpack_from(self.format, buffer, offset)
    def pack_into(self, buffer, offset, *values):
        return m_pack_into(self.format, buffer, offset, *values)
    def iter_unpack(self, data):
        return m_iter_unpack(self.format, data)


# ---- hashes

_HASHES = {}
for _n in ('sha256', 'sha384', 'sha512', 'sha1', 'sha224', 'md5'):
    _HASHES[getattr(hashlib, _n)] = _n

class SymHash:
    """A running hash: the real one on concrete data, an injective function on symbolic data."""
    def __init__(self, name, data=b''):
        self.name = name
        real = hashlib.new(name)
        self.digest_size = real.digest_size
        self.block_size = real.block_size
        self._data = freeze(data) if type(data) in _SEQ else bytes(data)
    def update(self, data):
        self._data = self._data + (freeze(data) if type(data) in _SEQ else bytes(data))
    def digest(self):
        name = self.name
        return apply_term(name, (self._data,), self.digest_size,
                          lambda d: hashlib.new(name, d).digest())
    def hexdigest(self):
        return self.digest().hex()
    def copy(self):
        return SymHash(self.name, self._data)

def hash_name(digestmod):
    if isinstance(digestmod, str):
        return digestmod.lower().replace('-', '')
    if digestmod in _HASHES:
        return _HASHES[digestmod]
    h = digestmod()
    return h.name

def m_hashnew(name, data=b'', **kwargs):
    return SymHash(hash_name(name), data)

def m_hmac_digest(key, msg, digest):
    name = hash_name(digest)
    size = hashlib.new(name).digest_size
    key = freeze(key)
    if is_concrete(key):
        # RFC 2104 pads the key with zeros
        key = core.concrete_bytes(key)
        if len(key) <= hashlib.new(name).block_size:
            key = key.rstrip(b'\x00')
    return apply_term('hmac-' + name, (key, freeze(msg)), size,
                      lambda k, m: hmac.digest(k, m, name))

class SymHmac:
    def __init__(self, key, msg=None, digestmod=''):
        self._name = hash_name(digestmod)
        self.name = 'hmac-' + self._name
        self.digest_size = hashlib.new(self._name).digest_size
        self.block_size = hashlib.new(self._name).block_size
        self._key = freeze(key)
        self._data = freeze(msg) if msg is not None else b''
    def update(self, data):
        self._data = self._data + freeze(data)
    def digest(self):
        return m_hmac_digest(self._key, self._data, self._name)
    def hexdigest(self):
        return self.digest().hex()
    def copy(self):
        h = SymHmac(self._key, self._data, self._name)
        return h

def m_compare_digest(a, b):
    if type(a) in _SYMSET or type(b) in _SYMSET:
        return a == b
    return hmac.compare_digest(a, b)


# ---- io.BytesIO

class SymBytesIO:
    """io.BytesIO over possibly symbolic bytes and positions."""
    def __init__(self, initial_bytes=b''):
        self._b = b'' if initial_bytes is None else freeze(initial_bytes)
        if to_segs(self._b) is None:
            raise TypeError("a bytes-like object is required")
        self._p = 0
        self._closed = False
    def _open(self):
        if self._closed:
            raise ValueError("I/O operation on closed file.")
    def _len(self):
        return m_len(self._b)
    def _slice(self, i, j):
        return getitem(self._b, slice(i, j))
    def _left(self):
        n = self._len()
        return 0 if truth(self._p >= n) else n - self._p
    def read(self, size=-1):
        self._open()
        left = self._left()
        if size is None or truth(size < 0) or truth(size > left):
            size = left
        if not isinstance_sym_int(size) and size == 0:
            return b''
        out = self._slice(self._p, self._p + size)
        self._p = self._p + size
        return out
    read1 = read
    def readinto(self, buf):
        self._open()
        n = m_len(buf)
        left = self._left()
        if truth(n > left):
            n = left
        setitem_v(self.read(n), buf, slice(0, n))
        return n
    readinto1 = readinto
    def readline(self, size=-1):
        self._open()
        left = self._left()
        if size is not None and truth(size >= 0) and truth(size < left):
            left = size
        n = 0
        while truth(n < left):
            n = n + 1
            if truth(self._b[self._p + n - 1] == 10):
                break
        return self.read(n)
    def readlines(self, hint=None):
        out, n = [], 0
        while truth(m_len(line := self.readline()) != 0):
            out.append(line)
            n = n + m_len(line)
            if hint is not None and truth(hint > 0) and truth(n >= hint):
                break
        return out
    def __iter__(self):
        self._open()
        return self
    def __next__(self):
        line = self.readline()
        if truth(m_len(line) == 0):
            raise StopIteration
        return line
    def getvalue(self):
        self._open()
        return self._b
    def getbuffer(self):
        self._open()
        return SymMemoryView(self._b)
    def tell(self):
        self._open()
        return self._p
    def seek(self, pos, whence=0):
        self._open()
        if whence == 0:
            if truth(pos < 0):
                raise ValueError("negative seek value")
            self._p = pos
        elif whence == 1:
            self._p = m_max(0, self._p + pos)
        elif whence == 2:
            self._p = m_max(0, self._len() + pos)
        else:
            raise ValueError("invalid whence")
        return self._p
    def truncate(self, size=None):
        self._open()
        size = self._p if size is None else size
        if truth(size < 0):
            raise ValueError("negative size value")
        self._b = self._slice(0, size)
        return size
    def write(self, data):
        self._open()
        data = freeze(data)
        if to_segs(data) is None:
            raise TypeError("a bytes-like object is required")
        n, k = self._len(), m_len(data)
        if truth(k == 0):
            return 0
        if truth(self._p == n):
            self._b = self._b + data
        else:
            if truth(self._p > n):
                self._b = self._b + m_bytes(self._p - n)
            head = self._slice(0, self._p)
            if truth(self._p + k >= n):
                tail = b''
            else:
                tail = self._slice(self._p + k, n)
            self._b = head + data + tail
        self._p = self._p + k
        return k
    def writelines(self, lines):
        for l in lines:
            self.write(l)
    def readable(self):
        self._open()
        return True
    writable = seekable = readable
    def isatty(self):
        self._open()
        return False
    def flush(self):
        self._open()
    def close(self): self._closed = True
    @property
    def closed(self): return self._closed
    def __enter__(self):
        self._open()
        return self
    def __exit__(self, *a): self.close()


# ---- collections

class SymOrderedDict(SymDict):
    __slots__ = ()
    def move_to_end(self, k, last=True):
        v = self[k]
        self._switch()
        self._e.pop(self._find(k))
        self._e.insert(len(self._e) if last else 0, [k, v])
    def popitem(self, last=True):
        self._switch()
        if not self._e:
            raise KeyError("dictionary is empty")
        return tuple(self._e.pop(-1 if last else 0))
    def copy(self):
        return SymOrderedDict(self)
    __copy__ = copy
    def __eq__(self, o):
        if isinstance(o, (SymOrderedDict, collections.OrderedDict)):
            return sym_and([len(self) == len(o)] + [
                core.key_eq(k, j) for k, j in zip(self.keys(), o.keys())] + [
                core.key_eq(v, w) for v, w in zip(self.values(), o.values())])
        return SymDict.__eq__(self, o)
    __ne__ = SymDict.__ne__
    __hash__ = None


class SymCounter(SymDict):
    __slots__ = ()
    def __getitem__(self, k):
        return self.get(k, 0)
    def update(self, items=None, /, **kwargs):
        if items is not None:
            if isinstance(items, dict):
                for k, n in list(items.items()):
                    self[k] = self[k] + n
            else:
                for k in items:
                    self[k] = self[k] + 1
        for k, n in kwargs.items():
            self[k] = self[k] + n
    def subtract(self, items=()):
        pairs = items.items() if isinstance(items, dict) else [(k, 1) for k in items]
        for k, n in list(pairs):
            self[k] = self[k] - n
    def elements(self):
        return itertools.chain.from_iterable([k] * concretize(n) for k, n in self.items())
    def total(self):
        return m_sum(self.values())
    def most_common(self, n=None):
        out = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return out if n is None else out[:n]
    def copy(self):
        return SymCounter(self)
    __copy__ = copy
    __hash__ = None


# ---- functools.lru_cache: what a path computed is not kept for the next

class SymCache:
    """The cached function; its cache is an association list of the current path."""
    def __init__(self, f, maxsize=None):
        functools.update_wrapper(self, f)
        self._maxsize = maxsize
    def _cache(self):
        return core.ENG.tables.setdefault(('cache', id(self)), SymOrderedDict())
    def __call__(self, *args, **kwargs):
        for x in (*args, *kwargs.values()):
            if type(x) in (SymByteArray, SymSet, list) or isinstance(x, SymDict):
                raise TypeError(f"unhashable type: '{m_type(x).__name__}'")
        cache = self._cache()
        key = (args, *kwargs.items())
        try:
            v = cache[key]
        except KeyError:
            v = cache[key] = self.__wrapped__(*args, **kwargs)
            if self._maxsize is not None and len(cache) > self._maxsize:
                cache.popitem(last=False)
        else:
            if self._maxsize is not None:
                cache.move_to_end(key)
        return v
    def cache_clear(self):
        self._cache().clear()
    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

def decorator(f):
    """What stands for a decorator given without arguments."""
    return MODELS.get(f, f) if type(f) is types.FunctionType else f

def boolean(f):
    """The __bool__ of a class."""
    @functools.wraps(f)
    def __bool__(self):
        r = f(self)
        return truth(r) if type(r) is SymBool else r
    return __bool__

def m_cache(f):
    return SymCache(f)

def m_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return SymCache(maxsize, 128)
    return lambda f: SymCache(f, maxsize)


# ---- conversion to native objects

def native(x):
    """For C code that knows nothing about proxies."""
    t = type(x)
    if t is SymByteArray:
        return bytearray(core.concrete_or_stop(x))
    if t is SymBytes:
        return core.concrete_or_stop(x)
    if t is SymMemoryView:
        return memoryview(core.concrete_or_stop(x))
    if t is SymInt:
        return concretize(x, 300)
    if t is SymEnum:
        return x.member()
    if t is SymBool:
        return truth(x)
    if t is SymStr:
        return concretize_bytes(x.b).decode()
    if t is tuple or t is list:
        if any(type(y) in _SYMSET for y in x):
            return t(native(y) for y in x)
    return x


_PY_METHOD_OK = {
    # C methods that only move their arguments around or use ==, < and truth on them
    list: {'append', 'extend', 'insert', 'remove', 'index', 'count', 'sort', 'pop', 'copy',
           'clear', 'reverse'},
}

MODELS = {
    len: m_len, range: m_range, bytes: m_bytes, bytearray: m_bytearray, int: m_int, bool: m_bool,
    str: m_str, dict: m_dict, set: m_set, frozenset: m_frozenset, type: m_type, isinstance: m_isinstance, ord: m_ord, chr: m_chr,
    memoryview: m_memoryview, sum: m_sum, min: m_min, max: m_max, all: m_all, any: m_any,
    int.from_bytes: m_from_bytes, math.ceil: m_ceil, math.floor: m_floor, math.isinf: m_isinf,
    struct.pack: m_pack, struct.unpack: m_unpack, struct.unpack_from: m_unpack_from,
    hashlib.new: m_hashnew, hmac.digest: m_hmac_digest, hmac.compare_digest: m_compare_digest,
    hmac.new: SymHmac, hmac.HMAC: SymHmac, io.BytesIO: SymBytesIO, binascii.hexlify: m_hexlify,
}
MODELS[struct.Struct] = SymStruct
MODELS[struct.pack_into] = m_pack_into
MODELS[struct.iter_unpack] = m_iter_unpack
MODELS[operator.getitem] = getitem
MODELS[operator.contains] = lambda c, x: contains(x, c)
MODELS[operator.is_] = is_
MODELS[operator.is_not] = is_not
MODELS[operator.not_] = lambda x: sym_not(x) if type(x) is SymBool else not x
MODELS[operator.truth] = m_bool
MODELS[operator.setitem] = lambda o, k, v: setitem_v(v, o, k)
MODELS[operator.delitem] = delitem
MODELS[operator.mod] = lambda a, b: mod(a, b)
MODELS[collections.defaultdict] = m_defaultdict
MODELS[collections.OrderedDict] = SymOrderedDict
MODELS[collections.Counter] = SymCounter
MODELS[functools.cache] = m_cache
MODELS[functools.lru_cache] = m_lru_cache
MODELS[bytes.maketrans] = MODELS[bytearray.maketrans] = bytes.maketrans
import secrets
MODELS[secrets.compare_digest] = m_compare_digest
for _f, _n in _HASHES.items():
    MODELS[_f] = functools.partial(SymHash, _n)

# C callables that may receive proxies unchanged
PASS = {
    iter, next, zip, enumerate, map, filter, sorted, reversed, list, tuple, getattr, setattr,
    hasattr, print, repr, id, callable, abs, divmod, pow, round, format, hash,
    issubclass, object, property, super, staticmethod, classmethod, functools.partial,
    functools.reduce, collections.deque, types.SimpleNamespace, hex, bin, oct, ascii,
    *(f for m in (_bisect, _heapq) for f in vars(m).values() if type(f) is _bi),
    *(f for f in vars(operator).values() if type(f) is _bi),
    *(f for f in vars(itertools).values() if isinstance(f, type) or type(f) is _bi),
    itertools.chain.from_iterable,
}

# C callables that call what they are given
HIGHER = {
    iter, map, filter, sorted, functools.reduce, functools.partial,
    itertools.accumulate, itertools.dropwhile, itertools.filterfalse, itertools.groupby,
    itertools.starmap, itertools.takewhile, m_min, m_max,
}

class Modelled:
    """A C callable handed to C code, that calls its model."""
    __slots__ = ('f',)
    def __init__(self, f):
        self.f = f
    def __call__(self, *args, **kwargs):
        return call(self.f, *args, **kwargs)

def modelled(f):
    if not callable(f) or f is None or type(f) is Modelled:
        return f
    if type(f) is types.FunctionType and f not in MODELS:
        return f
    return Modelled(f)

def call(f, /, *args, **kwargs):
    tf = type(f)
    if tf is types.FunctionType:
        m = MODELS.get(f)
        return f(*args, **kwargs) if m is None else m(*args, **kwargs)
    if tf is types.MethodType:
        s = f.__self__
        if isinstance(s, type) and s.__module__.startswith('cryptography'):
            hook = SELF_HOOKS.get(f.__name__)
            if hook is not None:
                r = hook(s, args, kwargs)
                if r is not NotImplemented:
                    return r
        return f(*args, **kwargs)
    if tf is Modelled:
        return call(f.f, *args, **kwargs)
    try:
        m = MODELS.get(f)
        if args and (f in HIGHER or m in HIGHER):
            if 'key' in kwargs:
                kwargs['key'] = modelled(kwargs['key'])
            if f in HIGHER and f is not sorted:
                args = [modelled(a) if callable(a) else a for a in args]
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kwargs)
    if tf is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kwargs})
    if tf is _bi or tf is types.MethodWrapperType:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            if f not in PASS and _has_sym(args, kwargs):
                return f(*[native(a) for a in args], **{k: native(v) for k, v in kwargs.items()})
            return f(*args, **kwargs)
        name = f.__name__
        ts = type(s)
        if ts is bytes or ts is bytearray:
            if name == 'join':
                items = list(args[0])
                if any(type(x) in _SEQ for x in items):
                    return SymBytes(to_segs(s)).join(items)
                return s.join(items)
            if _has_sym(args, kwargs):
                if name.startswith('__'):
                    return f(*args, **kwargs)
                return getattr(SymBytes(to_segs(s)), name)(*args, **kwargs)
            return f(*args, **kwargs)
        if ts is str:
            if name == 'join':
                items = list(args[0])
                if any(type(x) is SymStr for x in items):
                    r = ''
                    for n, x in enumerate(items):
                        r = r + s + x if n else x
                    return r
                return s.join(items)
            if name == 'format' and any(type(x) is SymStr for x in (*args, *kwargs.values())):
                return m_str_format(s, args, kwargs)
            if name == 'format' or name.startswith('__'):
                return f(*args, **kwargs)
            if _has_sym(args, kwargs):
                return getattr(SymStr(SymBytes((tuple(s.encode('ascii')),))), name)(*args, **kwargs)
            return f(*args, **kwargs)
        if isinstance(s, dict) and not isinstance(s, SymDict):
            if args and is_sym(args[0]) and name in ('get', 'setdefault', 'pop', '__getitem__',
                                                     '__contains__'):
                k = args[0]
                keys = list(s.keys())
                if name == '__contains__':
                    return contains(k, s)
                i = core.find_key(keys, k)
                if i is None:
                    if name == 'get':
                        return args[1] if len(args) > 1 else None
                    if name == 'pop' and len(args) > 1:
                        return args[1]
                    if name == 'setdefault':
                        raise Unsupported("symbolic key into a plain dict")
                    raise KeyError(k)
                return f(keys[i], *args[1:])
            return f(*args, **kwargs)
        if (ts is set or ts is frozenset) and not name.startswith('__') and any(
                type(a) is SymSet or is_sym(a) or type(a) in (list, tuple) and any(map(is_sym, a))
                for a in args):
            if name in ('add', 'update', 'discard', 'remove') or name.endswith('_update'):
                raise Unsupported("symbolic item into a plain set")
            return getattr(SymSet(s), name)(*args, **kwargs)
        if ts in (list, set, frozenset, tuple, types.GeneratorType) or ts in _SYMSET \
                or isinstance(s, (BaseException,)) or name == '__setattr__' or name == '__init__':
            return f(*args, **kwargs)
        if s is bytes and name == 'fromhex' or s is bytearray and name == 'fromhex':
            if type(args[0]) is SymStr:
                r = core.unhex(args[0].b)
            else:
                r = bytes.fromhex(*args)
            return SymByteArray(r) if s is bytearray else r
        if s is dict and name == 'fromkeys':
            v = args[1] if len(args) > 1 else None
            d = SymDict()
            for k in args[0]:
                d[k] = v
            return d
        hook = SELF_HOOKS.get(name)
        if hook is not None:
            r = hook(s, args, kwargs)
            if r is not NotImplemented:
                return r
        if _has_sym(args, kwargs) and not type(s).__module__.startswith(('siotls', 'collections',
                                                                        '_asyncio', 'logging')):
            return f(*[native(a) for a in args], **{k: native(v) for k, v in kwargs.items()})
        return f(*args, **kwargs)
    if isinstance(f, enum.EnumMeta) and len(args) == 1 and not kwargs:
        x = args[0]
        tx = type(x)
        if tx is SymInt or tx is SymEnum:
            if issubclass(f, int):
                return make_enum(f, x)
            raise ValueError("<symbolic> is not a valid member")
        if tx is SymStr:
            members = list(f)
            i = core.find_key([str(m.value) for m in members], x)
            if i is None:
                raise ValueError("<symbolic> is not a valid member")
            return members[i]
        if tx is SymBool:
            return f(truth(x))
        return f(x)
    if f is type(f) or tf is type(int.from_bytes) or tf is types.MethodDescriptorType \
            or tf is types.WrapperDescriptorType:
        # unbound C method: int.to_bytes(x, 2, 'big'), bytes.join(b'', ...)
        if args and tf in (types.MethodDescriptorType, types.WrapperDescriptorType):
            s = args[0]
            if type(s) in _SYMSET and hasattr(type(s), f.__name__):
                return getattr(s, f.__name__)(*args[1:], **kwargs)
            if tf is types.MethodDescriptorType and type(s) not in _SYMSET:
                return call(getattr(s, f.__name__), *args[1:], **kwargs)
    hook = CLASS_HOOKS.get(f) if isinstance(f, type) else None
    if hook is not None:
        return hook(*args, **kwargs)
    if isinstance(f, type) and f not in PASS and _has_sym(args, kwargs) and not _python_class(f):
        return f(*[native(a) for a in args], **{k: native(v) for k, v in kwargs.items()})
    return f(*args, **kwargs)

def _python_class(f):
    return isinstance(f.__dict__.get('__init__'), types.FunctionType) or bool(
        f.__flags__ & (1 << 9)) or issubclass(f, (BaseException, tuple))


# ---- texts built out of symbolic texts

_CONVERT = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}

def _join(parts):
    out = ''
    for p in parts:
        out = out + p
    return out

def fstring(parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            value, conversion, spec = p
            if conversion in (-1, 115) and type(value) is SymStr and spec == '':
                out.append(value)
            else:
                out.append(format(_CONVERT[conversion](value), spec))
        else:
            out.append(p)
    if any(type(p) is SymStr for p in out):
        return _join(out)
    return ''.join(out)

def mod(a, b):
    if type(a) is str and any(type(x) is SymStr for x in (b if type(b) is tuple else (b,))):
        args = iter(b if type(b) is tuple else (b,))
        out = []
        for i, part in enumerate(re.split('(%[^a-zA-Z%]*[a-zA-Z%])', a)):
            if i % 2 == 0:
                out.append(part)
            elif part == '%%':
                out.append('%')
            else:
                x = next(args)
                out.append(x if part == '%s' and type(x) is SymStr else part % (x,))
        return _join(out)
    if type(a) in (bytes, bytearray) or type(a) in _SEQ:
        args = b if type(b) is tuple else (b,)
        if not is_concrete(a) or _has_sym(args):
            return bytes_mod(a, args)
    return a % b

def bytes_mod(a, args):
    """bytes % args, for what has a symbolic meaning."""
    fmt, args = core.concrete_or_stop(a), iter(args)
    out = b''
    for i, part in enumerate(re.split(b'(%[^a-zA-Z%]*[a-zA-Z%])', fmt)):
        if i % 2 == 0:
            out = out + part
            continue
        if part == b'%%':
            out = out + b'%'
            continue
        try:
            x = next(args)
        except StopIteration:
            raise TypeError("not enough arguments for format string") from None
        if part in (b'%b', b'%s') and to_segs(x) is not None:
            out = out + freeze(x)
        elif part == b'%c':
            if to_segs(x) is not None:
                if not truth(m_len(x) == 1):
                    raise TypeError("%c requires an integer in range(256) or a single byte")
                out = out + freeze(x)
            elif not truth(sym_and([x >= 0, x < 256])):
                raise OverflowError("%c arg not in range(256)")
            else:
                out = out + mkbytes([(int_to_item(x),)])
        elif m := re.fullmatch(rb'%0(\d+)x', part):
            width = int(m[1])
            if isinstance_sym_int(x):
                if truth(x < 0):
                    raise Unsupported("hexadecimal of a negative number")
                while not truth(x < 16 ** width):
                    width += 1
                digits = x.to_bytes((width + 1) // 2).hex().b
                out = out + digits[width % 2:]
            else:
                out = out + part % x
        else:
            out = out + part % (native(x),)
    if next(args, None) is not None:
        raise TypeError("not all arguments converted during bytes formatting")
    return SymByteArray(out) if isinstance(a, bytearray) else out

def m_str_format(fmt, args, kwargs):
    """str.format over symbolic texts."""
    out = []
    auto = 0
    formatter = string.Formatter()
    for literal, field, spec, conversion in formatter.parse(fmt):
        out.append(literal)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field, auto = str(auto) + field, auto + 1
        value, _ = formatter.get_field(field, args, kwargs)
        if type(value) is SymStr and not spec and conversion in (None, 's'):
            out.append(value)
        else:
            value = native(value)
            out.append(format(formatter.convert_field(value, conversion), spec))
    return _join(out)


# extension points filled by the crypto models
CLASS_HOOKS = {}
SELF_HOOKS = {}
