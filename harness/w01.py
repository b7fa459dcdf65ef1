"""W01: the wire primitives of serial.SerialIO."""
from siotls.serial import SerialIO, TLSBufferError

from symex.api import case

FUNCS = ('siotls.serial:SerialIO.read', 'siotls.serial:SerialIO.read_exactly',
         'siotls.serial:SerialIO.read_int', 'siotls.serial:SerialIO.read_var',
         'siotls.serial:SerialIO.read_listint', 'siotls.serial:SerialIO.read_listvar',
         'siotls.serial:SerialIO.limit', 'siotls.serial:SerialIO.lookahead',
         'siotls.serial:SerialIO.is_eof', 'siotls.serial:SerialIO.assert_eof',
         'siotls.serial:SerialIO.write_int', 'siotls.serial:SerialIO.write_var',
         'siotls.serial:SerialIO.write_listint', 'siotls.serial:SerialIO.write_listvar')


def be(data):
    n = 0
    for b in data:
        n = n * 256 + b
    return n


def number(sx, stream, data, pos, end, width):
    """Oracle of read_int: (value, new position), or None when it must fail."""
    if pos + width > end:
        return None
    return be(data[pos:pos + width]), pos + width


def buffer_error(sx, exc, label):
    sx.check(isinstance(exc, TLSBufferError), label, f'{type(exc).__name__} instead')


def do_op(sx, stream, data, pos, end, op, width, item):
    """One operation and its oracle; the new position, None once it failed."""
    if op == 'int':
        exc, got = sx.attempt(stream.read_int, width)
        n = number(sx, stream, data, pos, end, width)
        if n is None:
            buffer_error(sx, exc, 'integer past the end')
            return None
        sx.check(exc is None, 'integer refused', exc)
        sx.check(got == n[0], 'integer value')
        sx.check(stream.tell() == n[1], 'position after an integer')
        return n[1]
    if op == 'exact':
        exc, got = sx.attempt(stream.read_exactly, width)
        if pos + width > end:
            buffer_error(sx, exc, 'bytes past the end')
            return None
        sx.check(exc is None, 'bytes refused', exc)
        sx.check(got == data[pos:pos + width], 'bytes value')
        sx.check(stream.tell() == pos + width, 'position after bytes')
        return pos + width
    if op in ('rest', 'all'):
        exc, got = sx.attempt(stream.read, *([-1] if op == 'all' else []))
        sx.check(exc is None, 'rest refused', exc)
        sx.check(got == data[pos:end], 'the rest')
        return end
    if op == 'var':
        exc, got = sx.attempt(stream.read_var, width)
        n = number(sx, stream, data, pos, end, width)
        if n is None or n[1] + n[0] > end:
            buffer_error(sx, exc, 'vector past the end')
            return None
        length = sx.concrete(n[0])
        sx.check(exc is None, 'vector refused', exc)
        sx.check(got == data[n[1]:n[1] + length], 'vector value')
        sx.check(stream.tell() == n[1] + length, 'position after a vector')
        return n[1] + length
    if op == 'listint':
        exc, got = sx.attempt(stream.read_listint, width, item)
        n = number(sx, stream, data, pos, end, width)
        if n is None or n[0] % item or n[1] + n[0] > end:
            buffer_error(sx, exc, 'list of integers past the end or uneven')
            return None
        length = sx.concrete(n[0])
        sx.check(exc is None, 'list of integers refused', exc)
        sx.check(len(got) == length // item, 'number of integers')
        for i, g in enumerate(got):
            at = n[1] + i * item
            sx.check(g == be(data[at:at + item]), 'integer in a list')
        sx.check(stream.tell() == n[1] + length, 'position after a list of integers')
        return n[1] + length
    if op == 'listvar':
        exc, got = sx.attempt(stream.read_listvar, width, item)
        n = number(sx, stream, data, pos, end, width)
        if n is None or n[1] + n[0] > end:
            buffer_error(sx, exc, 'list of vectors past the end')
            return None
        stop = n[1] + sx.concrete(n[0])
        at = n[1]
        want = []
        while at != stop:
            m = number(sx, stream, data, at, stop, item)
            if m is None or m[1] + m[0] > stop:
                buffer_error(sx, exc, 'vector past the end of its list')
                return None
            at = m[1] + sx.concrete(m[0])
            want.append(data[m[1]:at])
        sx.check(exc is None, 'list of vectors refused', exc)
        sx.check(len(got) == len(want), 'number of vectors')
        for g, w in zip(got, want):
            sx.check(g == w, 'vector in a list')
        sx.check(stream.tell() == stop, 'position after a list of vectors')
        return stop
    raise AssertionError(op)


OPS = ('int', 'exact', 'rest', 'all', 'var', 'listint', 'listvar')


@case('W01', quick=[{'op': op, 'size': 7} for op in OPS],
      thorough=[{'op': op, 'size': 10} for op in OPS],
      reach=('refused', 'read'), functions=FUNCS,
      bounds='one operation on any stream of 0 to `size` bytes, from any start position, '
             'integer fields of 1 to 4 bytes, items of 1 to 4 bytes')
def read_one(sx):
    data = sx.bytes('data', 0, sx.p('size'))
    start = sx.int('start', 0, len(data))
    start = sx.concrete(start)
    op = sx.p('op')
    width = sx.choice('width', (1, 2, 3, 4))
    item = sx.choice('item', (1, 2, 3, 4)) if op == 'listint' else (
        sx.choice('item', (1, 2)) if op == 'listvar' else 1)
    stream = SerialIO(data)
    stream.seek(start)
    if do_op(sx, stream, data, start, len(data), op, width, item) is None:
        sx.reach('refused')
    else:
        sx.reach('read')
    if op in ('exact', 'rest', 'all', 'int'):
        sx.reach('refused')
    sx.observe('position', stream.tell())
    sx.check(stream.tell() <= len(data), 'position beyond the end')


@case('W01', quick=[{'first': f, 'size': 4} for f in OPS],
      thorough=[{'first': f, 'size': 6} for f in OPS],
      reach=('done', 'refused'), functions=FUNCS,
      bounds='two operations inside a limit, then one after it, streams of 0 to `size` bytes, '
             'limits of any length, optionally a second nested limit')
def read_limited(sx):
    data = sx.bytes('data', 0, sx.p('size'))
    length = sx.concrete(sx.int('limit', 0, len(data) + 1))
    inner = sx.concrete(sx.int('inner', 0, length + 1))
    nested = sx.choice('nested', (False, True))
    ops = [(sx.p('first'), sx.choice('width1', (1, 2)), 2)]
    ops.append((sx.choice('op2', ('int', 'rest', 'var', 'nothing')), 1, 1))
    stream = SerialIO(data)
    end = min(len(data), length)
    state = {'failed': False}

    def body():
        with stream.limit(length):
            pos = 0
            if nested:
                with stream.limit(inner):
                    pos = do_op(sx, stream, data, 0, min(end, inner), *ops[0])
                    if pos is None:
                        state['failed'] = True
                        return
                    state['inner'] = pos
                state['inner'] = None
            else:
                pos = do_op(sx, stream, data, 0, end, *ops[0])
            if pos is None:
                state['failed'] = True
                return
            if ops[1][0] != 'nothing':
                pos = do_op(sx, stream, data, pos, end, *ops[1])
            if pos is None:
                state['failed'] = True
                return
            state['pos'] = pos
        state['out'] = True

    exc, _ = sx.attempt(body)
    if nested and inner > length:
        buffer_error(sx, exc, 'a limit larger than the one around it')
        sx.reach('refused')
        return
    if state['failed']:
        sx.reach('refused')
        return
    if state.get('inner') is not None:
        sx.check(state['inner'] != inner, 'inner limit reached but refused', exc)
        buffer_error(sx, exc, 'bytes left in the inner limit')
        sx.reach('refused')
        return
    if state['pos'] != length:
        buffer_error(sx, exc, 'bytes left in the limit')
        sx.reach('refused')
        return
    sx.check(exc is None, 'limit reached but refused', exc)
    # once out of the limit the rest of the stream is available again
    do_op(sx, stream, data, length, len(data), 'int', 1, 1)
    sx.reach('done')


@case('W01', params=[{}], reach=('eof', 'left'), functions=FUNCS,
      bounds='streams of 0 to 6 bytes, every position; lookahead over any operation')
def positions(sx):
    data = sx.bytes('data', 0, 6)
    start = sx.concrete(sx.int('start', 0, len(data)))
    op = sx.choice('op', OPS)
    stream = SerialIO(data)
    stream.seek(start)

    def peek():
        with stream.lookahead():
            do_op(sx, stream, data, start, len(data), op, 1, 1)
    exc, _ = sx.attempt(peek)
    sx.check(exc is None, 'lookahead', exc)
    sx.check(stream.tell() == start, 'lookahead moved the stream')
    sx.check(stream.is_eof() == (start == len(data)), 'is_eof')
    sx.check(stream.tell() == start, 'is_eof moved the stream')
    exc, _ = sx.attempt(stream.assert_eof)
    if start == len(data):
        sx.check(exc is None, 'assert_eof at the end', exc)
        sx.reach('eof')
    else:
        buffer_error(sx, exc, 'assert_eof before the end')
        sx.reach('left')
    sx.check(stream.tell() == start, 'assert_eof moved the stream')


@case('W01', params=[{}], reach=('written', 'refused'), functions=FUNCS,
      bounds='integers of -1 to 2**33 in fields of 1 to 4 bytes')
def write_numbers(sx):
    width = sx.choice('width', (1, 2, 3, 4))
    value = sx.int('value', -1, 1 << 33)
    stream = SerialIO()
    exc, _ = sx.attempt(stream.write_int, width, value)
    if value < 0 or value >= 256 ** width:
        sx.check(exc is not None, 'number too large for its field accepted')
        sx.reach('refused')
        return
    sx.check(exc is None, 'number refused', exc)
    out = stream.getvalue()
    sx.check(len(out) == width, 'size of a number')
    sx.check(be(out) == value, 'bytes of a number')
    stream.seek(0)
    sx.check(stream.read_int(width) == value, 'number read back')
    sx.reach('written')


@case('W01', quick=[{'max': 300}], thorough=[{'max': 70000}], reach=('written', 'refused'),
      functions=FUNCS, bounds='any byte string of 0 to `max` bytes (symbolic length) in vectors '
                              'with 1 to 3 bytes of length')
def write_vector(sx):
    width = sx.choice('width', (1, 2, 3))
    value = sx.blob('value', 0, sx.p('max'))
    stream = SerialIO()
    exc, _ = sx.attempt(stream.write_var, width, value)
    if len(value) >= 256 ** width:
        sx.check(exc is not None, 'vector too large for its field accepted')
        sx.reach('refused')
        return
    sx.check(exc is None, 'vector refused', exc)
    out = stream.getvalue()
    sx.check(out[width:] == value, 'bytes of a vector')
    sx.check(be(out[:width]) == len(value), 'length of a vector')
    stream.seek(0)
    sx.check(stream.read_var(width) == value, 'vector read back')
    sx.check(stream.is_eof(), 'vector not read completely')
    sx.reach('written')


@case('W01', params=[{}], reach=('written', 'refused'), functions=FUNCS,
      bounds='lists of 0 to 4 integers of 1 to 3 bytes each (any value up to 2**25), written at '
             'any offset 0 to 2')
def write_list_of_numbers(sx):
    item = sx.choice('item', (1, 2, 3))
    n = sx.choice('n', (0, 1, 2, 4))
    values = [sx.int(f'v{i}', 0, 1 << 25) for i in range(n)]
    stream = SerialIO()
    stream.write(b'xy')
    exc, _ = sx.attempt(stream.write_listint, 2, item, values)
    if sx.any([v >= 256 ** item for v in values]):
        sx.check(exc is not None, 'list with a number too large accepted')
        sx.reach('refused')
        return
    sx.check(exc is None, 'list refused', exc)
    out = stream.getvalue()
    sx.check(out[:2] == b'xy', 'earlier bytes overwritten')
    sx.check(be(out[2:4]) == n * item, 'length of a list')
    sx.check(len(out) == 4 + n * item, 'size of a list')
    stream.seek(2)
    got = stream.read_listint(2, item)
    sx.check(len(got) == n, 'numbers read back')
    for g, v in zip(got, values):
        sx.check(g == v, 'number read back')
    sx.check(stream.is_eof(), 'list not read completely')
    sx.reach('written')


@case('W01', quick=[{'n': n, 'max': 300} for n in (0, 1, 2, 3)],
      thorough=[{'n': n, 'max': 70000} for n in (0, 1, 2, 3)], functions=FUNCS, reach=('written',),
      bounds='lists of 0 to 3 byte strings of 0 to `max` bytes (symbolic lengths), items with 1 or '
             '2 bytes of length, lists with 1 or 2')
def write_list_of_vectors(sx):
    wlist = sx.choice('wlist', (1, 2))
    witem = sx.choice('witem', (1, 2))
    n = sx.p('n')
    values = [sx.blob(f'v{i}', 0, sx.p('max')) for i in range(n)]
    stream = SerialIO()
    # something may already be there, that is partly written over
    there = b'z' * sx.choice('there', (0, 0x14) if n < 3 else (0,))
    stream.write(b'xy' + there)
    stream.seek(2)
    exc, _ = sx.attempt(stream.write_listvar, wlist, witem, values)
    total = sum([len(v) + witem for v in values])
    if total >= 256 ** wlist or sx.any([len(v) >= 256 ** witem for v in values]):
        sx.check(exc is not None, 'list too large accepted')
        return
    sx.check(exc is None, 'list refused', exc)
    out = stream.getvalue()
    sx.check(out[:2] == b'xy', 'earlier bytes overwritten')
    sx.check(be(out[2:2 + wlist]) == total, 'length of a list')
    end = 2 + wlist + total
    sx.check(stream.tell() == end, 'position after writing a list')
    if end < 2 + len(there):
        sx.check(len(out) == 2 + len(there), 'what comes after a list stays')
        sx.check(out[end:] == there[end - 2:], 'what comes after a list stays')
    else:
        sx.check(len(out) == end, 'size of a list')
    stream.seek(2)
    got = stream.read_listvar(wlist, witem)
    sx.check(len(got) == n, 'vectors read back')
    for g, v in zip(got, values):
        sx.check(g == v, 'vector read back')
    sx.check(stream.tell() == end, 'list not read completely')
    sx.check(stream.is_eof() == (end >= 2 + len(there)), 'the end of the stream')
    sx.reach('written')
