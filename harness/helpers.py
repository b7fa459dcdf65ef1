"""A07: the helpers of siotls.utils and siotls.trust_store."""
import email.utils
from datetime import UTC, datetime, timedelta, timezone
from http import HTTPStatus

from siotls import trust_store, utils

from symex.api import case

OPS = ('next', 'peek', 'default', 'for')


@case('A07', quick=[{'steps': 5, 'first': f} for f in OPS], thorough=[{'steps': 7, 'first': f} for f in OPS],
      functions=('siotls.utils:peekable',), reach=('end', 'exhausted'),
      bounds='iterables of 0..3 elements of any value (numbers, None or text), every history of 5 '
             '(thorough: 7) operations among next, peek, peek with any default and the first turn of a loop')
def peeking(sx):
    size = sx.choice('size', (0, 1, 2, 3))
    kind = sx.choice('kind', ('numbers', 'none', 'text', 'iterator'))
    items = [sx.int(f'item {i}', 0, 1000) if kind in ('numbers', 'iterator')
             else None if kind == 'none' else f'item {i}' for i in range(size)]
    taken = []                       # what was read of the iterable so far

    def source():
        for i in items:
            taken.append(i)
            yield i
    it = utils.peekable(source() if kind == 'iterator' else items)
    left = list(items)
    default = sx.int('default', 0, 2000)
    for i in range(sx.p('steps')):
        op = sx.p('first') if not i else sx.choice(f'op {i}', OPS)
        if op == 'next':
            exc, got = sx.attempt(next, it)
        elif op == 'peek':
            exc, got = sx.attempt(it.peek)
        elif op == 'default':
            exc, got = sx.attempt(it.peek, default)
        else:
            sx.check(iter(it) is it, 'the iterator of an iterator is itself')
            exc, got = None, None
            for got in it:
                break
            else:
                exc = StopIteration()
        if not left:
            sx.reach('exhausted')
            if op == 'default':
                sx.check(exc is None, 'fails', repr(exc))
                sx.check(got == default, 'the default')
            else:
                sx.check(isinstance(exc, StopIteration), 'the end', repr(exc))
            continue
        sx.check(exc is None, 'an element is lost', repr(exc))
        sx.check(got is None if left[0] is None else got == left[0], 'the element, in order')
        if op in ('next', 'for'):
            del left[0]
        if kind == 'iterator':
            sx.check(len(taken) <= size - len(left) + 1, 'no more than one element is read ahead')
    exc, rest = sx.attempt(list, it)
    sx.check(exc is None, 'fails', repr(exc))
    sx.check(len(rest) == len(left) and sx.all([a is None if b is None else a == b
                                               for a, b in zip(rest, left, strict=True)]),
             'what is left')
    sx.reach('end')


def printed(sx, byte, char):
    """What is shown in place of a byte: itself if it is printable, never a control character."""
    printable = sx.all([byte > 32, byte <= 126])
    return sx.all([sx.implies(printable, char == byte), char >= 32, char <= 126])


def digit(sx, nibble, char):
    return sx.any([sx.all([nibble < 10, char == 48 + nibble]), sx.all([nibble >= 10, char == 87 + nibble])])


SIZES = (0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 255, 256)

@case('A07', quick=[{'sizes': SIZES[a:b]} for a, b in ((0, 4), (4, 7), (7, 9), (9, 11), (11, 13), (13, 15))]
      + [{'sizes': (65535, 65536)}],
      thorough=[{'sizes': (n,), 'few': False} for n in range(50)]
      + [{'sizes': (4095, 4096)}, {'sizes': (65535, 65536, 200000)}],
      functions=('siotls.utils:hexdump',), reach=('end',),
      bounds='15 sizes up to 256 (thorough: every one up to 49, and 4096); two '
             'bytes of any value anywhere near the edges of the lines (thorough: anywhere), the others any of 3 '
             'patterns; and a fixed dump of 65536 bytes')
def dumps(sx):
    n = sx.choice('size', sx.p('sizes'))
    pattern = sx.choice('pattern', (b'\0', bytes(range(256)), b'%')) if n < 1000 else bytes(range(256))
    data = list((pattern * (n // len(pattern) + 1))[:n])
    i = 0
    if 0 < n < 60000:
        places = range(n)
        if sx.p('few', True):
            places = [i for i in places if i % 16 in (0, 7, 8, 15) or i == n - 1]
            places = places[:3] + places[-4:] if n < 1000 else (0, n // 2, n - 1)
        i = sx.choice('place', tuple(places))
        data[i] = sx.int('byte', 0, 255)
        if i + 1 < n < 1000:
            data[i + 1] = sx.int('other byte', 0, 255)
    data = bytes(data)
    exc, dump = sx.attempt(utils.hexdump, data)
    sx.check(exc is None, 'fails', repr(exc))
    sx.reach('end')
    if not n:
        sx.check(dump == '', 'nothing is dumped')
        return
    dump = dump.encode()
    at = 0
    width = None
    for start in range(0, n, 16):
        line = data[start:start + 16]
        m = len(line)
        # the offset, in hexadecimal
        if width is None:
            width = next((w for w in range(4, 20) if dump[w] == ord(':')), None)
            sx.check(width is not None, 'the offset of the first line')
        sx.check(dump[at:at + width + 2] == b'%0*x: ' % (width, start), 'the offsets')
        at += width + 2
        # 16 bytes in hexadecimal, in two columns
        if n > 1000 and not (start <= i < start + 16):
            hexa = ' '.join([f'{x:02x}' for x in line])
            sx.check(dump[at:at + 50] == (hexa[:24] + ' ' + hexa[24:]).ljust(50).encode(),
                     'the bytes in hexadecimal')
            at += 50 + m + (m > 8)
            if start + 16 < n:
                sx.check(dump[at] == 10, 'a line ends after 16 bytes')
                at += 1
            continue
        good = []
        for j in range(16):
            c = at + 3 * j + (j >= 8)
            if j < m:
                good.append(digit(sx, line[j] >> 4, dump[c]))
                good.append(digit(sx, line[j] & 15, dump[c + 1]))
            else:
                good.append(dump[c:c + 2] == b'  ')
            good.append(dump[c + 2] == 32)
        sx.check(sx.all(good), 'the bytes in hexadecimal')
        sx.check(dump[at + 24] == 32 and dump[at + 49] == 32, 'the columns')
        at += 50
        # the same bytes as text
        good = []
        for j in range(m):
            good.append(printed(sx, line[j], dump[at + j + (j >= 8)]))
        sx.check(sx.all(good), 'the printable bytes')
        at += m + (m > 8)
        if start + 16 < n:
            sx.check(dump[at] == 10, 'a line ends after 16 bytes')
            at += 1
    sx.check(len(dump) == at, 'the end of the dump')


BODIES = ('', 'plain', 'two\r\n\r\nparts', '{braces} {0} %s %', 'caf\xe9', '\u20ac' * 5, '\U0001f600!',
          '\x00', '\u0301', '\xe9' * 1000)

def message(sx, exc, text, start):
    """(headers, body) of an HTTP message, whose first line starts with `start`"""
    sx.check(exc is None, 'fails', repr(exc))
    raw = text.encode()
    end = next((i for i in range(len(raw) - 3) if sx.is_true(raw[i:i + 4] == b'\r\n\r\n')), None)
    sx.check(end is not None, 'the headers end')
    first, *lines = bytes(raw[:end]).decode().split('\r\n')
    sx.check(first == start, 'the first line', first)
    headers = {}
    for line in lines:
        name, _, value = line.partition(': ')
        sx.check(name.lower() not in headers, 'every header once', name)
        headers[name.lower()] = value
    body = raw[end + 4:]
    sx.check(headers.get('content-length') == str(len(body)), 'the number of bytes of the body',
             f'{headers.get("content-length")} of {len(body)}')
    return headers, body


def some_body(sx):
    body = sx.choice('body', (None, *BODIES))
    if body is None:
        body = sx.text('text', sx.choice('size', (1, 9, 10, 99, 100)))
    return body


@case('A07', params=[{'method': m} for m in ('GET', 'POST')], functions=('siotls.utils:make_http11_request',),
      reach=('end',), bounds='2 methods, 2 hosts and 3 paths; bodies of any 1, 9, 10, 99 or 100 ASCII characters, '
      'and 10 others, of which 6 are not ASCII')
def requests(sx):
    method = sx.p('method')
    host = sx.choice('host', ('server.example', 'localhost:8443'))
    path = sx.choice('path', ('/', '/{a}?b=%20', '*'))
    body = some_body(sx)
    exc, text = sx.attempt(utils.make_http11_request, host, method, path, body)
    headers, got = message(sx, exc, text, f'{method} {path} HTTP/1.1')
    sx.check(headers.get('host') == host, 'the host')
    sx.check(got == body.encode(), 'the body')
    sx.reach('end')


@case('A07', functions=('siotls.utils:make_http11_response',), reach=('end',),
      bounds='4 status codes, 4 dates of 2 time zones; bodies of any 1, 9, 10, 99 or 100 ASCII characters, and '
             '10 others, of which 6 are not ASCII')
def responses(sx):
    status = sx.choice('status', (HTTPStatus.OK, HTTPStatus.NO_CONTENT, HTTPStatus.NOT_FOUND,
                                  HTTPStatus.INTERNAL_SERVER_ERROR))
    now = sx.choice('now', (datetime(2024, 2, 29, 12, 30, 1, tzinfo=UTC),
                            datetime(1999, 12, 31, 23, 59, 59, tzinfo=timezone(timedelta(hours=-7))),
                            datetime(1970, 1, 1, tzinfo=UTC), datetime(2038, 1, 19, 3, 14, 8, tzinfo=UTC)))
    body = some_body(sx)
    exc, text = sx.attempt(utils.make_http11_response, int(status), body, now)
    headers, got = message(sx, exc, text, f'HTTP/1.1 {status.value} {status.phrase}')
    sx.check(email.utils.parsedate_to_datetime(headers.get('date')) == now, 'the date')
    sx.check(got == body.encode(), 'the body')
    sx.reach('end')


WORDS = ('debian', 'fedora', 'suse', 'arch', 'gentoo', 'rhel')

@case('A07', params=[{'like': n} for n in (None, 0, 1, 2, 3)], functions=('siotls.trust_store:get_ca_certificates_path',),
      reach=('end',), bounds='distributions named by any 4..6 characters or one of 6 words, and 0..3 relatives among 6 words or '
      'any word of 6 characters')
def stores(sx):
    paths = dict(trust_store.LINUX_CA_CERTIFICATES_PATHS)
    sx.check({'alpine', 'arch', 'debian', 'fedora', 'suse', 'ubuntu'} <= set(paths), 'the known distributions')
    name = sx.choice('name', (None, *WORDS))
    if name is None:
        name = sx.text('any name', sx.choice('size', (4, 5, 6)))
    release = {'ID': name, 'NAME': 'A name', 'ID_LIKE': None}
    relatives = [sx.choice(f'relative {i}', WORDS) for i in range(sx.p('like') or 0)]
    if sx.p('like') is None:
        del release['ID_LIKE']
    else:
        release['ID_LIKE'] = ' '.join(relatives)
    exc, got = sx.attempt(trust_store.get_ca_certificates_path, release)
    sx.reach('end')
    earlier = []
    for word in (name, *relatives):
        for known, path in paths.items():
            here = sx.all([*[sx.neg(e) for e in earlier], word == known])
            sx.check(sx.implies(here, exc is None and got == path), 'the path of the first known one')
        earlier.append(sx.any([word == k for k in paths]))
    if exc is not None:
        sx.check(isinstance(exc, ValueError), 'no known one is a ValueError', repr(exc))
    else:
        sx.check(sx.any(earlier), 'a path for no known one')


