"""A02: the fetch cache of ocsp_over_http."""
import copy
import urllib.request as _request
from urllib.parse import urlsplit

from siotls import ocsp_over_http as service

from symex.api import case

from harness import clock
from harness.clock import Instant

LIMIT = 20480
FUNCTIONS = tuple(f'siotls.ocsp_over_http:{n}' for n in ('request', 'cache', 'uncache'))
KIND = 'application/ocsp-response'


class Response:
    status = code = 200
    reason = 'OK'

    def __init__(self, body, kind=KIND, length=None):
        self.body = body
        self.all = {}
        if kind is not None:
            self.all['content-type'] = kind
        if length is not None:
            self.all['content-length'] = length
        self.headers = self
        # http.client stops after Content-Length, unless it is not a number of bytes
        if length is not None:
            try:
                length = int(length)
            except ValueError:
                pass
            else:
                if length >= 0:
                    self.body = body[:length]
        self.asked = []

    def getheader(self, name, default=None):
        return self.all.get(name.lower(), default)
    get = getheader

    def info(self):
        return self

    def getcode(self):
        return 200

    def get_content_type(self):
        return self.all.get('content-type', 'text/plain')

    def read(self, n=None):
        self.asked.append(n)
        if n is None or n < 0:
            out, self.body = self.body, b''
        else:
            out, self.body = self.body[:n], self.body[n:]
        return out

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


# what the module remembers, and what of it there is at first
MEMORY = {n: (v, copy.copy(v)) for n, v in vars(service).items()
          if not n.startswith('__') and isinstance(v, (dict, list, set))}

def forget():
    for v, first in MEMORY.values():
        v.clear()
        (v.extend if isinstance(v, list) else v.update)(first)

def held():
    """How many entries the module holds, whatever it holds them in."""
    return max((len(v) - len(first) for v, first in MEMORY.values() if isinstance(v, dict)), default=0)


class World:
    def __init__(self, sx, entries=None):
        self.sx = sx
        self.fetched = []              # (url, body, headers)
        self.answer = None
        forget()
        sx.cleanup(forget)
        sx.patches.everywhere(_request.urlopen, self.urlopen, extra=((_request, 'urlopen'),))
        clock.install(sx, sx.int('time zone', -5, 5))
        if entries is not None and hasattr(service, 'CACHE_ENTRIES'):
            sx.patches._set(service, 'CACHE_ENTRIES', entries)

    def urlopen(self, req, data=None, timeout=None, **kw):
        url = req if isinstance(req, str) else req.full_url
        body = data if isinstance(req, str) else req.data
        self.fetched.append((url, body, {} if isinstance(req, str) else dict(req.header_items())))
        return self.answer

    def request(self, url, req, answer):
        """(error, answer, whether it was fetched)"""
        self.answer = answer
        before = len(self.fetched)
        exc, got = self.sx.attempt(service.request, url, req)
        return exc, got, len(self.fetched) > before


URL = 'http://ocsp.example/'
NAMES = (b'm', b'a', b'z', b'q')


@case('A02', quick=[{'steps': 3}, {'steps': 4, 'first': 'cache'}],
      thorough=[{'steps': 5, 'first': 'cache', 'second': s} for s in ('cache', 'uncache', 'request')],
      functions=FUNCTIONS, reach=('served', 'fetched'),
      bounds='histories of up to 4 operations (thorough: 5) among cache, uncache and request on up to 3 '
             'requests with a cache of 2 entries; any clock reading and any expiry; then every '
             'request once more')
def histories(sx):
    w = World(sx, entries=2)
    entries = service.CACHE_ENTRIES if hasattr(service, 'CACHE_ENTRIES') else 64
    stored = {}                        # request -> [(answer, until)] since it was un-cached
    names = []
    served = 0

    def ask(k, now, tag):
        nonlocal served
        Instant.now_ = now
        fresh = b'fetched ' + tag
        exc, got, fetched = w.request(URL, k, Response(fresh))
        sx.check(exc is None, 'a request fails', repr(exc))
        if fetched:
            sx.check(got == fresh, 'a fetched answer is given back')
            sx.check(w.fetched[-1][:2] == (URL, k), 'what was fetched')
            sx.reach('fetched')
            return False
        sx.check(sx.any([sx.all([got == a, now < until]) for a, until in stored.get(k, ())]),
                 'an answer of the cache is for that request and has not expired')
        sx.reach('served')
        return True

    for i in range(sx.p('steps')):
        op = sx.p('first' if i == 0 else 'second', None) if i < 2 else None
        op = op or sx.choice(f'operation {i}', ('cache', 'uncache', 'request'))
        j = sx.choice(f'key {i}', tuple(range(min(len(names) + 1, 3))))
        if j == len(names):
            names.append(NAMES[j])
        k = names[j]
        if op == 'cache':
            answer = b'answer %d' % i
            until = sx.int(f'until {i}', 0, 10)
            exc, _ = sx.attempt(service.cache, Instant(until, None), k, answer)
            sx.check(exc is None, 'caching fails', repr(exc))
            stored.setdefault(k, []).append((answer, until))
        elif op == 'uncache':
            exc, _ = sx.attempt(service.uncache, k)
            sx.check(exc is None, 'un-caching fails', repr(exc))
            stored.pop(k, None)
        else:
            ask(k, sx.int(f'now {i}', 0, 10), b'%d' % i)
    sx.check(held() <= entries, 'the cache is bounded')
    # every request that is still served at once
    now = sx.int('now', 0, 10)
    n = sum(ask(k, now, b'end') for k in (*names, b'never'))
    sx.check(n <= entries, 'the cache is bounded', n)


@case('A02', params=[{'how': h} for h in ('uncached', 'expired', 'stored', 'mixed')], functions=FUNCTIONS,
      reach=('end',),
      bounds='20 answers that are cached and un-cached, that expire, that are pushed out, or each its own '
             'way (the last 3 of any, with any expiry), in a cache of 2 entries')
def churn(sx):
    """Whatever the history, nothing piles up."""
    w = World(sx, entries=2)
    entries = service.CACHE_ENTRIES if hasattr(service, 'CACHE_ENTRIES') else 64
    rounds = 10 * entries
    for i in range(rounds):
        how = sx.p('how')
        until = 1
        if how == 'mixed':
            how = ('uncached', 'expired', 'stored')[i % 3]
        if i >= rounds - 3 and entries == 2:
            how = sx.choice(f'how {i}', ('uncached', 'expired', 'stored'))
            until = sx.int(f'until {i}', 1, 3)
        Instant.now_ = 0
        req = NAMES[i % 3] if sx.p('how') == 'mixed' else b'%d' % i
        exc, _ = sx.attempt(service.cache, Instant(until, None), req, b'answer')
        sx.check(exc is None, 'caching fails', repr(exc))
        if how == 'uncached':
            exc, _ = sx.attempt(service.uncache, req)
            sx.check(exc is None, 'un-caching fails', repr(exc))
        elif how == 'expired':
            Instant.now_ = 5
            exc, got, fetched = w.request(URL, req, Response(b'fetched'))
            sx.check(exc is None and fetched and got == b'fetched', 'an expired answer', repr(exc))
    sx.check(held() <= entries, 'the cache is bounded')
    sx.check(max([len(v) - len(first) for v, first in MEMORY.values()], default=0) < rounds // 2,
             'something piles up with the operations')
    sx.reach('end')


@case('A02', params=[{'length': n} for n in (4, 24, 90)], functions=FUNCTIONS, reach=('other', 'same'),
      bounds='a request of 4, 24 or 90 bytes that is cached, then another that differs from it by any '
             'mask at any place, by any byte more or less at either end, or that is the same; any clock '
             'reading and any expiry')
def similar(sx):
    """An answer of the cache is for that very request."""
    w = World(sx)
    n = sx.p('length')
    base = bytes(range(1, n + 1))
    how = sx.choice('how', ('same', 'mask', 'longer', 'shorter', 'before', 'after'))
    if how == 'mask':
        at = sx.choice('at', tuple(range(n)))
        mask = sx.choice('mask', (1, 0x20, 0x80, 0xff))
        other = base[:at] + bytes([base[at] ^ mask]) + base[at + 1:]
    elif how in ('before', 'after'):
        extra = bytes([sx.choice('byte', (0, 1, 32, 255))])
        other = extra + base if how == 'before' else base + extra
    else:
        other = {'same': base, 'longer': base + base, 'shorter': base[:-1]}[how]
    until = sx.int('until', 0, 10)
    now = sx.int('now', 0, 10)
    Instant.now_ = 0
    service.cache(Instant(until, None), base, b'first')
    both = sx.bool('both')
    if both:
        exc, _ = sx.attempt(service.cache, Instant(20, None), other, b'second')
        sx.check(exc is None, 'caching fails', repr(exc))
    dropped = sx.choice('dropped', (None, 'base', 'other'))
    if dropped is not None:
        exc, _ = sx.attempt(service.uncache, base if dropped == 'base' else other)
        sx.check(exc is None, 'un-caching fails', repr(exc))
    Instant.now_ = now
    exc, got, fetched = w.request(URL, other, Response(b'fetched'))
    sx.check(exc is None, 'a request fails', repr(exc))
    if how == 'same':
        sx.reach('same')
        if fetched:
            sx.check(dropped is not None or now >= until, 'what was cached is not found')
        else:
            sx.check(dropped is None, 'an un-cached answer is served')
            if not both:
                sx.check(sx.all([got == b'first', now < until]), 'the answer of the cache')
        return
    sx.reach('other')
    if fetched:
        sx.check(got == b'fetched', 'the answer fetched')
        sx.check(not both or dropped == 'other', 'another request was un-cached')
    else:
        sx.check(both and dropped != 'other', 'another answer is served')
        sx.check(got == b'second', 'the answer of another request')
    exc, got, fetched = w.request(URL, base, Response(b'again'))
    sx.check(exc is None, 'a request fails', repr(exc))
    if fetched:
        sx.check(sx.any([dropped == 'base', now >= until]), 'another request was un-cached')
        sx.check(got == b'again', 'the answer fetched')
    else:
        sx.check(sx.all([dropped != 'base', now < until]), 'an un-cached or expired answer is served')
        sx.check(got == b'first', 'the answer of another request')


@case('A02', quick=[{'order': o} for o in ('up', 'down', 'same')],
      thorough=[{'order': o, 'entries': (70, 200)} for o in ('up', 'down', 'same')], functions=FUNCTIONS[1:],
      reach=('full',), bounds='70 entries (thorough: and 200) of increasing, decreasing or equal expiries, the first '
      'of which are any, some of them un-cached in between')
def full(sx):
    w = World(sx)
    order = sx.p('order')
    n = sx.choice('entries', sx.p('entries', (70,)))
    drop = sx.choice('drop', (None, 3, 63, 64, 65))
    anything = sx.int('until', 0, 1000)
    for i in range(n):
        until = {'up': 100 + i, 'down': 600 - i, 'same': 300}[order] if i else anything
        exc, _ = sx.attempt(service.cache, Instant(until, None), b'%d' % i, b'answer %d' % i)
        sx.check(exc is None, 'caching fails', repr(exc))
        if drop is not None and i % drop == 0:
            service.uncache(b'%d' % i)
    Instant.now_ = 0
    hits = 0
    for i in range(n):
        exc, got, fetched = w.request(URL, b'%d' % i, Response(b'fetched'))
        sx.check(exc is None, 'a request fails', repr(exc))
        hits += not fetched
        sx.check(got == (b'fetched' if fetched else b'answer %d' % i), 'the answer')
    sx.check(hits <= 64, 'the cache never holds more than 64 entries', hits)
    sx.check(held() <= 64, 'the cache never holds more than 64 entries')
    sx.reach('full')


URLS = (URL, 'http://ocsp.example:8080/path?x#y', 'HTTP://ocsp.example/', 'http://[2001:db8::1]/',
        'https://ocsp.example/', 'ftp://ocsp.example/', 'file:///etc/hostname', '//ocsp.example/',
        'ocsp.example', '', 'http:///x', 'http:', 'data:,x', 'http+unix://x/', 'ldap://x/',
        ' https://ocsp.example/', 'httpx://x/')


@case('A02', functions=FUNCTIONS[:1], reach=('contacted', 'refused'),
      bounds='17 urls of 9 schemes; any request of 0..3 bytes')
def urls(sx):
    w = World(sx)
    url = sx.choice('url', URLS)
    req = sx.bytes('request', 0, 3)
    exc, got, fetched = w.request(url, req, Response(b'fetched'))
    parts = urlsplit(url)
    good = parts.scheme == 'http' and parts.netloc and len(req)
    if not good:
        sx.check(not fetched, 'contacts another url than a plain http one', url)
        sx.check(exc is not None, 'another url than a plain http one')
        sx.reach('refused')
        return
    sx.check(exc is None and got == b'fetched', 'a plain http url', repr(exc))
    where, body, headers = w.fetched[0]
    headers = {k.lower(): v for k, v in headers.items()}
    sx.check(where.partition('#')[0] == url.partition('#')[0] and body == req, 'what is posted')
    sx.check(headers.get('content-type') == 'application/ocsp-request', 'the type of what is posted')
    sx.reach('contacted')


@case('A02', params=[{'length': x} for x in ('absent', 'number', 'text')], functions=FUNCTIONS[:1],
      reach=('answered', 'refused'),
      bounds='any body of 0..60000 bytes; Content-Length absent, any number from -99999 to 99999 or '
             'any character or one of 6 odd ones; Content-Type absent, right, any '
             'of 1..2 characters or one of 5 others')
def responses(sx):
    w = World(sx)
    body = sx.blob('body', 0, 60000)
    kind = sx.choice('type', (None, KIND, 'short', 'text/html', 'application/ocsp-request', '',
                              'application/ocsp-responses', 'application/json'))
    if kind == 'short':
        kind = sx.text('kind', 1, 2)
    length = None
    if sx.p('length') == 'number':
        digits = sx.choice('digits', (1, 2, 4, 5))
        length = sx.text('digits', digits)
        sx.assume(sx.all([sx.all([c >= 48, c <= 57]) for c in length.encode()]))
        if sx.bool('negative'):
            length = '-' + length
    if sx.p('length') == 'text':
        length = sx.choice('odd', (None, '20481 ', '1_0', '+20481', '1e3', '', '5, 5'))
        if length is None:
            length = sx.text('text', 1)
    whole = len(body) if not sx.symbolic else body.length()
    exc, got, fetched = w.request(URL, b'request', Response(body, kind, length))
    sx.check(fetched, 'nothing is fetched')
    if exc is not None:
        sx.reach('refused')
        if length is None or sx.p('length') == 'number':
            announced = None if length is None else int(length)
            wrong = kind is not None and sx.is_true(sx.neg(kind == KIND))
            bad = announced is not None and sx.is_true(sx.any([announced > LIMIT, announced < 0]))
            sx.check(wrong or bad or sx.is_true(whole > LIMIT), 'a good response is refused', repr(exc))
        return
    sx.check(sx.any([kind is None, kind == KIND]), 'a wrongly typed response is accepted')
    size = len(got) if not sx.symbolic else (got.length() if sx.is_symbolic(got) else len(got))
    sx.check(size <= LIMIT, 'an answer longer than the maximum')
    sx.check(size <= whole, 'the answer')
    sx.check(got == body[:size], 'the answer is the body')
    if length is None:
        sx.check(size == whole, 'an over-long response is cut and not refused')
    if sx.p('length') == 'number':
        announced = int(length)
        sx.check(announced <= LIMIT, 'a response announced as over-long is accepted')
        sx.check(sx.any([size == announced, size == whole]), 'the whole answer')
    sx.reach('answered')
