"""R01-R06: the record layer."""
from siotls import TLSError
from siotls.contents import ApplicationData, Content, Heartbeat, alerts
from siotls.iana import CipherSuites, ContentType, HandshakeType, HeartbeatMessageType

from symex.api import case

from harness import oracle
from harness.puppet import (
    CH, CT, CV, EE, FIN, SH, certificate_entry, certificate_message, ext, reach, reach_client,
    reach_server,
)
from harness.world import (
    CERT,
    der,
    client_config,
    check_alert,
    connected,
    deliver,
    handshake,
    pair,
    pump,
    record,
    seal,
    server_config,
    small,
    split_records,
    state,
    u16,
    u8,
    unseal,
)

SEND = ('siotls.connection:TLSConnection._send_content', 'siotls.connection:TLSConnection._encrypt',
        'siotls.connection:TLSConnection.send_data',
        'siotls.crypto.ciphers:TLSCipherSuite.encrypt')
READ = ('siotls.connection:TLSConnection.receive_data',
        'siotls.connection:TLSConnection._read_next_record',
        'siotls.connection:TLSConnection._read_next_content',
        'siotls.connection:TLSConnection._decrypt',
        'siotls.crypto.ciphers:TLSCipherSuite.decrypt')
LIMITS = (512, 1024, 2048, 4096, 16384)


# ------------------------------------------------------------------------------------------- R01

class Plain:
    """Some content of the given type."""
    msg_type = HandshakeType.CLIENT_HELLO

    def __init__(self, content_type, data, can_fragment):
        self.content_type = content_type
        self.data = data
        self.can_fragment = can_fragment

    def serialize(self):
        return self.data

    def __repr__(self):
        return 'Plain'


@case('R01', params=[{'ctype': 22, 'frag': True}, {'ctype': 21, 'frag': False}],
      thorough=[{'ctype': c, 'frag': f, 'limit': m} for c, f in ((22, True), (21, False))
                for m in LIMITS],
      reach=('one record', 'several records', 'refused'), functions=SEND,
      bounds='plaintext contents of every length 0..3*limit+5, any bytes, limit 512 (each legal '
             'limit in the thorough tier)')
def plain_records(sx):
    limit = sx.p('limit', 512)
    conn, _ = pair(client_config(max_fragment_length=limit))
    data = sx.blob('data', 0, 3 * limit + 5)
    content = Plain(ContentType(sx.p('ctype')), data, sx.p('frag'))
    exc, _ = sx.attempt(conn._send_content, content)
    out = conn.data_to_send()
    if not sx.p('frag') and len(data) > limit:
        sx.check(isinstance(exc, ValueError | TLSError), 'content that may not be split is refused',
                 exc)
        sx.check(len(out) == 0, 'nothing of a refused content is queued')
        sx.reach('refused')
        return
    sx.check(exc is None, 'content refused', exc)
    pos = 0
    n = 0
    while len(out) > 0:
        sx.check(len(out) >= 5, 'torn record header')
        sx.check(out[0] == sx.p('ctype'), 'record type')
        sx.check(out[1] == 3 and out[2] == 3, 'record version')
        size = out[3] * 256 + out[4]
        sx.check(size <= limit, 'record over the limit')
        sx.check(len(out) >= 5 + size, 'header length beyond the record')
        sx.check(out[5:5 + size] == data[pos:pos + size], 'record content')
        sx.check(size > 0 or len(data) == 0, 'needless empty record')
        out = out[5 + size:]
        pos = pos + size
        n += 1
        sx.check(n < 20, 'far more records than needed')
    sx.check(pos == len(data), 'content is complete')
    sx.check(n > 0, 'a record even for an empty content')
    sx.reach('one record' if n == 1 else 'several records')


@case('R01', params=[{'limit': m} for m in LIMITS],
      reach=('one record', 'several records'), functions=SEND,
      bounds='application data of every length 0..2*limit+5, any bytes: sizes of the records')
def sealed_sizes(sx):
    limit = sx.p('limit')
    conn, _ = small(limit) if limit != 16384 else connected()
    data = sx.blob('data', 0, 2 * limit + 5)
    exc, _ = sx.attempt(conn.send_data, data)
    sx.check(exc is None, 'application data refused', exc)
    out = conn.data_to_send()
    n = 0
    total = 0
    while len(out) > 0:
        sx.check(len(out) >= 5, 'torn record header')
        sx.check(out[0] == 23, 'encrypted records look like application data')
        sx.check(out[1] == 3 and out[2] == 3, 'record version')
        size = out[3] * 256 + out[4]
        sx.check(size <= limit + 256, 'encrypted record over the limit')
        # content, type and padding
        sx.check(size - conn._cipher.tag_length <= limit + 1, 'inner plaintext over the limit')
        sx.check(size - conn._cipher.tag_length >= 1, 'no room for the content type')
        sx.check(len(out) >= 5 + size, 'header length beyond the record')
        out = out[5 + size:]
        total = total + size - conn._cipher.tag_length - 1
        n += 1
        sx.check(n < 20, 'far more records than needed')
    sx.check(total >= len(data), 'content is complete')
    sx.check(n > 0, 'a record even for empty data')
    sx.reach('one record' if n == 1 else 'several records')


def around(limit):
    out = set()
    for k in (limit - 18, limit - 17, limit - 16, limit, limit + 1, 2 * limit - 34, 2 * limit):
        out |= {k - 1, k, k + 1}
    return sorted({0, 1, 2, *out})


@case('R01', params=[{'limit': m} for m in LIMITS],
      reach=('one record', 'several records'), functions=SEND,
      bounds='application data of the lengths around each change of the number of records, any '
             'bytes: decrypted content of the records')
def sealed_content(sx):
    limit = sx.p('limit')
    conn, peer = small(limit) if limit != 16384 else connected()
    data = sx.blob('data', sx.choice('length', around(limit)))
    conn.send_data(data)
    got = b''
    n = 0
    for ctype, version, body in split_records(conn.data_to_send()):
        sx.check(ctype is not None, 'torn record')
        header = u8(ctype) + u16(version) + u16(len(body))
        sx.check(len(body) <= limit + 256, 'encrypted record over the limit')
        inner = peer._cipher.decrypt(body, header)
        sx.check(len(inner) <= limit + 1, 'inner plaintext over the limit')
        i = len(inner) - 1
        while i >= 0 and not inner[i]:
            i -= 1
        sx.check(i >= 0, 'no content type')
        sx.check(inner[i] == 23, 'inner content type')
        sx.check(i <= limit, 'content over the limit')
        got = got + inner[:i]
        n += 1
    sx.check(got == data, 'content is complete and unmodified')
    sx.reach('one record' if n == 1 else 'several records')


@case('R01', reach=('sent', 'refused'), functions=SEND,
      bounds='encrypted unfragmentable content (an alert-like content) of every length 0..600 '
             'under a limit of 512')
def sealed_whole(sx):
    conn, peer = small()
    data = sx.blob('data', 0, 600)
    exc, _ = sx.attempt(conn._send_content, Plain(ContentType.ALERT, data, False))
    out = conn.data_to_send()
    if exc is not None:
        sx.check(isinstance(exc, ValueError | TLSError), 'refused with an error', exc)
        sx.check(len(data) > 512 - 17, 'content that fits is refused')
        sx.check(len(out) == 0, 'nothing of a refused content is queued')
        sx.reach('refused')
        return
    sx.check(len(data) <= 512, 'content that does not fit is sent')
    size = out[3] * 256 + out[4]
    sx.check(len(out) == 5 + size, 'exactly one record')
    sx.check(size - 16 <= 513, 'inner plaintext over the limit')
    sx.reach('sent')


# ------------------------------------------------------------------------------------------- R02

SIZES = (0, 1, 3, 494, 495, 496, 700)

def shards(n, sizes):
    return [{'n': n, 'sizes': sizes, 'who': w, 'size': z} for w in 'cs' for z in sizes]


@case('R02', quick=shards(2, (1, 495, 496, 700)) + shards(3, (0, 3)),
      thorough=shards(2, SIZES) + shards(3, (0, 1, 495, 496)) + shards(4, (0, 3)),
      reach=('read',), functions=SEND + READ,
      bounds='up to 4 sends in any directions, sizes around the record limit, any bytes, delivery '
             'and reading after any of them')
def sends(sx):
    c, s = small()
    ends = {'c': (c, s), 's': (s, c)}
    want = {'c': b'', 's': b''}
    got = {'c': b'', 's': b''}
    handed = [(v, b'') for e in (c, s) for v in (e.data_to_read(), e.data_to_send())]
    for i in range(sx.p('n')):
        who = sx.choice(f'who{i}', ['c', 's']) if i else sx.p('who')
        data = sx.blob(f'data{i}', sx.choice(f'size{i}', sx.p('sizes')) if i else sx.p('size'))
        a, b = ends[who]
        a.send_data(data)
        want[who] = want[who] + data
        if sx.choice(f'deliver{i}', [True, False]):
            out = a.data_to_send()
            handed.append((out, bytes(out)))
            sx.check(deliver(b, out) is None, 'delivery')
            sx.check(len(a.data_to_send()) == 0, 'queued bytes are handed out once')
            read = b.data_to_read()
            handed.append((read, bytes(read)))
            got[who] = got[who] + read
            sx.check(got[who] == want[who], 'what was delivered is readable at once')
            sx.check(len(b.data_to_read()) == 0, 'bytes are read once')
    for who, (a, b) in ends.items():
        out = a.data_to_send()
        if out:
            sx.check(deliver(b, out) is None, 'delivery')
        got[who] = got[who] + b.data_to_read()
        sx.check(got[who] == want[who], 'data arrives complete and in order')
        sx.check(len(b.data_to_read()) == 0, 'bytes are read once')
    for v, then in handed:
        sx.check(len(v) == len(then) and v == then, 'what was handed out does not change later')
    sx.check(c.is_connected() and s.is_connected(), 'still connected')
    sx.reach('read')


@case('R02', quick=[{'already': n, 'sizes': z} for n, z in ((0, (0, 1, 40000)), (65530, (1, 16367, 30000)),
                                                           (1 << 20, (1,)))],
      thorough=[{'already': n, 'sizes': (0, 1, 5, 6, 16367, 16368, 40000, 70000)} for n in (0, 1, 16384, 65530, 131065)]
      + [{'already': n << 20, 'sizes': (1, 17000)} for n in (1, 4)],
      reach=('read',), functions=SEND + READ,
      bounds='up to 1 MiB (thorough: 4) waiting to be read, then two sends of 3 (thorough: 8) sizes up to 40000 '
             '(70000) bytes, any bytes; read at once or after each delivery')
def backlog(sx):
    c, s = connected()
    want = sx.blob('already', sx.p('already')) if sx.p('already') else b''
    got = b''
    if want:
        c.send_data(want)
        sx.check(deliver(s, c.data_to_send()) is None, 'delivery')
    reading = sx.bool('read after each')
    for i in range(2):
        data = sx.blob(f'data{i}', sx.choice(f'size{i}', sx.p('sizes')))
        c.send_data(data)
        want = want + data
        sx.check(deliver(s, c.data_to_send()) is None, 'delivery')
        if reading:
            got = got + s.data_to_read()
            sx.check(got == want, 'what was delivered is readable at once')
    got = got + s.data_to_read()
    sx.check(got == want, 'everything delivered is read at once')
    sx.check(len(s.data_to_read()) == 0, 'bytes are read once')
    sx.reach('read')


@case('R02', quick=[{'pads': (0, 1, 5, 300)}], thorough=[{'pads': (0, 1, 2, 15, 16, 300, 480)}],
      reach=('read',), functions=READ,
      bounds='records of 0..8 application bytes (any values, zeros included) with any of the '
             'listed amounts of padding')
def padding(sx):
    c, s = small()
    first = sx.bytes('first', 0, 8)
    second = sx.bytes('second', 0, 2)
    pad = sx.choice('pad', sx.p('pads'))
    sx.check(deliver(s, seal(c, 23, first, pad)) is None, 'padded record accepted')
    sx.check(deliver(s, seal(c, 23, second, 0)) is None, 'next record accepted')
    sx.check(s.data_to_read() == first + second, 'content without the padding')
    sx.reach('read')


# ---------------------------------------------------------------------------------------- R02, R03

def pieces(data, cuts):
    out, at = [], 0
    for c in cuts:
        out.append(data[at:c])
        at = c
    out.append(data[at:])
    return [p for p in out if p]


@case(['R02', 'R03'],
      quick=[{'lo': i, 'hi': i + 8} for i in (1, 12, 510, 1025)]
            + [{'lo': i, 'hi': i + 64, 'only': 'one'} for i in (256, 640)],
      thorough=[{'lo': i, 'hi': i + 65, 'only': 'one'} for i in range(1, 1086, 65)]
               + [{'lo': i, 'hi': i + 16} for i in (1, 504, 509, 1020)],
      reach=('read',), functions=READ,
      bounds='two records and a third of a third, cut at one or two places within the windows')
def cuts(sx):
    c, s = small()
    data = [sx.blob('d0', 700), sx.blob('d1', 5)]
    c.send_data(data[0])
    c.send_data(data[1])
    out = c.data_to_send()
    first = sx.int('cut0', sx.p('lo'), sx.p('hi'))
    if sx.p('only') != 'one':
        second = sx.int('cut1', sx.p('lo'), sx.p('hi') + 6)
        sx.assume(second > first)
        at = [sx.concrete(first), sx.concrete(second)]
    else:
        at = [sx.concrete(first)]
    got = b''
    fed = 0
    want = data[0] + data[1]
    full = [(517, 495), (1034, 700), (1551, 705)]     # (stream position, readable bytes)
    for p in pieces(out, at):
        sx.check(deliver(s, p) is None, 'delivery')
        got = got + s.data_to_read()
        fed += len(p)
        if len(out) == 1551:        # the record sizes this implementation chose
            ready = max([0] + [r for pos, r in full if pos <= fed])
            sx.check(got == want[:ready], 'a complete record is processed as soon as it is there')
    sx.check(got == want, 'data arrives complete, in order and unmodified')
    sx.check(state(s) == 'Connected', 'still connected')
    sx.reach('read')


def outcome(sx, conn, data, cut):
    """What receiving `data` in the given pieces does."""
    exc = None
    for p in pieces(data, cut):
        e = deliver(conn, p)
        if exc is None:
            exc = e
    return exc


@case('R03', quick=[{'side': 'server', 'n': 9}, {'side': 'client', 'n': 9}],
      thorough=[{'side': s, 'n': n} for s in ('server', 'client') for n in (7, 9, 11, 12)],
      reach=('failed', 'waiting'), functions=READ,
      bounds='any n first bytes on a fresh connection, in one piece and cut anywhere')
def hostile_cuts(sx):
    data = sx.bytes('data', sx.p('n'))
    results = []
    cut = sx.choice('cut', range(1, sx.p('n')))
    for at in ([], [cut]):
        c, s = pair()
        conn = c if sx.p('side') == 'client' else s
        conn.initiate_connection()
        conn.data_to_send()
        exc = outcome(sx, conn, data, at)
        results.append((type(exc).__name__, state(conn), bytes(conn.data_to_send())))
    sx.check(results[0][0] == results[1][0], 'same error however cut', results)
    sx.check(results[0][1] == results[1][1], 'same state however cut', results)
    sx.check(results[0][2] == results[1][2], 'same reply however cut')
    sx.reach('failed' if results[0][1] == 'Failed' else 'waiting')


@case('R03', quick=[{'lo': a, 'hi': a + 9} for a in (1, 120, 128, 512, 1030)]
      + [{'lo': -9, 'hi': -1}],
      thorough=[{'lo': a, 'hi': a + 90} for a in range(1, 2700, 90)],
      reach=('connected',), functions=READ,
      bounds="the server's whole flight cut at one place within the windows (all places in the "
             'thorough tier)')
def flight_cuts(sx):
    c, s = pair(client_config(max_fragment_length=512))
    c.initiate_connection()
    s.initiate_connection()
    sx.check(deliver(s, c.data_to_send()) is None, 'client hello')
    flight = s.data_to_send()
    lo, hi = sx.p('lo'), sx.p('hi')
    if lo < 0:
        lo, hi = len(flight) + lo, len(flight) + hi
    if lo >= len(flight):
        sx.reach('connected')
        return
    k = sx.concrete(sx.int('cut', lo, min(hi, len(flight) - 1)))
    sx.check(deliver(c, flight[:k]) is None, 'first piece')
    sx.check(not c.is_connected(), 'connected before the flight is complete')
    sx.check(deliver(c, flight[k:]) is None, 'second piece')
    sx.check(c.is_connected(), 'the client connects')
    reply = c.data_to_send()
    j = sx.choice('cut2', [1, 5, 6, 7, 11, 12, len(reply) - 1])
    sx.check(deliver(s, reply[:j]) is None, 'first piece of the reply')
    sx.check(not s.is_connected(), 'server connected before the reply is complete')
    sx.check(deliver(s, reply[j:]) is None, 'second piece of the reply')
    sx.check(s.is_connected(), 'the server connects')
    sx.reach('connected')


# ------------------------------------------------------------------------------------------- R04

@case('R04', quick=[{'where': w} for w in ('server', 'client', 'handshake', 'connected', 'small')],
      reach=('refused', 'waiting'), functions=READ,
      bounds='any five header bytes, in each of the stages')
def headers(sx):
    where = sx.p('where')
    peer = None
    if where in ('connected', 'small'):
        peer, conn = connected() if where == 'connected' else small()
        limit = (16384 if where == 'connected' else 512) + 256
    else:
        c, s = pair()
        c.initiate_connection()
        s.initiate_connection()
        conn = s if where == 'server' else c
        limit = 16384
        if where == 'handshake':
            # encrypted handshake: after ServerHello
            deliver(s, c.data_to_send())
            hello = split_records(s.data_to_send())[0]
            sx.check(deliver(c, record(hello[0], hello[2])) is None, 'server hello')
            limit += 256
    conn.data_to_send()
    ctype = sx.int('type', 0, 255)
    version = sx.int('version', 0, 65535)
    length = sx.int('length', 0, 65535)
    before = state(conn)
    exc = deliver(conn, ctype.to_bytes(1, 'big') + version.to_bytes(2, 'big')
                  + length.to_bytes(2, 'big'))
    if length > limit:
        check_alert(sx, exc, 'RecordOverflow', 'a long record is refused with record_overflow')
        sx.check(state(conn) == 'Failed', 'the connection failed')
        sx.reach('refused')
    elif length > 0:
        sx.check(exc is None, 'a header within the limits is accepted', exc)
        sx.check(state(conn) == before, 'and has no effect yet')
        sx.check(len(conn.data_to_send()) == 0, 'nothing is sent')
        sx.reach('waiting')


@case('R04', params=[{'limit': m} for m in LIMITS],
      reach=('refused', 'accepted'), functions=READ,
      bounds='decrypted records of the sizes around the limit, content and padding in any of the '
             'listed proportions, any content bytes')
def inner(sx):
    limit = sx.p('limit')
    c, s = small(limit) if limit != 16384 else connected()
    content = sx.choice('content', [0, 1, limit - 1, limit, limit + 1, limit + 2, limit + 239])
    total = sx.choice('total', [1, limit, limit + 1, limit + 2, limit + 240])
    sx.assume(total > content)
    data = sx.blob('data', content)
    exc = deliver(s, seal(c, 23, data, total - content - 1))
    if total > limit + 1:
        check_alert(sx, exc, 'RecordOverflow', 'a long plaintext is refused with record_overflow')
        sx.check(len(s.data_to_read()) == 0, 'and not delivered')
        sx.reach('refused')
    else:
        sx.check(exc is None, 'a plaintext within the limit is accepted', exc)
        sx.check(s.data_to_read() == data, 'and delivered')
        sx.reach('accepted')


@case('R04', params=[{'limit': 16384}], reach=('refused', 'accepted'), functions=READ,
      bounds='plaintext records of the sizes around the limit')
def plain_limit(sx):
    limit = sx.p('limit')
    _, s = pair()
    s.initiate_connection()
    size = sx.choice('size', [1, limit - 1, limit, limit + 1, limit + 256, limit + 257, 65535])
    # a first fragment of a longer handshake message
    body = (handshake(1, b'\0' * 70000)[:4] + b'\0' * size)[:size]
    exc = deliver(s, record(22, body))
    if size > limit:
        check_alert(sx, exc, 'RecordOverflow', 'a long record is refused with record_overflow')
        sx.reach('refused')
    else:
        sx.check(exc is None, 'a record within the limit is accepted', exc)
        sx.reach('accepted')


# ------------------------------------------------------------------------------------------- R05

def hello(c):
    """The client hello of `c`, as a handshake message."""
    c.initiate_connection()
    recs = split_records(c.data_to_send())
    out = b''
    for ctype, _, body in recs:
        if ctype == 22:
            out = out + body
    return bytes(out)


@case('R05', quick=[{'lo': 1, 'hi': 12, 'two': True}, {'lo': 13, 'hi': 80}, {'lo': 81, 'hi': 400}],
      reach=('hello',), functions=READ,
      bounds='a client hello in two (anywhere) or three (first 14 bytes) records')
def fragments(sx):
    c, s = pair()
    s.initiate_connection()
    msg = hello(c)
    lo, hi = sx.p('lo'), min(sx.p('hi'), len(msg) - 1)
    a = sx.concrete(sx.int('a', lo, hi))
    cut = [a]
    if sx.p('two'):
        cut.append(sx.concrete(sx.int('b', a + 1, hi + 2)))
    parts = pieces(msg, cut)
    together = sx.choice('together', [True, False])
    if together:
        exc = deliver(s, b''.join([record(22, p) for p in parts]))
    else:
        for p in parts[:-1]:
            sx.check(deliver(s, record(22, p)) is None, 'fragment accepted')
            sx.check(state(s) == 'ServerWaitClientHello', 'no effect before it is complete')
            sx.check(len(s.data_to_send()) == 0, 'no reply before it is complete')
        exc = deliver(s, record(22, parts[-1]))
    sx.check(exc is None, 'the message is accepted', exc)
    sx.check(state(s) == 'ServerWaitFinished', 'the message is processed')
    sx.check(deliver(c, s.data_to_send()) is None, 'the reply suits the client')
    sx.check(c.is_connected(), 'the client connects')
    sx.check(deliver(s, c.data_to_send()) is None, 'the client reply suits the server')
    sx.check(s.is_connected(), 'the server connects')
    sx.reach('hello')


@case('R05', quick=[{'cut': 1}, {'cut': 3}, {'cut': 4}, {'cut': 60}, {'cut': -1}],
      thorough=[{'cut': k} for k in (1, 2, 3, 4, 5, 6, 37, 38, 39, 60, 100, -3, -2, -1)],
      reach=('refused',), functions=READ,
      bounds='any record of 1..3 bytes of any other type between two fragments, in clear')
def interleaved(sx):
    c, s = pair()
    s.initiate_connection()
    msg = hello(c)
    sx.check(deliver(s, record(22, msg[:sx.p('cut')])) is None, 'first fragment')
    ctype = sx.int('type', 0, 255)
    body = sx.bytes('body', 1, 3)
    sx.assume(ctype != 22)
    # the compatibility change-cipher-spec record is no content
    sx.assume(sx.neg(sx.all([ctype == 20, body == b'\x01'])))
    exc = deliver(s, ctype.to_bytes(1, 'big') + b'\x03\x03' + u16(len(body)) + body)
    check_alert(sx, exc, 'UnexpectedMessage', 'other content inside a message is refused')
    sx.check(state(s) == 'Failed', 'the connection failed')
    sx.reach('refused')


@case('R05', params=[{'at': a} for a in ('server', 'client', 'connected')], reach=('waiting',),
      functions=READ, bounds='the first record of a message of any length above 8 bytes, up to 2^24-1')
def announced(sx):
    """A message of any length is waited for."""
    where = sx.p('at')
    if where == 'server':
        p = reach_server(sx, 'wait hello')
    elif where == 'client':
        p = reach_client(sx, 'wait certificate')
    else:
        p = reach_client(sx, 'connected')
    before = state(p.conn)
    p.pull()
    kind = CH if where == 'server' else CT
    length = sx.int('length', 9, (1 << 24) - 1)
    start = kind.to_bytes(1, 'big') + length.to_bytes(3, 'big')
    for part in (start + sx.bytes('start', 4), sx.bytes('more', 4)):
        exc = p.push(22, part)
        sx.check(exc is None, 'part of a message is accepted', exc)
        sx.check(state(p.conn) == before, 'no effect before it is complete')
        sx.check(len(p.conn.data_to_send()) == 0, 'no reply before it is complete')
    sx.reach('waiting')


@case('R05', params=[{'at': a} for a in ('server', 'client', 'finished', 'connected')],
      reach=('refused',), functions=READ,
      bounds='a message of any type with an empty body, in one record or cut anywhere')
def empty_body(sx):
    """A message is complete with its announced bytes, be there none."""
    where = sx.p('at')
    p = {'server': lambda: reach_server(sx, 'wait hello'),
         'client': lambda: reach_client(sx, 'wait extensions'),
         'finished': lambda: reach_server(sx, 'wait finished'),
         'connected': lambda: reach_client(sx, 'connected')}[where]()
    p.pull()
    kind = sx.int('kind', 0, 255)
    data = kind.to_bytes(1, 'big') + b'\0\0\0'
    cut = sx.choice('cut', [0, 1, 3])
    if cut:
        sx.check(p.push(22, data[:cut]) is None, 'part of a message is refused')
    exc = p.push(22, data[cut:])
    sx.check(exc is not None, 'a complete message without a body is left waiting')
    sx.check(isinstance(exc, alerts.TLSFatalAlert), 'an alert', repr(exc))
    sx.check(state(p.conn) == 'Failed', 'the connection failed')
    sx.reach('refused')


@case('R05', quick=[{'entries': 60}], thorough=[{'entries': n} for n in (30, 60, 400)],
      reach=('connected',), functions=READ,
      bounds='a certificate message of more than 2^16 bytes whose last 2 bytes are any, in full records')
def long_message(sx):
    p = reach_client(sx, 'wait certificate')
    # an extension that is of no interest to the client
    filler = b'x' * 1198 + sx.bytes('last', 2)
    entries = [certificate_entry(der(CERT['ed']), ext(65000, filler)) for _ in range(sx.p('entries'))]
    data = p.message(CT, certificate_message(*entries))
    for i in range(0, len(data), 16000):
        exc = p.push(22, data[i:i + 16000])
        sx.check(exc is None, 'a part of a long message is refused', exc)
    p.must(p.say(CV, p.certificate_verify('ed')), 'the proof')
    p.must(p.say(FIN, p.finished_value()), 'the Finished')
    sx.check(p.conn.is_connected(), 'the client connects')
    sx.reach('connected')


def server_flight(p):
    """The encrypted handshake messages of the server `p`, for a client that got its ServerHello."""
    messages = p.message(EE, p.encrypted_extensions())
    messages = messages + p.message(CT, p.certificate('ed'))
    messages = messages + p.message(CV, p.certificate_verify('ed'))
    return messages + p.message(FIN, p.finished_value())


def messages_of(data):
    out = []
    while data:
        n = int.from_bytes(data[1:4], 'big')
        out.append(data[:4 + n])
        data = data[4 + n:]
    return out


@case('R05', quick=[{'win': 12}, {'win': 40, 'two': False}], thorough=[{'win': 30}, {'win': 900, 'two': False}],
      reach=('connected',), functions=READ,
      bounds='the encrypted messages of the server as one byte string, cut into records at one '
             'place or two, around every message boundary')
def regrouped(sx):
    """Several messages in one record, one message in several, any grouping."""
    peer = reach_client(sx, 'wait extensions')
    c = peer.conn
    data = server_flight(peer)
    msgs = messages_of(bytes(data))
    ends = []
    at = 0
    for m in msgs:
        at += len(m)
        ends.append(at)
    w = sx.p('win')
    near = sorted({p for e in [0, *ends] for p in range(e - w // 4, e + w // 4 + 1)
                   if 0 < p < len(data)})
    cut = [sx.choice('a', near)]
    if sx.p('two', True):
        cut.append(sx.choice('b', sorted({p for e in ends for p in (e - 1, e, e + 1, e + 4)
                                          if 0 < p < len(data)})))
        sx.assume(cut[1] > cut[0])
    parts = pieces(data, cut)
    for p in parts:
        exc = peer.push(22, p)
        sx.check(exc is None, 'regrouped messages are accepted', exc)
    sx.check(c.is_connected(), 'the client connects')
    sx.reach('connected')


@case('R05', reach=('refused',), functions=READ,
      bounds='1..4 arbitrary bytes after the last message before a key change, in its record')
def key_change(sx):
    """A message may not begin under one key and end under another."""
    where = sx.choice('where', ['server hello', 'server finished', 'client finished'])
    junk = sx.bytes('junk', 1, 4)
    if where == 'server hello':
        p = reach_client(sx, 'wait hello')
        exc = p.push(22, p.message(SH, p.server_hello()) + junk)
    elif where == 'server finished':
        p = reach_client(sx, 'wait extensions')
        exc = p.push(22, server_flight(p) + junk)
    else:
        p = reach_server(sx, 'wait finished')
        exc = p.push(22, p.message(FIN, p.finished_value()) + junk)
    conn = p.conn
    sx.check(exc is not None, 'bytes behind the last message before a key change are refused')
    check_alert(sx, exc, 'UnexpectedMessage', 'bytes behind the last message before a key change')
    sx.check(state(conn) == 'Failed', 'the connection failed')
    sx.reach('refused')


# ------------------------------------------------------------------------------------------- R06

def xor(data, delta):
    return bytes([a ^ b for a, b in zip(data, delta)])


@case('R06', quick=[{'to': 'server', 'nth': 0}, {'to': 'client', 'nth': 1}],
      thorough=[{'to': t, 'nth': n} for t in ('server', 'client') for n in (0, 1, 2)],
      reach=('refused',), functions=READ,
      bounds='every change of any of the bytes of a record body (all masks at all positions)')
def tampered(sx):
    c, s = small()
    a, b = (c, s) if sx.p('to') == 'server' else (s, c)
    for i in range(sx.p('nth')):
        a.send_data(b'first')
        sx.check(deliver(b, a.data_to_send()) is None, 'genuine record')
    b.data_to_read()
    a.send_data(sx.bytes('data', 3))
    out = a.data_to_send()
    delta = sx.bytes('delta', len(out) - 5)
    sx.assume(delta != b'\0' * (len(out) - 5))
    exc = deliver(b, bytes(out[:5]) + xor(out[5:], delta))
    check_alert(sx, exc, 'BadRecordMac', 'a modified record is refused with bad_record_mac')
    sx.check(len(b.data_to_read()) == 0, 'nothing of it is delivered')
    sx.check(state(b) == 'Failed', 'the connection failed')
    # and what follows is not delivered either
    a.send_data(b'later')
    deliver(b, a.data_to_send())
    sx.check(len(b.data_to_read()) == 0, 'nothing after it is delivered')
    sx.reach('refused')


@case('R06', params=[{'part': i} for i in range(6)], reach=('refused', 'waiting'), functions=READ,
      bounds='every change of the five header bytes of a record')
def tampered_header(sx):
    c, s = small()
    c.send_data(b'data')
    out = c.data_to_send()
    delta = sx.bytes('delta', 5)
    sx.assume(delta != b'\0' * 5)
    head = xor(out[:5], delta)
    sx.assume(head[4] % 6 == sx.p('part'))
    # not the compatibility change-cipher-spec, which is no protected record
    sx.assume(sx.neg(sx.all([head[0] == 20, head[3] == 0, head[4] == 1])))
    exc = deliver(s, head + bytes(out[5:]))
    sx.check(len(s.data_to_read()) == 0, 'nothing of it is delivered')
    length = head[3] * 256 + head[4]
    if length > len(out) - 5:
        if length > 512 + 256:
            check_alert(sx, exc, 'RecordOverflow', 'refused')
        else:
            sx.check(exc is None, 'more bytes are awaited', exc)
        sx.reach('waiting')
        return
    check_alert(sx, exc, 'BadRecordMac', 'a modified header is refused with bad_record_mac')
    sx.check(state(s) == 'Failed', 'the connection failed')
    sx.reach('refused')


@case('R06', quick=[{'n': 16}, {'n': 40}], thorough=[{'n': n} for n in (16, 17, 18, 40, 200, 496)],
      reach=('refused',), functions=READ, bounds='any record of n bytes, with any outer type')
def forged(sx):
    """Any bytes at all in place of the next record."""
    c, s = small()
    ctype = sx.int('type', 0, 255)
    body = sx.bytes('body', sx.p('n'))
    exc = deliver(s, ctype.to_bytes(1, 'big') + b'\x03\x03' + u16(sx.p('n')) + body)
    sx.check(exc is not None, 'a forged record is refused')
    check_alert(sx, exc, 'BadRecordMac', 'a forged record is refused with bad_record_mac')
    sx.check(len(s.data_to_read()) == 0, 'nothing of it is delivered')
    sx.reach('refused')


@case('R06', quick=[{'n': 3, 'k': 3}], thorough=[{'n': 3, 'k': 4}, {'n': 4, 'k': 3}],
      reach=('in order', 'refused'), functions=READ,
      bounds='n records delivered in any sequence of k (dropped, repeated, reordered), records of '
             'the other direction, of the handshake and of another connection included')
def sequence(sx):
    c, s = small()
    c2, s2 = small()
    n = sx.p('n')
    data = [u8(65 + i) * (i + 1) for i in range(n)]
    pool = []
    for d in data:
        c.send_data(d)
        pool.append(bytes(c.data_to_send()))
    s.send_data(b'reflected')
    pool.append(bytes(s.data_to_send()))
    c2.send_data(b'foreign')
    pool.append(bytes(c2.data_to_send()))
    expect = 0
    want = b''
    for j in range(sx.p('k')):
        i = sx.choice(f'pick{j}', range(len(pool)))
        exc = deliver(s, pool[i])
        if i == expect and i < n:
            sx.check(exc is None, 'the next record is accepted', exc)
            want = want + data[i]
            expect += 1
        else:
            check_alert(sx, exc, 'BadRecordMac', 'any other record is refused with bad_record_mac')
            sx.check(s.data_to_read() == want, 'only the records in order are delivered')
            sx.check(state(s) == 'Failed', 'the connection failed')
            sx.reach('refused')
            return
    sx.check(s.data_to_read() == want, 'the records in order are delivered')
    sx.reach('in order')


@case('R06', reach=('refused',), functions=READ,
      bounds='each protected handshake record, in either direction, delivered again after the '
             'handshake; any change of the body of each during it')
def handshake_records(sx):
    c, s = pair(client_config(max_fragment_length=512))
    c.initiate_connection()
    s.initiate_connection()
    s.receive_data(c.data_to_send())
    flight = split_records(s.data_to_send())
    sealed = [i for i, r in enumerate(flight) if r[0] == 23]
    mode = sx.choice('mode', ['again', 'changed', 'dropped'])
    if mode == 'again':
        c.receive_data(b''.join([record(r[0], r[2]) for r in flight]))
        reply = c.data_to_send()
        s.receive_data(reply)
        sx.check(c.is_connected() and s.is_connected(), 'connected')
        if sx.choice('to', ['client', 'server']) == 'client':
            i = sx.choice('which', sealed)
            conn, exc = c, deliver(c, record(23, flight[i][2]))
        else:
            last = [r for r in split_records(reply) if r[0] == 23]
            conn, exc = s, deliver(s, record(23, last[0][2]))
    else:
        i = sx.choice('which', sealed)
        exc = None
        conn = c
        for j, r in enumerate(flight):
            body = r[2]
            if j == i:
                if mode == 'dropped':
                    if i == sealed[-1]:
                        sx.assume(False)
                    continue
                delta = sx.bytes('delta', len(body))
                sx.assume(delta != b'\0' * len(body))
                body = xor(body, delta)
            exc = deliver(c, record(r[0], body))
            if exc is not None:
                break
    check_alert(sx, exc, 'BadRecordMac', 'refused with bad_record_mac')
    sx.check(state(conn) == 'Failed', 'the connection failed')
    sx.reach('refused')


@case('R06', quick=[{'side': s} for s in ('client', 'server')],
      thorough=[{'side': s, 'suite': n, 'before': b} for s in ('client', 'server')
                for n in (0x1301, 0x1302, 0x1303) for b in (0, 1, 2, 5)],
      reach=('refused', 'accepted'), functions=READ,
      bounds='a record of any of 3 content types, any 3 bytes and any 64-bit sequence number, protected with the '
             'handshake or application keys of either direction (or those of another transcript, or zeros), after '
             '1 (thorough: 0, 1, 2 or 5) genuine records; connected, or a server awaiting the Finished')
def other_keys(sx):
    """Whatever the sequence number, the keys of no other stage or direction open a record."""
    side = sx.p('side')
    where = sx.choice('where', ('connected', 'wait finished') if side == 'server' else ('connected',))
    p = reach(sx, side, where, **({'conf': client_config(cipher_suites=[CipherSuites(sx.p('suite', 0x1301))])}
                                  if side == 'client' else {}),
              **({'suite': sx.p('suite', 0x1301)} if side == 'client' else {'suites': (sx.p('suite', 0x1301),)}))
    conn = p.conn
    before = sx.p('before', 1) if where == 'connected' else 0
    for i in range(before):
        sx.check(p.push(23, b'first') is None, 'a genuine record')
    conn.data_to_read()
    other = oracle.Schedule(sx.p('suite', 0x1301))
    other.handshake(b'\x11' * 32, p.digest())
    foreign = oracle.Schedule(sx.p('suite', 0x1301))
    foreign.handshake(b'\0' * 32, b'\0' * foreign.size)
    foreign.master(b'\0' * foreign.size)
    pools = {'hs client': p.hs['client'], 'hs server': p.hs['server'], 'ap client': p.ap['client'],
             'ap server': p.ap['server'], 'secret': oracle.Protection(other, other.c_hs),
             'zeros': oracle.Protection(foreign, foreign.c_ap)}
    name = sx.choice('keys', tuple(pools))
    seq = sx.int('sequence number', 0, 2 ** 64 - 1)
    inner = sx.bytes('data', 3) + u8(sx.choice('content', (21, 22, 23)))
    header = b'\x17\x03\x03' + u16(len(inner) + pools[name].tag_length)
    exc = p.deliver(header + pools[name].encrypt(inner, header, seq))
    if pools[name] is p.writer and sx.is_true(seq == p.writer.seq):
        # the genuine next record: what it does is the matter of others
        sx.check(type(exc).__name__ != 'BadRecordMac', 'the next record is not opened')
        sx.reach('accepted')
        return
    check_alert(sx, exc, 'BadRecordMac', 'a record under other keys or another number is refused with bad_record_mac')
    sx.check(len(conn.data_to_read()) == 0, 'nothing of it is delivered')
    sx.check(state(conn) == 'Failed', 'the connection failed')
    sx.reach('refused')


@case('R06', params=[{'side': side} for side in ('client', 'server')], reach=('refused', 'skipped'),
      functions=READ,
      bounds='an unprotected record of type change_cipher_spec, of any version and any body of 1 or 2 bytes, '
             'between two genuine records of a connection, or before the peer has finished')
def compatibility(sx):
    """The compatibility record is only skipped during the handshake."""
    side = sx.p('side')
    where = sx.choice('where', ('connected', 'wait finished'))
    p = reach(sx, side, where)
    conn = p.conn
    if where == 'connected':
        for i in range(sx.choice('before', (0, 1))):
            sx.check(p.push(23, b'first') is None, 'a genuine record')
        conn.data_to_read()
    body = sx.bytes('body', sx.choice('length', (1, 2)))
    exc = p.deliver(b'\x14' + sx.bytes('version', 2) + u16(len(body)) + body)
    if where == 'wait finished' and len(body) == 1 and sx.is_true(body[0] == 1):
        sx.check(exc is None, 'the compatibility record is skipped', exc)
        sx.check(not conn.is_connected(), 'and nothing more')
        sx.reach('skipped')
        return
    sx.check(exc is not None, 'an unprotected record is refused')
    check_alert(sx, exc, 'BadRecordMac', 'an unprotected record is refused with bad_record_mac')
    sx.check(len(conn.data_to_read()) == 0, 'nothing of it is delivered')
    sx.check(state(conn) == 'Failed', 'the connection failed')
    sx.reach('refused')
