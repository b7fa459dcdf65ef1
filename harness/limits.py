"""S11: the negotiated maximum fragment length, from the extension to the records."""
from siotls import TLSError
from siotls.contents.handshakes.extensions import MaxFragmentLength
from siotls.iana import MaxFragmentLengthCode, MaxFragmentLengthOctets

from symex.api import case

from harness.puppet import CH, CT, EE, MFL, P256, X25519, ext, reach_client, reach_server
from harness.states import failed
from harness.world import client_config, handshake, server_config, u16, u8

SERVER = ('siotls.states.server.wait_client_hello:ServerWaitClientHello._negociate_max_fragment_length',)
CLIENT = ('siotls.states.client.wait_encrypted_extensions:'
          'ClientWaitEncryptedExtensions._negociate_max_fragment_length',
          'siotls.states.client.start:ClientStart.initiate_connection')
LIMIT = ('siotls.connection:TLSConnection._send_content', 'siotls.connection:TLSConnection._encrypt',
         'siotls.connection:TLSConnection._read_next_record', 'siotls.connection:TLSConnection._decrypt')
CODES = {1: 512, 2: 1024, 3: 2048, 4: 4096}
OCTETS = {v: k for k, v in CODES.items()}


def obeyed(sx, p, limit, since=0):
    for ctype, n in p.records[since:]:
        if ctype == 23:
            sx.check(n - 16 <= limit + 1, 'a protected record holds more than the limit', n)
        else:
            sx.check(n <= limit, 'a record longer than the limit', n)


def exchange(sx, p, limit):
    """Data of any length out; records in, up to the limit and over it."""
    conn = p.conn
    sx.check(int(conn.nconfig.max_fragment_length) == limit, 'the limit reported',
             conn.nconfig.max_fragment_length)
    what = sx.choice('then', ('send', 'receive', 'announced'))
    if what == 'send':
        data = sx.blob('data', 0, 2 * limit + 5)
        exc, _ = sx.attempt(conn.send_data, data)
        sx.check(exc is None, 'data refused', exc)
        out = conn.data_to_send()
        total = 0
        while len(out) > 0:
            sx.check(len(out) >= 5, 'torn record')
            size = out[3] * 256 + out[4]
            sx.check(size - 16 <= limit + 1, 'a protected record holds more than the limit')
            sx.check(len(out) >= 5 + size, 'torn record')
            total = total + size - 17
            out = out[5 + size:]
        sx.check(total >= len(data), 'some data is missing')
        sx.reach('sent')
    elif what == 'receive':
        n = sx.choice('length', (0, 1, limit - 1, limit, limit + 1, limit + 200))
        pad = sx.choice('padding', (0, 1, 40))
        exc = p.push(23, b'd' * n, padding=pad)
        if n + pad > limit:
            failed(sx, p, exc, 'more than the limit', 'RecordOverflow')
            sx.reach('refused')
        else:
            p.must(exc, 'a record within the limit')
            sx.check(conn.data_to_read() == b'd' * n, 'the data')
            sx.reach('received')
    else:
        n = sx.int('announced', 0, 0xffff)
        exc = p.deliver(u8(23) + b'\3\3' + u16(n))
        if n > limit + 256:
            failed(sx, p, exc, 'a record over the limit', 'RecordOverflow')
        elif exc is not None:
            # only a record that is all there may be wrong
            sx.check(n == 0, 'a record within the limit is refused', repr(exc))
        sx.reach('announced')


@case(['S11', 'R01', 'R04'], params=[{'retry': r} for r in (False, True)], functions=SERVER + LIMIT,
      reach=('sent', 'refused', 'received', 'announced', 'no code', 'wrong'),
      bounds='no extension or any body of 0..2 bytes, with a retry or not, a certificate chain longer than '
             'two small records; then application data of every length 0..2*limit+5, records of '
             'lengths around the limit and every announced length (16 bits)')
def server(sx):
    conf = server_config(key='rsa', chain=['rsa', 'ca'], max_fragment_length=16384)
    present = sx.bool('present')
    body = sx.bytes('body', 0, 2)
    extra = (ext(MFL, body),) if present else ()
    retry = sx.p('retry')
    kw = {'groups': (X25519, P256), 'shares': ()} if retry else {}
    p = reach_server(sx, 'wait hello', conf=conf)
    exc = p.say(CH, p.client_hello(extra=extra, **kw))
    good = not present or (len(body) == 1 and sx.is_true(sx.any([body[0] == c for c in CODES])))
    if not good:
        failed(sx, p, exc, 'no such length', 'IllegalParameter', 'DecodeError')
        sx.reach('wrong')
        return
    p.must(exc, 'the hello')
    limit = 16384
    if present:
        code = next(c for c in CODES if sx.is_true(body[0] == c))
        limit = CODES[code]
    flight = p.flight()
    if retry:
        p.must(p.say(CH, p.client_hello(extra=extra, groups=(X25519, P256), shares=(X25519,))),
               'the second hello')
        flight = p.flight()
    from harness.puppet import parse_extensions
    got = dict(parse_extensions(flight[EE][4:]))
    if present:
        sx.check(got.get(MFL) == u8(code), 'the extension is echoed')
    else:
        sx.check(MFL not in got, 'nothing is echoed when nothing is asked for')
        sx.reach('no code')
    p.must(p.finish(), 'the Finished')
    obeyed(sx, p, limit)
    exchange(sx, p, limit)


@case(['S11', 'R01', 'R04', 'S03'], params=[{'octets': m} for m in (*OCTETS, 16384)],
      functions=CLIENT + LIMIT,
      reach=('sent', 'refused', 'received', 'announced', 'wrong'),
      bounds='every configured length; an answer with no extension or any body of 0..2 bytes; then '
             'application data of every length 0..2*limit+5, records of lengths around the limit and '
             'every announced length (16 bits)')
def client(sx):
    asked = sx.p('octets')
    p = reach_client(sx, 'wait hello', conf=client_config(max_fragment_length=MaxFragmentLengthOctets(asked)))
    offer = p.latest.exts.get(MFL)
    if asked == 16384:
        sx.check(offer is None, 'nothing is asked for')
    else:
        sx.check(offer == u8(OCTETS[asked]), 'the configured length is asked for')
    p.must(p.say_hello(), 'the server hello')
    present = sx.bool('present')
    body = sx.bytes('body', 0, 2)
    good = not present or (asked != 16384 and len(body) == 1 and sx.is_true(body[0] == OCTETS[asked]))
    exc = p.say(EE, p.encrypted_extensions(*((ext(MFL, body),) if present else ())))
    if not good:
        failed(sx, p, exc, 'not what was asked for', 'IllegalParameter', 'DecodeError', 'UnsupportedExtension')
        sx.reach('wrong')
        return
    p.must(exc, 'the extensions')
    p.must(p.say(CT, p.certificate('ed')), 'the certificate')
    p.must(p.say(15, p.certificate_verify('ed')), 'the proof')
    p.must(p.say(20, p.finished_value()), 'the Finished')
    p.master()
    p.complete()
    sx.check(p.conn.is_connected(), 'connected')
    limit = asked if present else 16384
    obeyed(sx, p, limit)
    exchange(sx, p, limit)


@case('S11', functions=('siotls.contents.handshakes.extensions.max_fragment_length:MaxFragmentLength.__init__',),
      reach=('good', 'wrong'),
      bounds='every code and every number of octets (0..70000)')
def forms(sx):
    if sx.bool('by octets'):
        n = sx.int('octets', 0, 70000)
        exc, e = sx.attempt(lambda: MaxFragmentLength(octets=MaxFragmentLengthOctets(n)))
        if not sx.is_true(sx.any([n == o for o in OCTETS])):
            sx.check(exc is not None, 'no such length is accepted')
            sx.reach('wrong')
            return
        sx.check(exc is None, 'a length is refused', exc)
        octets = next(o for o in OCTETS if sx.is_true(n == o))
    else:
        code = sx.int('code', 0, 255)
        exc, e = sx.attempt(lambda: MaxFragmentLength(MaxFragmentLengthCode(code)))
        if not sx.is_true(sx.any([code == c for c in CODES])):
            sx.check(exc is not None, 'no such code is accepted')
            sx.reach('wrong')
            return
        sx.check(exc is None, 'a code is refused', exc)
        octets = CODES[next(c for c in CODES if sx.is_true(code == c))]
    sx.check(e.octets == octets, 'the octets')
    sx.check(e.code == OCTETS[octets], 'the code')
    sx.check(e.serialize() == u16(MFL) + u16(1) + u8(OCTETS[octets]), 'the wire form')
    sx.reach('good')
