"""S01, S02, S06-S09: what a connection accepts in each state, and how it ends.

The peer is the puppet: any content, in any state, properly protected."""
from siotls import TLSError
from siotls.contents import alerts

from symex.api import case

from harness import oracle
from harness.puppet import (
    CH, CLIENT_STAGES, CR, CT, CV, ED25519, EE, EOED, FIN, KU, MH, NST, P256, SERVER_STAGES, SH,
    SIGALGS, X25519, Puppet, ext, extensions, reach,
)
from harness.world import handshake, record, state, u16, u8, vec16, vec24, vec8

STAGES = [{'side': 'client', 'at': s} for s in ('start', *CLIENT_STAGES)] + [
    {'side': 'server', 'at': s} for s in ('start', *SERVER_STAGES)]
HANDSHAKING = [s for s in STAGES if s['at'] != 'connected']
RUNNING = [s for s in STAGES if s['at'] != 'start']

CONNECTION = ('siotls.connection:TLSConnection.receive_data',
              'siotls.connection:TLSConnection._read_next_record',
              'siotls.connection:TLSConnection._read_next_content',
              'siotls.connection:TLSConnection._send_content',
              'siotls.connection:TLSConnection._fail', 'siotls.states:State.process')
PROCESS = (*CONNECTION, *('siotls.states.' + n for n in (
    'client.wait_server_hello:ClientWaitServerHello.process',
    'client.wait_encrypted_extensions:ClientWaitEncryptedExtensions.process',
    'client.wait_cert_cr:ClientWaitCertCr.process',
    'client.wait_certificate:ClientWaitCertificate.process',
    'client.wait_certificate_verify:ClientWaitCertificateVerify.process',
    'client.wait_finished:ClientWaitFinished.process',
    'server.wait_client_hello:ServerWaitClientHello.process',
    'server.wait_finished:ServerWaitFinished.process',
    'connected:Connected.process')))

EXPECTED = {
    'client': {'start': (), 'wait hello': ('SH', 'HRR'), 'wait second hello': ('SH',),
               'wait extensions': ('EE',), 'wait certificate': ('CT', 'CR'),
               'wait certificate after request': ('CT',), 'wait verify': ('CV',),
               'wait finished': ('FIN',), 'connected': ()},
    'server': {'start': (), 'wait hello': ('CH',), 'wait second hello': ('CH',),
               'wait finished': ('FIN',), 'connected': ()},
}
TYPES = {'CH': CH, 'SH': SH, 'HRR': SH, 'NST': NST, 'EOED': EOED, 'EE': EE, 'CT': CT, 'CR': CR,
         'CV': CV, 'FIN': FIN, 'KU': KU, 'MH': MH}


def at(sx, **kw):
    return reach(sx, sx.p('side'), sx.p('at'), **kw)


def valid_body(p, name):
    """The body of a well-formed message, whatever the stage."""
    if p.side == 'server' and p.conn.config.side == 'client' and p.first is None:
        p.latest = p.parse_client_hello(handshake(CH, Puppet.client_hello(p)))
    if name == 'CH':
        return Puppet.client_hello(p, groups=(X25519, P256))
    if name in ('SH', 'HRR'):
        if p.side == 'client':
            q = Puppet(p.sx, p.conn)
            q.latest = q.parse_client_hello(handshake(CH, q.client_hello()))
        else:
            q = p
        if name == 'SH':
            return q.server_hello()
        return q.hello_retry(group=P256)
    if name == 'EE':
        return extensions()
    if name == 'CT':
        return p.certificate('ed')
    if name == 'CR':
        return vec8(b'') + extensions(ext(SIGALGS, vec16(u16(ED25519))))
    if name == 'CV':
        if p.schedule is None:
            return u16(ED25519) + vec16(b'\x11' * 64)
        return p.certificate_verify('ed')
    if name == 'FIN':
        return p.finished_value() if p.schedule is not None else b'\x22' * 32
    if name == 'NST':
        return (b'\0\0\x0e\x10' + b'\1\2\3\4' + vec8(b'\0') + vec16(b'ticket') + extensions())
    if name == 'EOED':
        return b''
    if name == 'KU':
        return b'\0'
    return b'\x33' * 32


def is_alert(exc):
    return isinstance(exc, alerts.TLSFatalAlert)


def failed(sx, p, exc, label, *names):
    """exc is a fatal alert, one of `names` if any, and the connection failed because of it."""
    what = f'{type(exc).__name__}: {exc}'
    sx.check(exc is not None, f'{label}: accepted', state(p.conn))
    if names:
        sx.check(type(exc).__name__ in names, f'{label}: not refused with {" or ".join(names)}', what)
    else:
        sx.check(is_alert(exc) and not isinstance(exc, alerts.InternalError),
                 f'{label}: not refused with an alert', what)
    sx.check(state(p.conn) == 'Failed', f'{label}: the connection did not fail', state(p.conn))
    sx.check(not p.conn.is_connected(), f'{label}: still connected')
    sx.check(len(p.conn.data_to_read()) == 0, f'{label}: data was delivered')
    before = len(p.alerts)
    new = p.pull()
    sx.check(len(p.alerts) == before + 1, f'{label}: exactly one alert is sent', len(new))
    sx.check(new[-1][0] == 21, f'{label}: the alert is the last thing sent')
    level, desc = p.alerts[-1]
    sx.check(level == 2, f'{label}: the alert is fatal')
    sx.check(desc == int(exc.description), f'{label}: the alert sent is the error raised')
    sx.check(desc == oracle.ALERTS.get(type(exc).__name__, desc), f'{label}: the number of the alert')
    sx.check(new[-1][2] == (p.reader is not None), f'{label}: protection of the alert')


# ------------------------------------------------------------------------------------------- S01

@case('S01', params=STAGES, functions=PROCESS,
      reach=('refused', 'unknown'),
      bounds='every stage of both sides (9 of the client, 5 of the server) x every handshake '
             'message type 0..255, well-formed where it is a known one, any 0..3 byte body '
             'otherwise')
def messages(sx):
    """In each stage, only the message it waits for is taken."""
    p = at(sx)
    expected = EXPECTED[sx.p('side')][sx.p('at')]
    name = sx.choice('message', (*TYPES, 'unknown'))
    if name == 'unknown':
        msg_type = sx.int('type', 0, 255)
        sx.assume(sx.all([msg_type != t for t in set(TYPES.values())]))
        body = sx.bytes('body', 0, 3)
        exc = p.push(22, u8(msg_type) + u16(0) + u8(len(body)) + body)
        failed(sx, p, exc, 'unknown handshake message')
        sx.reach('unknown')
        return
    if name in expected:
        sx.assume(False)
    exc = p.push(22, handshake(TYPES[name], valid_body(p, name)))
    if name == 'MH':
        failed(sx, p, exc, 'message hash as a message')
    else:
        failed(sx, p, exc, f'{name} out of its place', 'UnexpectedMessage')
    sx.reach('refused')


@case('S01', params=[s for s in STAGES if s['at'] != 'wait certificate after request'],
      functions=PROCESS,
      reach=('refused',),
      bounds='every stage of both sides x every content type 0..255 but handshake and alert, any '
             'body of 0..2 bytes (compatibility change-cipher-spec excepted during the handshake)')
def contents(sx):
    p = at(sx)
    ctype = sx.int('content type', 0, 255)
    sx.assume(sx.all([ctype != 22, ctype != 21]))
    body = sx.bytes('body', 0, 2)
    if sx.p('at') == 'connected':
        sx.assume(ctype != 23)
    protected = p.writer is not None
    if ctype == 20 and body == b'\x01' and not protected:
        sx.assume(False)
    if protected and ctype == 0:
        # a type of zero is padding
        sx.assume(False)
    exc = p.push(ctype, body)
    if ctype == 23 or ctype == 20:
        failed(sx, p, exc, 'application data or change cipher spec out of its place',
               'UnexpectedMessage', *(('DecodeError',) if ctype == 20 else ()))
    elif sx.p('at') == 'connected' and ctype == 24 and exc is None:
        sx.check(len(p.conn.data_to_read()) == 0, 'a heartbeat is no data')
        return
    else:
        failed(sx, p, exc, 'content out of its place')
    sx.reach('refused')


@case('S01', params=[{**s, 'what': w} for s in STAGES if s['at'] != 'wait certificate after request'
                     for w in ('heartbeat', 'alert', 'data', 'cipher')],
      functions=PROCESS, reach=('refused',),
      bounds='every stage before the end of the handshake x well-formed heartbeats (any mode, any '
             'payload of 0..3 bytes, any padding of 16 or 17), application data of 1 or 40 bytes, warnings '
             'of any description, change-cipher-spec of two messages or of any other byte')
def interlopers(sx):
    """What is well-formed but not a handshake message has no place before the end of one."""
    what = sx.p('what')
    p = at(sx)
    protected = p.writer is not None
    if what == 'heartbeat':
        mode = sx.choice('mode', (1, 2))
        body = u8(mode) + vec16(sx.bytes('payload', 0, 3)) + sx.bytes('padding', sx.choice('size', (16, 17)))
        if sx.p('at') == 'connected':
            # not negotiated: no answer, and nothing changes
            exc = p.push(24, body)
            sx.check(len(p.conn.data_to_read()) == 0, 'a heartbeat is no data')
            if exc is None:
                sx.check(p.conn.is_connected(), 'still connected')
                sx.check(not p.pull(), 'no answer')
            sx.reach('refused')
            return
        exc = p.push(24, body)
        failed(sx, p, exc, 'heartbeat during the handshake')
    elif what == 'data':
        if sx.p('at') == 'connected':
            sx.reach('refused')
            return
        exc = p.push(23, sx.bytes('data', sx.choice('size', (1, 40))))
        failed(sx, p, exc, 'data during the handshake', 'UnexpectedMessage')
    elif what == 'cipher':
        body = sx.bytes('body', sx.choice('size', (1, 2)))
        if len(body) == 1 and not (protected or sx.p('at') == 'connected'):
            sx.assume(body != b'\x01')
        exc = p.push(20, body)
        failed(sx, p, exc, 'change cipher spec', 'UnexpectedMessage', 'DecodeError', 'IllegalParameter')
    else:
        # a warning may be ignored, it may not make the handshake go on
        before = state(p.conn)
        sent = len(p.received)
        description = sx.int('description', 0, 255)
        sx.assume(sx.all([description != 0, description != 90]))
        exc = p.push(21, u8(1) + u8(description))
        if exc is None:
            sx.check(state(p.conn) == before, 'a warning makes the handshake go on')
        else:
            sx.check(state(p.conn) in ('Failed', 'Closed'), 'an error that does not fail', repr(exc))
        sx.check(len(p.conn.data_to_read()) == 0, 'data was delivered')
        p.pull()
        sx.check(len(p.received) == sent, 'a message is sent because of a warning')
    sx.reach('refused')


@case(['S01', 'R06'], params=[s for s in STAGES if s['at'] not in ('start', 'wait hello',
                                                          'wait second hello')],
      functions=PROCESS, reach=('refused',),
      bounds='every stage with keys x the very message it waits for, and application data, alerts '
             'and heartbeats, in clear')
def unprotected(sx):
    """Once keys are on, nothing is accepted in clear."""
    p = at(sx)
    what = sx.choice('what', ('message', 'data', 'alert', 'warning', 'heartbeat'))
    expected = EXPECTED[sx.p('side')][sx.p('at')]
    if what == 'message':
        name = expected[0] if expected else 'FIN'
        data = record(22, handshake(TYPES[name], valid_body(p, name)))
    else:
        data = {'data': record(23, b'data'), 'alert': record(21, b'\x02\x28'),
                'warning': record(21, b'\x01\x00'),
                'heartbeat': record(24, b'\x01' + vec16(b'x') + b'\0' * 16)}[what]
    exc = p.deliver(data)
    failed(sx, p, exc, f'{what} in clear')
    sx.reach('refused')


@case('S01', quick=[{'n': 5}], thorough=[{'n': 7}], functions=PROCESS,
      reach=('connected', 'refused', 'not yet'),
      bounds='every sequence of up to 5 (7) messages out of ServerHello, EncryptedExtensions, '
             'CertificateRequest, Certificate, CertificateVerify and Finished, each with the '
             'content that suits the transcript so far')
def server_sequences(sx):
    """A client is connected by exactly the legal sequences."""
    p = reach(sx, 'client', 'wait hello')
    legal = {'': ('SH',), 'SH': ('EE',), 'EE': ('CR', 'CT'), 'CR': ('CT',), 'CT': ('CV',),
             'CV': ('FIN',), 'FIN': ()}
    last = ''
    for i in range(sx.p('n')):
        if last == 'FIN':
            break
        name = sx.choice(f'message {i}', ('SH', 'EE', 'CR', 'CT', 'CV', 'FIN'))
        ok = name in legal[last]
        if name == 'SH' and last == '':
            exc = p.say_hello()
        else:
            exc = p.say(TYPES[name], valid_body(p, name))
        if not ok:
            failed(sx, p, exc, f'{name} after {last or "nothing"}', 'UnexpectedMessage')
            sx.reach('refused')
            return
        p.must(exc, f'{name} after {last or "the client hello"}')
        sx.check(p.conn.is_connected() == (name == 'FIN'), f'connected after {name}')
        last = name
    if last != 'FIN':
        sx.check(not p.conn.is_connected(), 'connected too early')
        sx.reach('not yet')
        return
    n = len(p.received)
    p.master()
    p.pull()
    sx.check(p.received[-1][0] == FIN and len(p.received) > n, 'the client Finished')
    p.application_keys()
    data = sx.bytes('data', 3)
    p.must(p.push(23, data), 'application data')
    sx.check(p.conn.data_to_read() == data, 'application data is delivered')
    sx.reach('connected')


@case('S01', functions=PROCESS, reach=('connected', 'refused'),
      bounds='every sequence of up to 3 messages out of ClientHello (with and without a suitable '
             'share), Certificate, Finished and KeyUpdate')
def client_sequences(sx):
    p = reach(sx, 'server', 'wait hello')
    stage = 'hello'
    for i in range(4):
        if stage == 'connected':
            break
        name = sx.choice(f'message {i}', ('CH', 'CH without share', 'CT', 'FIN', 'KU'))
        if name.startswith('CH'):
            body = p.client_hello(groups=(X25519, P256),
                                  shares=(X25519,) if name == 'CH' else ())
            exc = p.say(CH, body)
            if stage in ('hello', 'second hello') and name == 'CH':
                p.must(exc, 'client hello')
                p.flight()
                stage = 'finished'
                # the server still writes with the handshake key
                p.reader = p.hs['server']
                continue
            if stage == 'hello':
                p.must(exc, 'client hello')
                p.flight()
                stage = 'second hello'
                continue
        elif name == 'FIN' and stage == 'finished':
            p.must(p.finish(), 'the Finished')
            stage = 'connected'
            sx.check(p.conn.is_connected(), 'connected')
            continue
        else:
            exc = p.say(TYPES[name], valid_body(p, name))
        failed(sx, p, exc, f'{name} while waiting for the {stage}',
               'IllegalParameter' if name.startswith('CH') and stage == 'second hello'
               else 'UnexpectedMessage')
        sx.reach('refused')
        return
    sx.check(p.conn.is_connected() == (stage == 'connected'), 'connected at the end')
    if stage == 'connected':
        data = sx.bytes('data', 3)
        p.must(p.push(23, data), 'application data')
        sx.check(p.conn.data_to_read() == data, 'application data is delivered')
        sx.reach('connected')


# ------------------------------------------------------------------------------------------- S02

@case('S02', functions=PROCESS + ('siotls.crypto.ciphers:TLSCipherSuite.verify_finish',),
      reach=('right', 'wrong'),
      quick=[{'side': d, 'suite': s} for d in ('client', 'server') for s in (0x1301, 0x1302)],
      thorough=[{'side': d, 'suite': s} for d in ('client', 'server') for s in oracle.SUITES],
      bounds='any verify data of any length 0..66 and any single symbolic value of the right '
             'length, every hash, both sides')
def verify_data(sx):
    suite = sx.p('suite')
    p = finishing(sx, sx.p('side'), suite)
    want = p.finished_value()
    length = sx.choice('length', (len(want), 0, 1, 12, len(want) - 1, len(want) + 1, 64, 66))
    if length == len(want):
        data = bytes([a ^ b for a, b in zip(want, sx.bytes('delta', length))])
    else:
        data = sx.bytes('verify data', length)
    exc = p.push(22, handshake(FIN, data))
    if data == want:
        p.must(exc, 'the right Finished')
        sx.check(p.conn.is_connected(), 'the right Finished connects')
        sx.reach('right')
        return
    failed(sx, p, exc, 'a wrong Finished', 'DecryptError')
    sx.reach('wrong')


def finishing(sx, side, suite, **kw):
    from siotls.iana import CipherSuites
    from harness.world import client_config, server_config
    if side == 'client':
        return reach(sx, 'client', 'wait finished', suite=suite,
                     conf=client_config(cipher_suites=[CipherSuites(suite)]), **kw)
    return reach(sx, 'server', 'wait finished', suites=(suite,),
                 conf=server_config(cipher_suites=[CipherSuites(suite)]), **kw)


@case('S02', functions=PROCESS, reach=('refused',),
      params=[{'side': d} for d in ('client', 'server')],
      bounds='a Finished that proves another transcript: of any one message changed in any way '
             '(any mask over its first 40 bytes), missing or repeated, or made with another key')
def other_transcript(sx):
    """What is proved must be this very transcript."""
    p = finishing(sx, sx.p('side'), 0x1301)
    whole = p.transcript_
    msgs = []
    rest = whole
    while len(rest):
        n = 4 + int.from_bytes(rest[1:4], 'big')
        msgs.append(rest[:n])
        rest = rest[n:]
    how = sx.choice('how', ('changed', 'missing', 'repeated', 'key', 'mine', 'traffic'))
    if how in ('changed', 'missing', 'repeated'):
        i = sx.choice('which', range(len(msgs)))
        if how == 'changed':
            n = min(40, len(msgs[i]))
            delta = sx.bytes('delta', n)
            sx.assume(delta != b'\0' * n)
            msgs[i] = bytes([a ^ b for a, b in zip(msgs[i][:n], delta)]) + msgs[i][n:]
        else:
            msgs[i:i + 1] = [] if how == 'missing' else [msgs[i], msgs[i]]
        p.transcript_ = b''.join(msgs)
        data = p.finished_value()
    elif how == 'mine':
        # reflected: the Finished the connection itself would send
        data = p.finished_value('client' if p.side == 'server' else 'server')
    elif how == 'key':
        data = p.schedule.finished(sx.bytes('key', 32), p.digest())
        sx.assume(data != p.finished_value())
    else:
        data = oracle.mac(p.schedule.hash,
                          p.schedule.c_hs if p.side == 'client' else p.schedule.s_hs, p.digest())
    exc = p.push(22, handshake(FIN, data))
    failed(sx, p, exc, 'a Finished of another transcript', 'DecryptError')
    sx.reach('refused')


@case('S02', functions=PROCESS, reach=('refused',), params=[{'side': d} for d in (
    'client', 'server')], bounds='any wrong Finished, followed by application data under the '
    'application keys in the same delivery or in a later one')
def no_key_after_wrong(sx):
    """After a wrong Finished no application key is used."""
    p = finishing(sx, sx.p('side'), 0x1301)
    want = p.finished_value()
    delta = sx.bytes('delta', 32)
    sx.assume(delta != b'\0' * 32)
    data = bytes([a ^ b for a, b in zip(want, delta)])
    bad = p.seal(22, handshake(FIN, data))
    if p.side == 'server':
        p.transcript_ = p.transcript_ + handshake(FIN, want)
        p.master()
    secret = oracle.Protection(p.schedule, p.schedule.c_ap if p.side == 'client'
                               else p.schedule.s_ap)
    header = b'\x17\x03\x03' + u16(5 + 1 + 16)
    app = header + secret.encrypt(b'hello\x17', header)
    together = sx.bool('together')
    exc = p.deliver(bad + app if together else bad)
    failed(sx, p, exc, 'a wrong Finished', 'DecryptError')
    if not together:
        p.deliver(app)
    sx.check(len(p.conn.data_to_read()) == 0, 'data of a connection that failed is delivered')
    exc, _ = sx.attempt(p.conn.send_data, b'secret')
    sx.check(exc is not None, 'a failed connection sends')
    sx.check(len(p.conn.data_to_send()) == 0, 'a failed connection queues data')
    sx.reach('refused')


# ------------------------------------------------------------------------------------------- S06

def refuses_data(sx, p, label):
    """Nothing can be sent."""
    p.conn.data_to_send()
    exc, _ = sx.attempt(p.conn.send_data, sx.bytes('sent', sx.choice('sent size', (0, 1, 5))))
    sx.check(isinstance(exc, TLSError), f'{label}: application data can be sent',
             type(exc).__name__)
    sx.check(len(p.conn.data_to_send()) == 0, f'{label}: application data is queued')


@case('S06', params=HANDSHAKING, functions=CONNECTION, reach=('end',),
      bounds='every stage before the end of the handshake, any data of 0, 1 and 5 bytes sent; '
             'any record of application data of 0..3 bytes received under the current protection')
def before(sx):
    p = at(sx)
    end = sx.choice('then', ('go on', 'close sending', 'close receiving', 'close both', 'fail'))
    p.pull()
    if end in ('close sending', 'close both'):
        p.conn.close_sending_end()
    if end in ('close receiving', 'close both'):
        p.conn.close_receiving_end()
    if end == 'fail':
        p.push(22, handshake(KU, b'\0'))
    sx.check(not p.conn.is_connected(), 'connected before the end of the handshake')
    refuses_data(sx, p, f'before the end of the handshake, {end}')
    data = sx.bytes('received', 0, 3)
    how = sx.choice('how', ('sealed', 'clear'))
    p.deliver(p.seal(23, data) if how == 'sealed' else record(23, data))
    sx.check(len(p.conn.data_to_read()) == 0, 'application data is delivered')
    sx.check(not p.conn.is_connected(), 'connected by application data')
    refuses_data(sx, p, 'afterwards')
    sx.reach('end')


@case('S06', params=[{'side': 'client'}, {'side': 'server'}], functions=CONNECTION,
      reach=('delivered', 'refused'),
      bounds='application data of any 4 bytes right before and right after the Finished, in the '
             'same delivery or another, under handshake and application keys')
def around_finished(sx):
    p = finishing(sx, sx.p('side'), 0x1301)
    data = sx.bytes('data', 4)
    order = sx.choice('order', ('before, handshake keys', 'before, application keys',
                                'after, handshake keys', 'after, application keys'))
    want = p.finished_value()
    msg = handshake(FIN, want)
    if p.side == 'server':
        p.transcript_ = p.transcript_ + msg
        p.master()
    hs = p.writer
    ap = p.ap[p.side]
    out = []
    for what in (('data', 'fin') if order.startswith('before') else ('fin', 'data')):
        if what == 'data':
            p.writer = hs if 'handshake' in order else ap
            out.append(p.seal(23, data))
        else:
            p.writer = hs
            out.append(p.seal(22, msg))
    exc = None
    if sx.bool('together'):
        exc = p.deliver(out[0] + out[1])
    else:
        for o in out:
            exc = p.deliver(o)
            if exc is not None:
                break
    got = p.conn.data_to_read()
    if order == 'after, application keys':
        p.must(exc, 'data after the Finished')
        sx.check(got == data, 'data after the Finished is delivered')
        sx.reach('delivered')
    else:
        sx.check(exc is not None, f'data {order} is accepted')
        sx.check(len(got) == 0, f'data {order} is delivered')
        sx.check(state(p.conn) == 'Failed', f'data {order}: the connection did not fail')
        sx.reach('refused')


@case('S06', params=[{'side': 'client'}, {'side': 'server'}], functions=CONNECTION, reach=('end',),
      bounds='any data of 0..40 bytes and of 600 bytes (several records at a limit of 512)')
def sent_under_application_keys(sx):
    from harness.puppet import MFL
    from harness.world import client_config
    if sx.p('side') == 'client':
        p = reach(sx, 'client', 'connected', conf=client_config(max_fragment_length=512),
                  exts=(ext(MFL, b'\x01'),))
    else:
        p = reach(sx, 'server', 'connected', extra=(ext(MFL, b'\x01'),))
    data = sx.bytes('data', sx.choice('size', (0, 1, 40, 600)))
    exc, _ = sx.attempt(p.conn.send_data, data)
    sx.check(exc is None, 'application data refused', exc)
    # the puppet only reads what is protected with the application keys
    p.pull()
    sx.check(p.data == data, 'the data sent')
    sx.check(all(c[0] == 23 and c[2] for c in p.contents[-1:]), 'sent protected')
    sx.reach('end')


# ------------------------------------------------------------------------------------------- S07

CAUSES = ('message', 'content', 'garbage', 'malformed', 'overflow', 'data')

def provoke(sx, p, cause):
    """Something the peer must not do; the exception."""
    if cause == 'message':
        return p.push(22, handshake(KU, b'\0'))
    if cause == 'content':
        return p.push(20, b'\x02')
    if cause == 'garbage':
        if p.writer is None:
            return p.deliver(record(99, b'x'))
        body = sx.bytes('garbage', 24)
        return p.deliver(record(23, body))
    if cause == 'malformed':
        # announces more than it holds
        return p.push(22, handshake(p.sx.choice('of', (CH, SH, EE, CT, CV)), b'\x01'))
    if cause == 'overflow':
        return p.deliver(b'\x17\x03\x03' + u16(16384 + 257))
    return p.push(23, b'too early')


@case('S07', params=RUNNING, functions=CONNECTION, reach=('end',),
      bounds='every stage x 6 kinds of error, with and without half a message before, then any '
             '8 bytes, a genuine record and an alert received, and every operation')
def final(sx):
    p = at(sx)
    p.pull()
    causes = [c for c in CAUSES if not (c == 'data' and sx.p('at') == 'connected')]
    cause = sx.choice('cause', causes)
    # a message may have begun before, in whose place the error comes
    if cause not in ('message', 'malformed') and sx.bool('half a message before'):
        exc = p.push(22, b'\x0b\0\1\0' + b'half')
        sx.check(exc is None, 'half a message is refused', repr(exc))
    # something is queued before it, which stays
    keep = sx.p('at') == 'connected' and sx.bool('queued before')
    if keep:
        p.conn.send_data(b'before')
    exc = provoke(sx, p, cause)
    failed(sx, p, exc, cause)
    if keep:
        sx.check(p.data == b'before', 'what was queued before the error')
    later(sx, p)
    sx.reach('end')


def later(sx, p):
    """A failed connection stays silent and deaf."""
    for i in range(2):
        what = sx.choice(f'later {i}', ('bytes', 'record', 'alert', 'send', 'close sending',
                                        'close receiving', 'initiate'))
        exc = None
        if what == 'bytes':
            exc = p.deliver(sx.bytes('later', 8))
        elif what == 'record':
            exc = p.push(23, b'later')
        elif what == 'alert':
            exc = p.push(21, sx.choice('alert', (b'\x01\x00', b'\x02\x28')))
        elif what == 'close sending':
            exc, _ = sx.attempt(p.conn.close_sending_end)
        elif what == 'close receiving':
            exc, _ = sx.attempt(p.conn.close_receiving_end)
        elif what == 'initiate':
            e, _ = sx.attempt(p.conn.initiate_connection)
            sx.check(e is not None, 'a failed connection can be initiated')
        else:
            e, _ = sx.attempt(p.conn.send_data, b'later')
            sx.check(isinstance(e, TLSError), 'a failed connection accepts data to send',
                     type(e).__name__)
        sx.check(exc is None, f'{what} on a failed connection', repr(exc))
        sx.check(len(p.conn.data_to_send()) == 0, f'{what}: a failed connection sends')
        sx.check(len(p.conn.data_to_read()) == 0, f'{what}: a failed connection delivers')
        sx.check(state(p.conn) == 'Failed', f'{what}: no longer failed', state(p.conn))
        sx.check(not p.conn.is_connected(), f'{what}: a failed connection is connected')


@case('S07', params=[s for s in RUNNING if s['at'] in ('wait hello', 'wait extensions',
                                                       'wait finished', 'connected')],
      functions=CONNECTION, reach=('end',),
      bounds='an error and any 12 bytes, or a genuine record, behind it in the same delivery')
def in_one_delivery(sx):
    p = at(sx)
    p.pull()
    bad = p.seal(20, b'\x02')
    more = sx.bytes('more', 12) if sx.bool('bytes') else p.seal(23, b'more')
    exc = p.deliver(bad + more)
    failed(sx, p, exc, 'an error with more behind it')
    exc = p.deliver(sx.bytes('and more', 3))
    sx.check(exc is None, 'received on a failed connection', repr(exc))
    sx.check(len(p.conn.data_to_read()) == 0, 'data behind an error is delivered')
    sx.check(len(p.conn.data_to_send()) == 0, 'more than one alert')
    sx.reach('end')


# ------------------------------------------------------------------------------------------- S09

@case('S09', params=RUNNING, functions=CONNECTION + ('siotls.contents.alerts:Alert.parse',),
      reach=('fatal', 'warning', 'level', 'closure'),
      bounds='every stage x any level and any description')
def received(sx):
    p = at(sx)
    p.pull()
    before = state(p.conn)
    level = sx.int('level', 0, 255)
    desc = sx.int('description', 0, 255)
    exc = p.push(21, u8(level) + u8(desc))
    if level != 1 and level != 2:
        failed(sx, p, exc, 'an alert of no level')
        sx.reach('level')
        return
    if desc == 0:
        # a closure whatever its level: see also S08
        sx.check(exc is None, 'a close-notify is an error', repr(exc))
        sx.check(before not in ('Connected', 'Closed') or state(p.conn) == 'Closed',
                 'a close-notify closes')
        sx.check(before in ('Connected', 'Closed') or state(p.conn) == 'Failed',
                 'a close-notify ends the handshake')
        sx.check(not p.conn.is_connected(), 'still receiving after a close-notify')
        e, _ = sx.attempt(p.conn.send_data, b'more')
        sx.check((e is None) == (state(p.conn) == 'Closed'), 'the other direction goes on')
        sx.reach('closure')
        return
    if level == 2:
        sx.check(isinstance(exc, TLSError), 'a fatal alert raises no TLS error',
                 f'{type(exc).__name__}: {exc}')
        sx.check(exc.description == desc, 'the error names the description of the alert')
        kind = type(exc).__name__
        if kind in oracle.ALERTS:
            sx.check(desc == oracle.ALERTS[kind], 'the error is the one of the description', kind)
        else:
            # the closure alerts are no errors by themselves
            sx.check(sx.all([desc != n for n in oracle.ALERTS.values() if n not in (0, 90)]), 'a known alert', kind)
        sx.check(not isinstance(exc, alerts.InternalError) or desc == 80, 'internal error')
        sx.check(state(p.conn) == 'Failed', 'a fatal alert fails the connection')
        sx.check(len(p.conn.data_to_send()) == 0, 'a fatal alert is answered')
        later_short(sx, p)
        sx.reach('fatal')
        return
    sx.check(exc is None, 'a warning is an error', repr(exc))
    sx.check(state(p.conn) == before, 'a warning changes the state')
    sx.check(len(p.conn.data_to_send()) == 0, 'a warning is answered')
    sx.reach('warning')


def later_short(sx, p):
    exc = p.push(23, b'later')
    sx.check(exc is None, 'received after a fatal alert', repr(exc))
    sx.check(len(p.conn.data_to_read()) == 0, 'delivered after a fatal alert')
    sx.check(len(p.conn.data_to_send()) == 0, 'sent after a fatal alert')
    e, _ = sx.attempt(p.conn.send_data, b'later')
    sx.check(isinstance(e, TLSError), 'a failed connection accepts data to send')
    sx.check(not p.conn.is_connected(), 'connected after a fatal alert')


@case('S09', params=[{'side': 'client'}, {'side': 'server'}], functions=CONNECTION,
      reach=('connected',),
      bounds='a warning of any description (known or not) but close-notify before each message of '
             'the handshake and between data')
def warnings(sx):
    """Warnings change nothing, wherever they come."""
    desc = sx.int('description', 1, 255)
    warn = b'\x01' + u8(desc)
    where = sx.choice('where', range(6))
    step = 0
    p = reach(sx, sx.p('side'), 'wait hello')
    def warn_at(n):
        if n == where:
            exc = p.push(21, warn)
            sx.check(exc is None, 'a warning is an error', repr(exc))
            sx.check(len(p.conn.data_to_send()) == 0, 'a warning is answered')
    warn_at(0)
    if sx.p('side') == 'client':
        p.must(p.say_hello(), 'the server hello')
        for n, (t, body) in enumerate(((EE, lambda: extensions()), (CT, lambda: p.certificate('ed')),
                                       (CV, lambda: p.certificate_verify('ed')),
                                       (FIN, lambda: p.finished_value()))):
            warn_at(1 + n)
            p.must(p.say(t, body()), f'message {t} after a warning')
        p.master()
        p.complete()
    else:
        p.must(p.say(CH, p.client_hello()), 'the client hello')
        p.flight()
        p.reader = p.hs['server']
        warn_at(1)
        p.must(p.finish(), 'the Finished')
    warn_at(5)
    sx.check(p.conn.is_connected(), 'connected')
    data = sx.bytes('data', 2)
    p.must(p.push(23, data), 'data')
    sx.check(p.conn.data_to_read() == data, 'data after a warning')
    p.conn.send_data(data)
    p.pull()
    sx.check(p.data == data, 'data sent after a warning')
    sx.reach('connected')


@case('S09', functions=CONNECTION, params=[{'side': 'client'}, {'side': 'server'}],
      reach=('end',), bounds='data, then a fatal alert of any description, then data, in one '
                             'delivery or several')
def data_around(sx):
    """What came before a fatal alert is delivered, what comes after is not."""
    p = reach(sx, sx.p('side'), 'connected')
    desc = sx.int('description', 1, 255)
    parts = [p.seal(23, b'before'), p.seal(21, b'\x02' + u8(desc)), p.seal(23, b'after')]
    if sx.bool('together'):
        exc = p.deliver(b''.join(parts))
        sx.check(isinstance(exc, TLSError), 'a fatal alert raises no error', repr(exc))
    else:
        p.must(p.deliver(parts[0]), 'data')
        exc = p.deliver(parts[1])
        sx.check(isinstance(exc, TLSError), 'a fatal alert raises no error', repr(exc))
        sx.check(p.deliver(parts[2]) is None, 'received on a failed connection')
    sx.check(exc.description == desc, 'the error names the description of the alert')
    sx.check(p.conn.data_to_read() == b'before', 'what came before the alert')
    sx.check(len(p.conn.data_to_send()) == 0, 'a fatal alert is answered')
    sx.reach('end')


# ------------------------------------------------------------------------------------------- S08

CLOSING = ('siotls.connection:TLSConnection.close_receiving_end',
           'siotls.connection:TLSConnection.close_sending_end',
           'siotls.connection:TLSConnection.is_connected', 'siotls.states:State.process',
           'siotls.states.closed:Closed.process', 'siotls.states.connected:Connected.process',
           *CONNECTION[:3])
OPERATIONS = ('send', 'close sending', 'close receiving', 'peer closes', 'peer sends',
              'peer sends, closes and sends')


def close_notify(sx):
    return sx.choice('level', (b'\x01', b'\x02')) + b'\0'


@case('S08', quick=[{'side': s, 'steps': 3} for s in ('client', 'server')],
      thorough=[{'side': s, 'steps': 4} for s in ('client', 'server')],
      functions=CLOSING, reach=('open', 'half', 'closed'),
      bounds='every sequence of 3 operations (thorough: 4) among sending, closing either end, '
             'data, close-notify of either level and both received, data of any 2 bytes')
def sequences(sx):
    """Against the two independent ends of RFC 8446 section 6.1."""
    p = reach(sx, sx.p('side'), 'connected')
    p.pull()
    conn = p.conn
    receiving = sending = True
    for i in range(sx.p('steps')):
        op = sx.choice(f'step {i}', OPERATIONS)
        contents, alerts_, data = len(p.contents), len(p.alerts), len(p.data)
        want = b''
        mine = sx.bytes(f'mine {i}', 2)
        theirs = sx.bytes(f'theirs {i}', 4)
        if op == 'send':
            exc, _ = sx.attempt(conn.send_data, mine)
            p.pull()
            if sending:
                sx.check(exc is None, 'an open end does not send', repr(exc))
                sx.check(p.data[data:] == mine, 'data sent')
            else:
                sx.check(isinstance(exc, TLSError), 'a closed end sends', repr(exc))
                sx.check(len(p.contents) == contents, 'something sent after the close-notify')
        elif op == 'close sending':
            exc, _ = sx.attempt(conn.close_sending_end)
            sx.check(exc is None, 'closing the sending end', repr(exc))
            p.pull()
            if sending:
                sx.check(len(p.contents) == contents + 1 and len(p.alerts) == alerts_ + 1,
                         'closing sends one close-notify', len(p.contents) - contents)
                sx.check(p.alerts[-1][1] == 0 and p.contents[-1][2],
                         'closing sends a protected close-notify')
            else:
                sx.check(len(p.contents) == contents, 'more than one close-notify')
            sending = False
        else:
            if op == 'close receiving':
                exc, _ = sx.attempt(conn.close_receiving_end)
                sx.check(exc is None, 'closing the receiving end', repr(exc))
                receiving = False
            elif op == 'peer closes':
                exc = p.push(21, close_notify(sx))
            elif op == 'peer sends':
                exc = p.push(23, theirs)
                want = theirs
            else:
                exc = p.deliver(p.seal(23, theirs[:2]) + p.seal(21, close_notify(sx))
                                + p.seal(23, theirs[2:]))
                want = theirs[:2]
            if receiving:
                sx.check(exc is None, f'{op} on an open end', repr(exc))
                sx.check(conn.data_to_read() == want, 'data received')
                if op in ('peer closes', 'peer sends, closes and sends'):
                    receiving = False
            elif op != 'close receiving':
                sx.check(exc is None or isinstance(exc, TLSError), f'{op} on a closed end',
                         repr(exc))
            p.pull()
            sx.check(len(p.contents) == contents, f'{op} makes the connection send')
        sx.check(len(conn.data_to_read()) == 0, 'data delivered after the end')
        if not receiving and not sending:
            sx.check(not conn.is_connected(), 'connected although both ends are closed')
            sx.reach('closed')
        elif receiving and sending:
            sx.check(conn.is_connected(), 'not connected although both ends are open')
            sx.reach('open')
        else:
            sx.reach('half')


@case('S08', params=HANDSHAKING, functions=CLOSING, reach=('end',),
      bounds='every stage of the handshake x transport end and close-notify of either level, then '
             'the rest of the handshake, data, or either again')
def during_handshake(sx):
    p = at(sx)
    p.pull()
    how = sx.choice('how', ('end', 'close-notify', 'close sending'))
    if how == 'end':
        exc, _ = sx.attempt(p.conn.close_receiving_end)
    elif how == 'close-notify':
        exc = p.push(21, close_notify(sx))
    else:
        exc, _ = sx.attempt(p.conn.close_sending_end)
    sx.check(exc is None or isinstance(exc, TLSError), how, repr(exc))
    sx.check(state(p.conn) == 'Failed', f'{how} in the handshake does not fail the connection',
             state(p.conn))
    sx.check(not p.conn.is_connected(), f'{how} in the handshake: connected')
    p.pull()
    name = sx.choice('then', ('SH', 'CH', 'EE', 'FIN', 'data', 'end', 'close-notify'))
    if name == 'data':
        p.push(23, b'data')
    elif name == 'end':
        sx.attempt(p.conn.close_receiving_end)
    elif name == 'close-notify':
        p.push(21, b'\x01\0')
    else:
        p.push(22, handshake(TYPES[name], valid_body(p, name)))
    sx.check(state(p.conn) == 'Failed' and not p.conn.is_connected(),
             'no longer failed', state(p.conn))
    sx.check(len(p.conn.data_to_read()) == 0, 'data delivered by a failed connection')
    sx.check(len(p.conn.data_to_send()) == 0, 'sent by a failed connection')
    exc, _ = sx.attempt(p.conn.send_data, b'x')
    sx.check(isinstance(exc, TLSError), 'a failed connection sends', repr(exc))
    sx.reach('end')


@case('S08', params=[{'side': 'client'}, {'side': 'server'}], functions=CLOSING, reach=('end',),
      bounds='a close-notify sent while data was queued, cut anywhere by the transport')
def truncated(sx):
    """The reader distinguishes a closure from a truncation, and reads what came before it."""
    p = reach(sx, sx.p('side'), 'connected')
    data = sx.bytes('data', 3)
    wire = p.seal(23, data)
    closure = p.seal(21, b'\x01\0')
    if sx.bool('truncated'):
        cut = sx.choice('cut', (1, 5, 8, len(closure) - 1))
        p.must(p.deliver(wire + closure[:cut]), 'a truncated close-notify')
        sx.check(p.conn.is_connected(), 'closed by a truncated close-notify')
    else:
        p.must(p.deliver(wire + closure), 'a close-notify')
        sx.check(not p.conn.is_connected(), 'a close-notify does not close')
    sx.check(p.conn.data_to_read() == data, 'data before the closure')
    sx.reach('end')
