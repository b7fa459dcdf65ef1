"""W04: whatever the peer sends, in whatever state, an alert is the worst that happens.

The parsers alone are in codec.py; here whole connections take the bytes of the puppet."""
from siotls.contents import alerts
from siotls.iana import ALPNProtocol, NamedGroup

from symex.api import case

from harness.codec import MAY_CARRY
from harness.idna_model import patch_idna
from harness.puppet import (
    CH, CR, CT, CV, ED25519, EE, FIN, GROUPS, KU, P256, SERVER_STAGES, SH, SHARE, SIGALGS, VERSIONS,
    X25519, certificate_entry, certificate_message, ext, extensions, reach, reach_client, reach_server,
)
from harness.states import EXPECTED, PROCESS, STAGES, failed, valid_body
from harness.world import (
    CERT, KEY, client_config, der, handshake, record, server_config, spki, state, trusting, u16, u8,
    vec16, vec24, vec8,
)

OWN = {'client': ('siotls.states.client.wait_server_hello:ClientWaitServerHello.process',
                  'siotls.states.client.wait_encrypted_extensions:ClientWaitEncryptedExtensions.process',
                  'siotls.states.client.wait_cert_cr:ClientWaitCertCr.process',
                  'siotls.states.client.wait_certificate:ClientWaitCertificate.process',
                  'siotls.states.client.wait_certificate_verify:ClientWaitCertificateVerify.process',
                  'siotls.states.client.wait_finished:ClientWaitFinished.process'),
       'server': ('siotls.states.server.wait_client_hello:ServerWaitClientHello.process',
                  'siotls.states.server.wait_finished:ServerWaitFinished.process')}
ALL = (*PROCESS, *OWN['client'], *OWN['server'])


def outcome(sx, p, exc, label, *names):
    """An alert, or none at all."""
    if exc is None:
        sx.check(state(p.conn) != 'Failed', f'{label}: failed without an error')
        sx.reach('accepted')
        return False
    failed(sx, p, exc, label, *names)
    sx.reach('refused')
    return True


def conf_of(side):
    groups = [NamedGroup.x25519, NamedGroup.secp256r1]
    if side == 'client':
        return client_config(key_exchanges=groups, alpn=[ALPNProtocol('h2'), ALPNProtocol('http/1.1')])
    return server_config(key_exchanges=groups, alpn=[ALPNProtocol('h2'), ALPNProtocol('http/1.1')],
                         public_key=CERT['ed'].public_key())


# the messages that may carry extensions: where they are sent, and their extensions by default
def client_hello(p, own):
    mine = {VERSIONS: vec8(b'\3\4'), GROUPS: vec16(b'\0\x1d\0\x17'),
            SIGALGS: vec16(b'\x08\x07'), SHARE: None}
    from harness.puppet import Share
    p.shares = {X25519: Share(X25519)} if p.stage_ != 'wait second hello' else {P256: Share(P256)}
    mine[SHARE] = vec16(b''.join([u16(g) + vec16(s.public) for g, s in p.shares.items()]))
    return CH, lambda exts: p.client_hello(shares=p.shares, exts=exts), mine

def server_hello(p, own):
    p.server_hello(group=P256 if p.stage_ == 'wait second hello' else None)
    mine = {VERSIONS: b'\3\4', SHARE: u16(p.group) + vec16(p.share.public)}
    return SH, lambda exts: p.server_hello(group=p.group, share=p.share.public, exts=exts), mine

def hello_retry(p, own):
    mine = {VERSIONS: b'\3\4', SHARE: u16(P256)}
    return SH, lambda exts: p.hello_retry(exts=exts), mine

def encrypted_extensions(p, own):
    return EE, lambda exts: extensions(*exts), {}

def certificate(p, own):
    return CT, lambda exts: certificate_message(certificate_entry(der(CERT['ed']), *exts)), {}

def certificate_request(p, own):
    return CR, lambda exts: vec8(b'') + extensions(*exts), {SIGALGS: vec16(u16(ED25519))}

CARRY = {'CH': ('server', 'wait hello', client_hello), 'CH2': ('server', 'wait second hello', client_hello),
         'SH': ('client', 'wait hello', server_hello), 'HRR': ('client', 'wait hello', hello_retry),
         'SH2': ('client', 'wait second hello', server_hello),
         'EE': ('client', 'wait extensions', encrypted_extensions),
         'CT': ('client', 'wait certificate', certificate), 'CR': ('client', 'wait certificate', certificate_request)}
KINDS = {'CH2': 'CH', 'SH2': 'SH'}
# the size up to which each body is explored
SIZE = {0: (6, 7), 1: (3, 3), 5: (6, 8), 10: (8, 10), 13: (8, 10), 14: (5, 7), 15: (3, 3), 16: (6, 8), 18: (4, 6),
        19: (4, 5), 20: (4, 5), 21: (3, 5), 41: (8, 10), 42: (5, 5), 43: (7, 9), 44: (4, 6), 45: (4, 5), 47: (6, 8),
        48: (6, 8), 49: (2, 2), 50: (6, 8), 51: (7, 9), 0x0a0a: (3, 4)}

def _bodies(tier):
    out = []
    for name in CARRY:
        for t, sizes in SIZE.items():
            carriers = MAY_CARRY.get(t)
            if carriers is None or KINDS.get(name, name) in carriers:
                if name == 'CH2' and not tier and t not in (10, 13, 16, 43, 44, 51):
                    continue
                out.append({'in': name, 'type': t, 'size': sizes[tier]})
    return out


def prepare(sx, name, **kw):
    side, stage, make = CARRY[name]
    p = reach(sx, side, stage, conf=conf_of(side), **kw)
    p.stage_ = stage
    return p, make(p, None)


@case('W04', quick=_bodies(0), thorough=_bodies(1), functions=ALL,
      bounds='any body of 0..2-8 bytes (thorough: 0..2-10) of every known extension in each message '
             'that may carry it, in an otherwise good message of a connection that waits for it')
def extension_bodies(sx):
    patch_idna(sx)
    p, (msg_type, make, mine) = prepare(sx, sx.p('in'))
    body = sx.bytes('body', 0, sx.p('size'))
    # a choice first: at its usual place or last
    exts = dict(mine)
    exts[sx.p('type')] = body
    exc = p.push(22, handshake(msg_type, make([ext(t, b) for t, b in exts.items()])))
    outcome(sx, p, exc, 'an extension of any content')


@case(['W04', 'W05'], params=[{'in': n} for n in CARRY], functions=ALL, reach=('refused', 'accepted'),
      bounds='in each message with extensions: each known extension that is not allowed there, and '
             'any unknown type, of any 0..2 bytes; each of the usual ones missing, empty or repeated')
def extension_types(sx):
    patch_idna(sx)
    name = sx.p('in')
    p, (msg_type, make, mine) = prepare(sx, name)
    what = sx.choice('what', ('extra', 'missing', 'empty', 'twice') if mine else ('extra',))
    exts = [(t, b) for t, b in mine.items()]
    if what == 'extra':
        ext_type = sx.int('type', 0, 0xffff)
        sx.assume(sx.all([ext_type != t for t in MAY_CARRY if KINDS.get(name, name) in MAY_CARRY[t]]))
        exts.insert(sx.choice('position', range(len(exts) + 1)), (ext_type, sx.bytes('body', 0, 2)))
    else:
        at = sx.choice('which', range(len(exts)))
        t, b = exts[at]
        if what == 'missing':
            del exts[at]
        elif what == 'empty':
            exts[at] = (t, b'')
        else:
            exts.append((t, b))
    exc = p.push(22, handshake(msg_type, make([ext(t, b) for t, b in exts])))
    outcome(sx, p, exc, 'odd extensions')


# ------------------------------------------------------------------------- changes to good messages

GOOD = {'CH': ('server', 'wait hello'), 'CH2': ('server', 'wait second hello'),
        'CFIN': ('server', 'wait finished'),
        'SH': ('client', 'wait hello'), 'HRR': ('client', 'wait hello'),
        'SH2': ('client', 'wait second hello'), 'EE': ('client', 'wait extensions'),
        'CT': ('client', 'wait certificate'), 'CR': ('client', 'wait certificate'),
        'CV': ('client', 'wait verify'), 'FIN': ('client', 'wait finished')}
RICH_CH = (ext(0, vec16(b'\0' + vec16(b'server.example'))), ext(16, vec16(vec8(b'h2') + vec8(b'x'))),
           ext(1, b'\2'), ext(5, b'\1\0\0\0\0'), ext(15, b'\1'), ext(20, vec8(b'\0\2')))
RICH_EE = (ext(16, vec16(vec8(b'h2'))), ext(15, b'\1'))

def good(sx, name):
    side, stage = GOOD[name]
    p = reach(sx, side, stage, conf=conf_of(side))
    p.stage_ = stage
    if name == 'CH':
        body = p.client_hello(groups=(X25519, P256), extra=RICH_CH, session=b's' * 4)
    elif name == 'CH2':
        body = p.client_hello(groups=(X25519, P256), shares=(X25519,))
    elif name == 'SH2':
        body = p.server_hello(group=P256)
    elif name == 'HRR':
        body = p.hello_retry(group=P256, cookie=b'kk')
    elif name == 'EE':
        body = extensions(*RICH_EE)
    elif name == 'CFIN':
        body = p.finished_value()
    elif name == 'CT':
        body = certificate_message(certificate_entry(der(CERT['ed']), ext(5, b'\1\0\0\1x')))
    else:
        body = valid_body(p, name)
    msg_type = {'CH2': CH, 'SH2': SH, 'CFIN': FIN, 'HRR': SH}.get(name) or {
        'CH': CH, 'SH': SH, 'EE': EE, 'CT': CT, 'CR': CR, 'CV': CV, 'FIN': FIN}[name]
    return p, msg_type, body


def _windows(width):
    # (first position, number of positions) of each job
    out = []
    for name in GOOD:
        n = {'CH': 190, 'CH2': 130, 'SH': 100, 'SH2': 130, 'HRR': 80, 'EE': 20, 'CR': 12, 'CT': 20, 'CV': 12,
             'FIN': 6, 'CFIN': 6}[name]
        step = 24
        out += [{'in': name, 'from': i, 'width': width} for i in range(0, n, step)]
    return out

@case('W04', quick=_windows(2), thorough=_windows(3), functions=ALL,
      bounds='every change of any 2 (thorough: 3) bytes in a row in good hellos, '
             'EncryptedExtensions, requests, the head of certificates, proofs and Finished')
def changes(sx):
    patch_idna(sx)
    p, msg_type, body = good(sx, sx.p('in'))
    width = sx.p('width')
    last = len(body) - width
    first = sx.p('from')
    if first > last:
        sx.assume(False)
    at = sx.choice('at', range(first, min(first + 24, last + 1)))
    delta = sx.bytes('delta', width)
    changed = body[:at] + bytes([a ^ b for a, b in zip(body[at:at + width], delta, strict=True)]) + body[at + width:]
    exc = p.push(22, handshake(msg_type, changed))
    outcome(sx, p, exc, 'a changed message')


@case(['W04', 'S07', 'W03'], params=[{'in': n} for n in GOOD], functions=ALL, reach=('refused',),
      bounds='good messages cut at any place (certificates: the last 20), or followed by any 1..3 bytes')
def lengths(sx):
    patch_idna(sx)
    p, msg_type, body = good(sx, sx.p('in'))
    if sx.bool('cut'):
        lo = max(0, len(body) - 20) if sx.p('in') == 'CT' else 0
        body = body[:sx.choice('at', range(lo, len(body)))]
    else:
        body = body + sx.bytes('more', 1, 3)
    exc = p.push(22, handshake(msg_type, body))
    failed(sx, p, exc, 'a message of another length', *(
        ('DecryptError', 'DecodeError') if 'FIN' in sx.p('in') else
        ('DecodeError', 'IllegalParameter', 'MissingExtension', 'ProtocolVersion', 'HandshakeFailure',
         'BadCertificate', 'UnsupportedExtension')))
    sx.reach('refused')


# --------------------------------------------------------------------------------- other contents

@case(['W04', 'S07'], params=STAGES, functions=ALL, reach=('refused',),
      bounds='every stage x alerts of 0..3 bytes, heartbeats of 0..6 bytes, application data of 0..2, '
             'change-cipher-spec of 0..2, of any value')
def contents(sx):
    p = reach(sx, sx.p('side'), sx.p('at'))
    ctype, size = sx.choice('content', ((21, 3), (24, 6), (23, 2), (20, 2), (0, 2), (25, 2), (255, 2)))
    body = sx.bytes('body', 0, size)
    exc = p.push(ctype, body)
    if exc is None:
        sx.check(state(p.conn) != 'Failed' or (ctype == 21 and len(body) == 2 and body[1] == 0),
                 'failed without an error')
        return
    theirs = ctype == 21 and len(body) == 2 and body[0] in (1, 2)
    sx.check(isinstance(exc, alerts.TLSFatalAlert) and (theirs or not isinstance(exc, alerts.InternalError)),
             'no alert', f'{type(exc).__name__}: {exc}')
    sx.check(state(p.conn) == 'Failed', 'the connection did not fail')
    before = len(p.alerts)
    p.pull()
    if theirs:
        sx.check(len(p.alerts) == before, 'a fatal alert of the peer is answered')
        return
    sx.check(p.alerts[before:] == [(2, int(exc.description))], 'the alert sent is the error raised')
    sx.reach('refused')


@case(['W04', 'S07'], params=[s for s in STAGES if s['at'] in ('start', 'wait hello',
      'wait second hello')],
      functions=ALL, reach=('refused',),
      bounds='any 1..9 bytes as the very first ones in each unprotected stage')
def first_bytes(sx):
    p = reach(sx, sx.p('side'), sx.p('at'))
    data = sx.bytes('data', 1, 9)
    exc = p.deliver(data)
    if exc is None:
        sx.check(state(p.conn) != 'Failed' or (data[0] == 21 and len(data) >= 7),
                 'failed without an error')
        return
    sx.check(isinstance(exc, alerts.TLSFatalAlert) and (data[0] == 21 or not isinstance(exc, alerts.InternalError)),
             'no alert', f'{type(exc).__name__}: {exc}')
    sx.check(state(p.conn) == 'Failed', 'the connection did not fail')
    sx.reach('refused')


@case(['W04', 'S07'], params=[{'side': 'client', 'echo': e} for e in (True, False)]
      + [{'side': 'server', 'echo': e} for e in (True, False)], functions=ALL, reach=('echoed', 'refused', 'ignored'),
      bounds='heartbeats of either type, any payload of 0..4 bytes, any padding of 0, 15, 16 or 20 bytes, '
             'payloads of 4060..4096 bytes; connected, one side closed or not, heartbeats allowed or not')
def heartbeats(sx):
    echo = sx.p('echo')
    mode = u8(sx.choice('mode', (1, 2)))
    big = sx.bool('big')
    if sx.p('side') == 'client':
        kw = {'max_fragment_length': 4096} if big else {}
        exts = (ext(15, mode), *((ext(1, b'\4'),) if big else ()))
        p = reach_client(sx, 'connected', conf=client_config(can_echo_heartbeat=echo, **kw), exts=exts)
    else:
        p = reach_server(sx, 'connected', conf=server_config(can_echo_heartbeat=echo),
                         extra=(ext(15, mode), *((ext(1, b'\4'),) if big else ())))
    closed = sx.bool('closed')
    if closed:
        p.conn.close_sending_end()
    p.pull()
    kind = sx.choice('type', (1, 2))
    if big:
        payload = b'p' * sx.choice('size', (4060, 4061, 4062, 4063, 4077))
        padding = b'\0' * 16
    else:
        payload = sx.bytes('payload', 0, 4)
        padding = sx.bytes('padding', sx.choice('padding size', (0, 15, 16, 20)))
    before = len(p.contents)
    exc = p.push(24, u8(kind) + vec16(payload) + padding)
    if kind == 1 and not echo:
        if not closed:
            outcome(sx, p, exc, 'a heartbeat that is not allowed', 'UnexpectedMessage')
            return
        sx.check(exc is None or type(exc).__name__ == 'UnexpectedMessage', 'a heartbeat that is not allowed')
        return
    p.must(exc, 'a heartbeat')
    p.pull()
    new = p.contents[before:]
    if kind == 2 or closed or len(padding) < 16:
        sx.check(not new, 'an answer to no request')
        sx.reach('ignored')
    elif len(payload) + 3 + 16 > (4096 if big else 16384) - 17:
        sx.check(len(new) <= 1, 'one answer')
    else:
        sx.check(len(new) == 1 and new[0][0] == 24 and new[0][2], 'one protected answer', len(new))
        body = new[0][1]
        sx.check(len(body) == 3 + len(payload) + 16 and body[0] == 2, 'a response')
        sx.check(body[1:3 + len(payload)] == vec16(payload), 'the payload is sent back')
        sx.reach('echoed')
    data = sx.bytes('data', 2)
    p.must(p.push(23, data), 'application data')
    sx.check(p.conn.data_to_read() == data, 'the data after the heartbeat')


# -------------------------------------------------------------------------- client authentication

@case('W04', functions=ALL, reach=('connected', 'refused'),
      bounds='a certificate request of any context of 0..2 bytes, any algorithm and any extension of 0..2 bytes')
def requested(sx):
    """A client that is asked for a certificate declines."""
    p = reach_client(sx, 'wait certificate')
    context = sx.bytes('context', 0, 2)
    algorithm = sx.bytes('algorithm', 2)
    more = sx.choice('more', (b'', ext(0x0a0a, sx.bytes('extension', 0, 2))))
    exc = p.say(CR, vec8(context) + extensions(ext(SIGALGS, vec16(algorithm)), more))
    if len(context):
        if outcome(sx, p, exc, 'a context in the handshake', 'IllegalParameter'):
            return
    else:
        p.must(exc, 'a request')
    p.must(p.say(CT, p.certificate('ed')), 'the certificate')
    p.must(p.say(CV, p.certificate_verify('ed')), 'the proof')
    p.must(p.say(FIN, p.finished_value()), 'the Finished')
    p.master()
    n = len(p.received)
    empty = handshake(CT, vec8(context) + vec24(b''))
    text = p.transcript_
    p.pull()
    got = p.received[n:]
    sx.check([t for t, _ in got] == [CT, FIN], 'an empty certificate, then Finished')
    sx.check(got[0][1] == empty, 'the certificate is empty')
    p.transcript_ = text + empty
    sx.check(got[1][1][4:] == p.finished_value('client'), 'the Finished covers the certificate')
    p.application_keys()
    sx.check(p.conn.is_connected(), 'connected')
    data = sx.bytes('data', 2)
    p.must(p.push(23, data), 'application data')
    sx.check(p.conn.data_to_read() == data, 'application data is delivered')
    sx.reach('connected')


@case('W04', functions=OWN['server'],
      bounds='a server configured with trusted raw keys, any ClientHello random')
def authenticating_server(sx):
    p = reach_server(sx, 'wait hello', conf=server_config(trusted_public_keys=[CERT['ed2'].public_key()]))
    exc = p.say(CH, p.client_hello(random=sx.bytes('random', 32), extra=(ext(19, vec8(b'\2')),)))
    outcome(sx, p, exc, 'a hello to a server that authenticates its clients')


# --------------------------------------------------------------------------------- unusual keys

def odd_spkis():
    """Public keys that do not load, or that are of no use."""
    ed = spki(CERT['ed'].public_key())
    ec = spki(CERT['server'].public_key())
    rsa = spki(CERT['rsa'].public_key())
    return {'unknown algorithm': ed.replace(bytes.fromhex('06032b6570'), bytes.fromhex('06032b6579')),
            'short point': ed[:1] + u8(ed[1] - 1) + ed[2:10] + u8(ed[10] - 1) + ed[11:-1],
            'bad point': ec[:-1] + u8(ec[-1] ^ 1), 'trailing': ed + b'\0', 'truncated': ed[:-1],
            'rsa without content': rsa[:4 + 15] + b'\3\1\0', 'empty sequence': b'\x30\0',
            'x25519': spki(CERT['xkey'].public_key()), 'dsa': spki(CERT['dsa'].public_key()),
            'certificate': der(CERT['ed'])}

@case(['W04', 'S07'], params=[{'key': k, 'trusting': t} for t in (False, True)
                     for k in ('odd_oid', 'odd_point', 'xkey', 'dsa', 'explicit')]
      + [{'key': k, 'raw': True} for k in odd_spkis()],
      functions=OWN['client'], reach=('refused',),
      bounds='5 certificates (authenticated or not) and 10 raw keys that do not load or cannot sign, proofs of any '
             'algorithm and any 0..2 bytes')
def odd_keys(sx):
    if sx.p('raw'):
        conf = client_config(trusted_public_keys=[CERT['ed'].public_key()])
        p = reach_client(sx, 'wait extensions', conf=conf)
        p.say_flight(exts=(ext(20, u8(2)),), upto=CT)
        body = certificate_message(certificate_entry(odd_spkis()[sx.p('key')]))
    else:
        p = reach_client(sx, 'wait certificate', **({'conf': trusting()} if sx.p('trusting') else {}))
        body = p.certificate(sx.p('key'))
    exc = p.say(CT, body)
    if exc is None:
        exc = p.say(CV, u16(sx.int('algorithm', 0, 0xffff)) + vec16(sx.bytes('signature', 0, 2)))
    sx.check(exc is not None, 'a key that proves nothing')
    outcome(sx, p, exc, 'a key that proves nothing')
