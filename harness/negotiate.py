"""S03, S04, S05: what is offered, selected and accepted, with and without a retry.

The peer is the puppet: any selection and any offer."""
import itertools

from siotls import TLSConfiguration, TLSConnection
from siotls.iana import (
    ALPNProtocol, CertificateType, CipherSuites, MaxFragmentLengthOctets, NamedGroup,
    SignatureScheme,
)

from symex.api import case

from harness.observe import HRR_RANDOM, Observer
from harness.puppet import (
    ALPN, CCT, CH, COOKIE, CT, CV, ED25519, EE, FIN, GROUPS, HEARTBEAT, MFL, P256, P384, P521,
    SCTYPE, SH, SHARE, SIGALGS, VERSIONS, X25519, Puppet, Share, certificate_entry,
    certificate_message, ext, extensions, parse_extensions, reach_client, verify,
)
from harness.states import failed
from harness.world import (
    CERT, KEY, client_config, der, pair, server_config, spki, state, u16, u8, vec8, vec16,
)

C, G, S = CipherSuites, NamedGroup, SignatureScheme
AES128, AES256, CHACHA, CCM = (C.TLS_AES_128_GCM_SHA256, C.TLS_AES_256_GCM_SHA384,
                               C.TLS_CHACHA20_POLY1305_SHA256, C.TLS_AES_128_CCM_SHA256)
CLIENT = ('siotls.states.client.wait_server_hello:ClientWaitServerHello.process',
          'siotls.states.client.wait_server_hello:ClientWaitServerHello._process_server_hello',
          'siotls.states.client.wait_server_hello:'
          'ClientWaitServerHello._process_hello_retry_request',
          'siotls.states.client.start:ClientStart.initiate_connection',
          'siotls.states.client.wait_encrypted_extensions:ClientWaitEncryptedExtensions.process')
SERVER = ('siotls.states.server.wait_client_hello:ServerWaitClientHello.process',
          'siotls.states.server.wait_client_hello:ServerWaitClientHello._negociate',
          'siotls.states.server.wait_client_hello:ServerWaitClientHello._send_hello_retry_request',
          'siotls.states.server.wait_client_hello:ServerWaitClientHello._send_server_hello')

def one_of(sx, value, values):
    return sx.any([value == int(v) for v in values]) if len(list(values)) else False


def which(sx, value, values):
    """The concrete value a symbolic one has, among `values`."""
    for v in values:
        if sx.is_true(value == int(v)):
            return int(v)
    sx.fail('a value of none of these', str(value))


def rejected(sx, wrong):
    """The names of the alerts that the wrong fields deserve."""
    return sorted({n for cond, names in wrong if sx.is_true(cond) for n in names})


CLIENTS = {
    'default': {},
    'one': {'cipher_suites': [AES256], 'key_exchanges': [G.secp256r1]},
    'many': {'cipher_suites': [CCM, AES128, CHACHA],
             'key_exchanges': [G.secp384r1, G.x25519, G.secp256r1]},
}

def reported(sx, p, **kw):
    """What the connection reports."""
    for name, want in kw.items():
        got = getattr(p.conn.nconfig, name)
        same = (got == want) if want is not None else got is None
        sx.check(same, f'{name} reported is what was selected', f'{got!r} instead of {want!r}')


# ------------------------------------------------------------------------------------------- S03

@case(['S03', 'A06'], params=[{'client': c} for c in CLIENTS], functions=CLIENT,
      reach=('refused', 'connected'),
      bounds='3 client configurations; any legacy version, suite, compression byte, group, '
             'selected version or none, session of 0..1 bytes, key share or none, at once')
def server_hello(sx):
    conf = client_config(**CLIENTS[sx.p('client')])
    p = reach_client(sx, 'wait hello', conf=conf)
    ch = p.latest
    offered = ch.suites
    sx.check(offered == [int(s) for s in conf.cipher_suites], 'the suites offered are configured')
    shared = int(conf.key_exchanges[0])
    suite = sx.int('suite', 0, 0xffff)
    group = sx.int('group', 0, 0xffff)
    version = sx.int('version', 0, 0xffff)
    legacy = sx.bytes('legacy', 2)
    comp = sx.bytes('compression', 1)
    session = sx.bytes('session', 0, 1)
    has_version, has_share = sx.bool('has version'), sx.bool('has share')
    exts = []
    if has_version:
        exts.append(ext(VERSIONS, u16(version)))
    p.share = Share(shared)
    if has_share:
        exts.append(ext(SHARE, u16(group) + vec16(p.share.public)))
    body = p.server_hello(suite=suite, group=group, exts=exts, version=legacy, compression=comp,
                          session=session, share=p.share.public)
    exc = p.say(SH, body)
    wrong = [
        (sx.neg(one_of(sx, suite, offered)), ('IllegalParameter',)),
        (legacy != b'\3\3', ('ProtocolVersion', 'IllegalParameter')),
        (comp != b'\0', ('IllegalParameter', 'DecodeError')),
        (len(session) != len(ch.session), ('IllegalParameter',)),
    ]
    if has_version:
        wrong.append((version != 0x0304, ('ProtocolVersion', 'IllegalParameter')))
    else:
        wrong.append((True, ('ProtocolVersion', 'MissingExtension')))
    if has_share:
        wrong.append((group != shared, ('IllegalParameter',)))
    else:
        wrong.append((True, ('MissingExtension',)))
    if exc is not None:
        names = rejected(sx, wrong)
        sx.check(bool(names), 'a server that selects what was offered is refused', repr(exc))
        failed(sx, p, exc, 'wrong selection', *names)
        sx.reach('refused')
        return
    sx.check(sx.neg(sx.any([cond for cond, _ in wrong])),
             'the client goes on with something that it did not offer')
    p.suite, p.group = which(sx, suite, offered), shared
    p.pull()
    p.handshake_keys(p.suite, p.share.exchange(p.client_share(ch, shared)))
    p.say_flight('ed')
    sx.check(p.conn.is_connected(), 'the client is connected')
    reported(sx, p, cipher_suite=p.suite, key_exchange=shared, alpn=None,
             max_fragment_length=16384, server_certificate_type=CertificateType.X509)
    sx.reach('connected')


PUBLIC = {n: KEY[n].public_key() for n in ('ed', 'ed2', 'server')}
TYPES = {
    'plain': {},
    'trusting': {'trust': 'store'},
    'raw': {'trust': 'keys'},
    'both': {'trust': 'both'},
    'keyed': {'public_key': PUBLIC['ed2'], 'private_key': KEY['ed2']},
    'certified': {'certificate_chain': [CERT['ed2']], 'private_key': KEY['ed2']},
}

def typed(name, **more):
    from cryptography.x509.verification import Store
    kw = {**TYPES[name], **more}
    trust = kw.pop('trust', None)
    if trust in ('store', 'both'):
        kw['trust_store'] = Store([CERT['ca']])
    if trust in ('keys', 'both'):
        kw['trusted_public_keys'] = [PUBLIC['ed']]
    return client_config(**kw)


def finish(sx, p, kind=CertificateType.X509):
    """From EncryptedExtensions on."""
    key = 'server' if kind == CertificateType.X509 else 'ed'
    if kind == CertificateType.X509:
        body = p.certificate(key)
    else:
        body = certificate_message(certificate_entry(spki(PUBLIC[key])))
    p.must(p.say(CT, body), 'the certificate')
    p.must(p.say(CV, p.certificate_verify(key)), 'the signature')
    p.must(p.say(FIN, p.finished_value()), 'the Finished')
    p.master()
    p.complete()
    sx.check(p.conn.is_connected(), 'connected')


@case(['S03', 'A03', 'A06'], params=[{'client': c, 'extension': e} for c in TYPES for e in ('server',
      'client')],
      functions=CLIENT, reach=('refused', 'connected'),
      bounds='6 client configurations (no trust, store, raw keys, both, own raw key, own '
             'certificate); any one-byte server or client certificate type, or none')
def certificate_types(sx):
    conf = typed(sx.p('client'))
    p = reach_client(sx, 'wait extensions', conf=conf, hostname='server.example')
    x509, raw = CertificateType.X509, CertificateType.RAW_PUBLIC_KEY
    client = sx.p('extension') == 'client'
    ext_type = CCT if client else SCTYPE
    offer = p.latest.exts.get(ext_type)
    # RFC 7250: without the extension, certificates are X.509 ones
    offered = [x509] if offer is None else list(offer[1:])
    exts = []
    has = sx.bool('has')
    if has:
        kind = sx.int('type', 0, 255)
        exts.append(ext(ext_type, u8(kind)))
        good = one_of(sx, kind, offered) if offer is not None else kind == int(x509)
    elif client:
        kind, good = int(x509), True     # no certificate is asked for anyway
    else:
        kind, good = int(x509), x509 in offered
    if client and sx.p('client') == 'raw':
        exts.append(ext(SCTYPE, u8(int(raw))))
    exc = p.say(EE, extensions(*exts))
    if exc is not None:
        # a selection that was not offered may also be refused as such
        sx.check(sx.is_true(sx.neg(good)) or (has and offer is None),
                 'a certificate type that was offered is refused', repr(exc))
        failed(sx, p, exc, 'certificate type', 'IllegalParameter', 'UnsupportedCertificate',
               'UnsupportedExtension')
        sx.reach('refused')
        return
    sx.check(good, 'the client goes on with a certificate type that it did not offer')
    kind = which(sx, kind, (x509, raw))
    if client:
        reported(sx, p, client_certificate_type=kind)
        server_kind = raw if sx.p('client') == 'raw' else x509
    else:
        reported(sx, p, server_certificate_type=kind)
        server_kind = kind
    finish(sx, p, server_kind)
    reported(sx, p, server_certificate_type=server_kind)
    sx.reach('connected')


@case(['S03', 'A06', 'S11'], params=[{'size': s} for s in (512, 1024, 2048, 4096, 16384)],
      functions=CLIENT,
      reach=('refused', 'connected'), bounds='every size asked for; any byte answered, or none')
def fragment_length(sx):
    size = sx.p('size')
    conf = client_config(max_fragment_length=MaxFragmentLengthOctets(size))
    p = reach_client(sx, 'wait extensions', conf=conf)
    code = {512: 1, 1024: 2, 2048: 3, 4096: 4}.get(size)
    offer = p.latest.exts.get(MFL)
    sx.check(offer == (None if code is None else bytes([code])), 'the size is asked for')
    exts = []
    if sx.bool('has'):
        answer = sx.int('answer', 0, 255)
        exts.append(ext(MFL, u8(answer)))
        good = answer == code if code is not None else False
        got = size
    else:
        good, got = True, 16384
    exc = p.say(EE, extensions(*exts))
    if exc is not None:
        sx.check(sx.neg(good), 'the size asked for is refused', repr(exc))
        failed(sx, p, exc, 'fragment length', 'IllegalParameter', 'UnsupportedExtension')
        sx.reach('refused')
        return
    sx.check(good, 'the client goes on with a size that it did not ask for')
    finish(sx, p)
    reported(sx, p, max_fragment_length=got)
    sx.check(p.conn.max_fragment_length == got, 'the size in use is the one agreed on')
    sx.reach('connected')


ALPNS = {'none': [], 'one': [ALPNProtocol.HTTP_1_1], 'two': [ALPNProtocol.HTTP_2, ALPNProtocol.HTTP_1_1],
         'own': ['ab', 'a', 'abc']}

@case(['S03', 'A06'], params=[{'client': a} for a in ALPNS], functions=CLIENT,
      reach=('refused', 'connected'),
      bounds='4 lists of protocols offered; none, one or two protocols answered, each any of 1..3 '
             'printable characters or a known one')
def protocol(sx):
    conf = client_config(alpn=ALPNS[sx.p('client')])
    p = reach_client(sx, 'wait extensions', conf=conf)
    offer = p.latest.exts.get(ALPN)
    offered = [str(a).encode() for a in conf.alpn]
    sx.check(offer == (vec16(b''.join(vec8(a) for a in offered)) if offered else None),
             'the protocols are offered')
    exts = []
    number = sx.choice('number', (None, 1, 0, 2))
    names = []
    for i in range(number or 0):
        if sx.bool(f'known {i}'):
            names.append(sx.choice(f'name {i}', (b'h2', b'http/1.1', b'http/1.0')))
        else:
            name = sx.bytes(f'name {i}', 1, 3)
            for c in list(name):
                sx.assume(sx.all([c >= 32, c <= 126]))
            names.append(name)
    if number is None:
        good = True
    else:
        exts.append(ext(ALPN, vec16(b''.join([vec8(n) for n in names]))))
        good = sx.any([names[0] == o for o in offered]) if number == 1 and offered else False
    exc = p.say(EE, extensions(*exts))
    if exc is not None:
        sx.check(sx.neg(good), 'a protocol that was offered is refused', repr(exc))
        failed(sx, p, exc, 'protocol', 'IllegalParameter', 'UnsupportedExtension', 'DecodeError',
               'NoApplicationProtocol')
        sx.reach('refused')
        return
    sx.check(good, 'the client goes on with a protocol that it did not offer')
    finish(sx, p)
    got = p.conn.nconfig.alpn
    if number is None:
        sx.check(got is None, 'no protocol is reported')
    else:
        sx.check(sx.any([sx.all([names[0] == o, got == o.decode()]) for o in offered]),
                 'the protocol reported is the one selected', str(got))
    sx.reach('connected')


# ------------------------------------------------------------------------------------------- S04

def select(sx, prefs, offered):
    """The first preference that is offered, by conditions: [(value, condition)], none of them."""
    out, before = [], []
    for v in prefs:
        here = sx.any([o == int(v) for o in offered]) if offered else False
        out.append((int(v), sx.all([*[sx.neg(b) for b in before], here])))
        before.append(here)
    return out, (sx.neg(sx.any(before)) if before else True)


def offers(sx, name, sizes, known):
    """A list offered: any values, each also one of the known ones."""
    del known
    return [sx.int(f'{name} {i}', 0, 0xffff) for i in range(sx.choice(f'{name} number', sizes))]


def server(sx, **kw):
    conn = TLSConnection(server_config(**kw))
    conn.initiate_connection()
    return Puppet(sx, conn)


def chosen(sx, p, exc, table, none, got, label, *names):
    """What the server picked is what `table` says, or it refused and nothing was right."""
    if exc is not None:
        sx.check(none, f'{label}: refused though one is common', repr(exc))
        failed(sx, p, exc, label, *names)
        sx.reach('refused')
        return False
    sx.check(sx.neg(none), f'{label}: nothing is common')
    value = got()
    want = [cond for v, cond in table if v == value]
    sx.check(bool(want) and sx.is_true(want[0]), f'{label}: not the first preference', str(value))
    sx.reach('selected')
    return True


@case(['S04', 'A06'], quick=[{'prefs': i, 'sizes': (1, 2)} for i in range(6)],
      thorough=[{'prefs': i, 'sizes': (1, 2, 3, 4)} for i in range(6)],
      functions=SERVER, reach=('selected', 'refused'),
      bounds='every order of 3 suites preferred; any 1..2 suites offered (thorough: 1..4)')
def suites(sx):
    prefs = list(itertools.permutations((AES128, CHACHA, CCM)))[sx.p('prefs')]
    p = server(sx, cipher_suites=list(prefs))
    offered = offers(sx, 'suite', sx.p('sizes'), prefs)
    exc = p.say(CH, p.client_hello(suites=offered))
    table, none = select(sx, prefs, offered)
    if chosen(sx, p, exc, table, none, lambda: int(p.conn.nconfig.cipher_suite), 'suite',
              'HandshakeFailure'):
        reported_ = int(p.conn.nconfig.cipher_suite)
        got = p.flight()
        sx.check(p.suite == reported_, 'the suite told to the client is the one in use')
        sx.check(FIN in got, 'the flight is complete')
        p.must(p.finish(), 'the Finished')
        sx.check(p.conn.is_connected(), 'connected')


GROUP_PREFS = ([G.x25519, G.secp256r1], [G.secp256r1, G.x25519], [G.secp384r1, G.x25519],
               [G.secp256r1])

@case(['S04', 'A06'], quick=[{'prefs': i, 'sizes': (1, 2)} for i in range(4)],
      thorough=[{'prefs': i, 'sizes': (1, 2, 3, 4)} for i in range(4)],
      functions=SERVER, reach=('selected', 'refused'),
      bounds='4 lists of groups preferred; any 1..2 groups offered (thorough: 1..4) and shares of '
             'x25519 and secp256r1, in either order')
def groups(sx):
    prefs = GROUP_PREFS[sx.p('prefs')]
    p = server(sx, key_exchanges=prefs)
    offered = offers(sx, 'group', sx.p('sizes'), prefs)
    shares = (X25519, P256) if sx.bool('order') else (P256, X25519)
    exc = p.say(CH, p.client_hello(groups=offered, shares=shares))
    table, none = select(sx, prefs, offered)
    def got():
        p.pull()
        sh = p.parse_server_hello(p.received[0][1])
        return int.from_bytes(sh.exts[SHARE][:2], 'big')
    if chosen(sx, p, exc, table, none, got, 'group', 'HandshakeFailure'):
        group = got()
        sx.check(is_retry(p.received[0][1]) == (group not in shares), 'a retry when it is needed')
        reported(sx, p, key_exchange=group)


SIGNERS = {
    'ed': [S.ed25519], 'server': [S.ecdsa_secp256r1_sha256], 'p384': [S.ecdsa_secp384r1_sha384],
    'rsa': [S.rsa_pss_rsae_sha256, S.rsa_pss_rsae_sha384, S.rsa_pss_rsae_sha512],
}
ALL_SIGNATURES = [
    S.rsa_pss_pss_sha256, S.ecdsa_secp521r1_sha512, S.ecdsa_secp384r1_sha384, S.rsa_pss_rsae_sha384,
    S.ed448, S.rsa_pss_rsae_sha512, S.ed25519, S.rsa_pss_rsae_sha256, S.rsa_pkcs1_sha256,
    S.ecdsa_secp256r1_sha256, S.rsa_pss_pss_sha384]
SIGNATURE_PREFS = {'default': None, 'mixed': ALL_SIGNATURES, 'reversed': ALL_SIGNATURES[::-1],
                   'few': [S.rsa_pss_rsae_sha512, S.ed448, S.ecdsa_secp384r1_sha384]}

@case(['S04', 'A06'], quick=[{'key': k, 'prefs': i, 'sizes': (1, 2)} for k in SIGNERS
                    for i in SIGNATURE_PREFS],
      thorough=[{'key': k, 'prefs': i, 'sizes': (1, 2, 3)} for k in SIGNERS
                for i in SIGNATURE_PREFS],
      functions=SERVER, reach=(),
      bounds='keys ed25519, P-256, P-384, RSA; 4 lists of algorithms preferred; any 1..2 '
             'algorithms offered (thorough: 1..3)')
def signatures(sx):
    kw = {}
    prefs = SIGNATURE_PREFS[sx.p('prefs')]
    if prefs is not None:
        kw['signature_algorithms'] = prefs
    p = server(sx, key=sx.p('key'), **kw)
    prefs = p.conn.config.signature_algorithms
    offered = offers(sx, 'algorithm', sx.p('sizes'), prefs)
    exc = p.say(CH, p.client_hello(sigalgs=offered))
    usable = [s for s in prefs if s in SIGNERS[sx.p('key')]]
    table, none = select(sx, usable, offered)
    flight = {}
    def got():
        flight.update(p.flight())
        return int.from_bytes(flight[CV][4:6], 'big')
    if chosen(sx, p, exc, table, none, got, 'algorithm', 'HandshakeFailure'):
        algorithm = got_ = int.from_bytes(flight[CV][4:6], 'big')
        signature = flight[CV][8:]
        at = p.transcript_.index(flight[CV]) if isinstance(p.transcript_, bytes) else None
        del at
        check_signature(sx, p, flight, CERT[sx.p('key')].public_key(), algorithm, signature)
        reported(sx, p, signature_algorithm=got_)
        p.must(p.finish(), 'the Finished')


def check_signature(sx, p, flight, public, algorithm, signature):
    """The signature of the server covers the transcript up to its certificate."""
    from harness.puppet import SERVER_CONTEXT
    from harness import oracle
    tail = len(flight[CV]) + len(flight[FIN])
    text = p.after_server[:len(p.after_server) - tail]
    content = SERVER_CONTEXT + oracle.digest(p.schedule.hash, text)
    exc, _ = sx.attempt(verify, public, algorithm, signature, content)
    sx.check(exc is None, 'the signature of the server is wrong', repr(exc))


KINDS = {'x509': ('chain',), 'raw': ('key',), 'both': ('chain', 'key')}

@case(['S04', 'A03', 'A06'], params=[{'server': k} for k in KINDS], functions=SERVER,
      reach=('selected',),
      bounds='a server with a certificate, a raw key or both; no certificate type offered, or any '
             '1..3 types')
def certificate_kinds(sx):
    kw = {'private_key': KEY['ed'], 'certificate_chain': None}
    if 'chain' in KINDS[sx.p('server')]:
        kw['certificate_chain'] = [CERT['ed']]
    if 'key' in KINDS[sx.p('server')]:
        kw['public_key'] = PUBLIC['ed']
    conn = TLSConnection(TLSConfiguration('server', **kw))
    conn.initiate_connection()
    p = Puppet(sx, conn)
    x509, raw = CertificateType.X509, CertificateType.RAW_PUBLIC_KEY
    prefs = [t for t, n in ((x509, 'chain'), (raw, 'key')) if n in KINDS[sx.p('server')]]
    extra = []
    number = sx.choice('number', (None, 1, 2, 3))
    if number is None:
        offered = [int(x509)]
    else:
        offered = [sx.int(f'type {i}', 0, 255) for i in range(number)]
        extra.append(ext(SCTYPE, vec8(b''.join([u8(t) for t in offered]))))
    exc = p.say(CH, p.client_hello(extra=extra))
    table, none = select(sx, prefs, offered)
    flight = {}
    def got():
        flight.update(p.flight())
        answer = dict(parse_extensions(flight[EE][4:])).get(SCTYPE)
        sx.check((answer is None) == (number is None), 'the type is answered when it is asked')
        return int(x509) if answer is None else answer[0]
    if chosen(sx, p, exc, table, none, got, 'certificate type', 'UnsupportedCertificate',
              'HandshakeFailure'):
        kind = got_kind(flight)
        sx.check(kind is None or kind == [v for v, c in table if sx.is_true(c)][0],
                 'the certificate is of the type answered')
        reported(sx, p, server_certificate_type=kind)
        signature = flight[CV][8:]
        check_signature(sx, p, flight, PUBLIC['ed'], ED25519, signature)
        p.must(p.finish(), 'the Finished')
        sx.check(conn.is_connected(), 'connected')


def got_kind(flight):
    body = flight[CT][4:]
    if body == certificate_message(certificate_entry(der(CERT['ed']))):
        return int(CertificateType.X509)
    if body == certificate_message(certificate_entry(spki(PUBLIC['ed']))):
        return int(CertificateType.RAW_PUBLIC_KEY)
    return -1


@case(['S04', 'A06'], params=[{'server': a} for a in ALPNS], functions=SERVER, reach=('selected',),
      bounds='4 lists of protocols preferred; none, one or two protocols offered, each any of 1..3 '
             'bytes or a known one')
def protocols(sx):
    prefs = ALPNS[sx.p('server')]
    p = server(sx, alpn=prefs)
    number = sx.choice('number', (None, 1, 2))
    names, extra = [], []
    for i in range(number or 0):
        if sx.bool(f'known {i}'):
            names.append(sx.choice(f'name {i}', (b'h2', b'http/1.1', b'http/1.0')))
        else:
            names.append(sx.bytes(f'name {i}', 1, 3))
    if number is not None:
        extra.append(ext(ALPN, vec16(b''.join([vec8(n) for n in names]))))
    exc = p.say(CH, p.client_hello(extra=extra))
    wanted = [str(a).encode() for a in prefs]
    if not wanted or number is None:
        p.must(exc, 'a hello without common need for a protocol')
        flight = p.flight()
        sx.check(ALPN not in dict(parse_extensions(flight[EE][4:])), 'no protocol is answered')
        sx.check(p.conn.nconfig.alpn is None, 'no protocol is reported')
        sx.reach('selected')
        return
    if exc is not None:
        sx.check(sx.neg(sx.any([n == w for n in names for w in wanted])),
                 'refused though one is common', repr(exc))
        failed(sx, p, exc, 'protocol', 'NoApplicationProtocol')
        return
    flight = p.flight()
    answer = dict(parse_extensions(flight[EE][4:])).get(ALPN)
    got = str(p.conn.nconfig.alpn).encode()
    sx.check(answer == vec16(vec8(got)), 'the protocol answered is the one reported')
    before = []
    for w in wanted:
        here = sx.any([n == w for n in names])
        if w == got:
            sx.check(here, 'a protocol that was not offered is selected')
            sx.check(sx.neg(sx.any(before)) if before else True, 'not the first preference')
            break
        before.append(here)
    else:
        sx.fail('a protocol that is not configured is selected')
    p.must(p.finish(), 'the Finished')
    sx.reach('selected')


@case('S04', functions=SERVER, reach=('selected', 'refused'),
      bounds='any 1..3 versions offered, or none')
def versions(sx):
    p = server(sx)
    number = sx.choice('number', (None, 1, 2, 3))
    if number is None:
        body = p.client_hello(without=(VERSIONS,))
        good = False
    else:
        offered = [sx.int(f'version {i}', 0, 0xffff) for i in range(number)]
        body = p.client_hello(versions=offered)
        good = sx.any([v == 0x0304 for v in offered])
    exc = p.say(CH, body)
    if exc is not None:
        sx.check(sx.neg(good), 'TLS 1.3 is offered and refused', repr(exc))
        failed(sx, p, exc, 'version', 'ProtocolVersion')
        sx.reach('refused')
        return
    sx.check(good, 'TLS 1.3 is not offered')
    sx.check(SH in p.flight(), 'the hello is answered')
    sx.check(p.parse_server_hello(p.received[0][1]).exts.get(VERSIONS) == b'\3\4', 'TLS 1.3')
    sx.reach('selected')


@case('S04', functions=SERVER, reach=('refused', 'selected'),
      bounds='every subset of the mandatory extensions and of the key share missing, with and '
             'without an unknown one')
def mandatory(sx):
    p = server(sx)
    # without key share, a retry is sent (the test-suite of the repository asks for it)
    names = {VERSIONS: 'ProtocolVersion', GROUPS: 'MissingExtension', SIGALGS: 'MissingExtension'}
    without = [t for t in names if sx.bool(f'without {t}')]
    extra = [ext(0x0a0a, sx.bytes('unknown', 0, 2))] if sx.bool('extra') else []
    no_share = sx.bool('without share')
    exc = p.say(CH, p.client_hello(without=[*without, SHARE] if no_share else without, extra=extra))
    if without:
        failed(sx, p, exc, 'missing extension', *sorted({names[t] for t in without}))
        sx.reach('refused')
        return
    p.must(exc, 'a hello that has all')
    got = p.flight()
    if no_share:
        sx.check(is_retry(got[SH]) and FIN not in got, 'the server retries')
        p.must(p.say(CH, p.client_hello()), 'the second hello')
        got = p.flight()
    sx.check(FIN in got, 'the flight is complete')
    p.must(p.finish(), 'the Finished')
    sx.reach('selected')


# ------------------------------------------------------------------------------------------- S05

def same_hello(sx, p, cookie, group):
    """The second hello of the client follows from the first and the retry."""
    first, second = p.first, p.latest
    sx.check(second.random == first.random, 'the random changes with the retry')
    sx.check(second.session == first.session, 'the session changes with the retry')
    share = second.exts.get(SHARE)
    sx.check(share is not None and share[2:4] == u16(group), 'the share is of the group asked for')
    n = int.from_bytes(share[4:6], 'big')
    sx.check(len(share) == 6 + n and share[:2] == u16(4 + n), 'exactly one share')
    got = second.exts.get(COOKIE)
    if cookie is None:
        sx.check(got is None, 'a cookie out of nowhere')
    else:
        sx.check(got is not None and got == vec16(cookie), 'the cookie is not sent back')
    for t in first.exts:
        if t not in (SHARE, COOKIE, GROUPS):
            sx.check(t in second.exts and second.exts[t] == first.exts[t],
                     f'extension {t} changes with the retry')
    for t in second.exts:
        sx.check(t in first.exts or t == COOKIE, f'extension {t} appears with the retry')


@case(('S03', 'S05'), params=[{'client': c} for c in CLIENTS], functions=CLIENT,
      reach=('refused', 'again'),
      bounds='3 client configurations; a retry of any suite, any group or none, any version or '
             'none, any session of 0..1 bytes, no cookie or one of 1..3 bytes')
def client_retry(sx):
    conf = client_config(**CLIENTS[sx.p('client')])
    p = reach_client(sx, 'wait hello', conf=conf)
    ch = p.latest
    suite = sx.int('suite', 0, 0xffff)
    group = sx.int('group', 0, 0xffff)
    version = sx.int('version', 0, 0xffff)
    session = sx.bytes('session', 0, 1)
    has_version, has_share = sx.bool('has version'), sx.bool('has share')
    cookie = sx.bytes('cookie', 1, 3) if sx.bool('has cookie') else None
    exts = []
    if has_version:
        exts.append(ext(VERSIONS, u16(version)))
    if has_share:
        exts.append(ext(SHARE, u16(group)))
    if cookie is not None:
        exts.append(ext(COOKIE, vec16(cookie)))
    body = p.hello_retry(suite=suite, exts=exts, session=session)
    others = [int(g) for g in conf.key_exchanges[1:]]
    wrong = [
        (sx.neg(one_of(sx, suite, ch.suites)), ('IllegalParameter',)),
        (len(session) != len(ch.session), ('IllegalParameter',)),
    ]
    if has_version:
        wrong.append((version != 0x0304, ('ProtocolVersion', 'IllegalParameter')))
    else:
        wrong.append((True, ('ProtocolVersion', 'MissingExtension')))
    if has_share:
        wrong.append((sx.neg(one_of(sx, group, others)), ('IllegalParameter',)))
    else:
        # with a cookie alone, the retry is fine by the RFC but not supported
        wrong.append((True, ('IllegalParameter', 'MissingExtension')))
    before = p.transcript_
    exc = p.say(SH, body)
    if exc is not None:
        names = rejected(sx, wrong)
        sx.check(bool(names), 'a good retry is refused', repr(exc))
        failed(sx, p, exc, 'wrong retry', *names)
        sx.reach('refused')
        return
    sx.check(sx.neg(sx.any([cond for cond, _ in wrong])), 'the client follows a wrong retry')
    suite = which(sx, suite, ch.suites)
    group = which(sx, group, others)
    retry = p.transcript_[len(before):]
    p.transcript_ = before
    p.retry(suite)
    p.transcript_ = p.transcript_ + retry
    p.hello()
    same_hello(sx, p, cookie, group)
    sx.check(suite in p.latest.suites, 'the suite selected is still offered')
    p.must(p.say_hello(suite=suite, group=group), 'the hello after the retry')
    p.say_flight('ed')
    sx.check(p.conn.is_connected(), 'the client is connected after the retry')
    reported(sx, p, cipher_suite=suite, key_exchange=group)
    sx.reach('again')


@case('S05', quick=[{'sizes': z} for z in ((1, 255), (256, 16000))],
      thorough=[{'sizes': z} for z in ((1, 300), (301, 16000), (16001, 60000))], functions=CLIENT, reach=('again',),
      bounds='a cookie of any bytes and any size up to 16000 bytes (thorough: 60000)')
def cookies(sx):
    """The whole cookie is sent back, whatever it is."""
    p = reach_client(sx, 'wait hello', conf=client_config(key_exchanges=[NamedGroup(X25519), NamedGroup(P256)]))
    cookie = sx.blob('cookie', *sx.p('sizes'))
    suite = p.latest.suites[0]
    body = p.hello_retry(suite=suite, group=P256, cookie=cookie)
    p.retry(suite)
    msg = p.message(SH, body)
    while len(msg) > 16384:
        p.must(p.push(22, msg[:16384]), 'a part of the retry')
        msg = msg[16384:]
    p.must(p.push(22, msg), 'the retry')
    p.hello()
    same_hello(sx, p, cookie, P256)
    p.must(p.say_hello(suite=suite, group=P256), 'the hello after the retry')
    sx.reach('again')


@case(['S05', 'S01', 'S03'], params=[{'client': 'default'}, {'client': 'many'}], functions=CLIENT,
      reach=('refused', 'connected'),
      bounds='2 client configurations; after a retry, a hello of any suite and group, or a second '
             'retry for any group')
def client_second(sx):
    conf = client_config(**CLIENTS[sx.p('client')])
    p = reach_client(sx, 'wait hello', conf=conf)
    suite = int(sx.choice('suite', conf.cipher_suites))
    asked = int(sx.choice('asked', conf.key_exchanges[1:]))
    p.must(p.say_retry(suite=suite, group=asked, cookie=b'c' if sx.bool('cookie') else None),
           'the retry')
    p.hello()
    suite2 = sx.int('suite 2', 0, 0xffff)
    group2 = sx.int('group 2', 0, 0xffff)
    if sx.bool('second retry'):
        exc = p.say(SH, p.hello_retry(suite=suite, exts=[
            ext(VERSIONS, b'\3\4'), ext(SHARE, u16(group2))]))
        failed(sx, p, exc, 'second retry', 'UnexpectedMessage', 'IllegalParameter')
        sx.reach('refused')
        return
    share = Share(asked)
    exc = p.say(SH, p.server_hello(suite=suite2, group=group2, share=share.public))
    good = sx.all([suite2 == suite, group2 == asked])
    if exc is not None:
        sx.check(sx.neg(good), 'the hello that was announced is refused', repr(exc))
        failed(sx, p, exc, 'another selection after the retry', 'IllegalParameter')
        sx.reach('refused')
        return
    sx.check(good, 'the selection changes after the retry')
    p.suite, p.group = suite, asked
    p.pull()
    p.handshake_keys(suite, share.exchange(p.client_share(p.latest, asked)))
    p.say_flight('ed')
    sx.check(p.conn.is_connected(), 'connected')
    sx.reach('connected')


def is_retry(msg):
    return msg[0] == SH and msg[6:38] == HRR_RANDOM


@case(['S05', 'S04'], params=[{'first': f, 'second': s} for f in ('none', 'other', 'unknown')
                     for s in ('good', 'random', 'suites', 'shares', 'groups', 'both')],
      functions=SERVER,
      reach=('asked',),
      bounds='a first hello with no share, one of another group or of an unknown one; in the '
             'second, any difference of the random (32 bytes), any one or two suites, a share of '
             'any group, or any one or two groups, or such groups with a valid share of another group')
def server_retry(sx):
    prefs = sx.choice('prefs', ([G.x25519, G.secp256r1], [G.secp256r1, G.x25519]))
    suites = sx.choice('suites', ([AES128, CHACHA], [CHACHA, AES128]))
    conn = TLSConnection(server_config(key_exchanges=prefs, cipher_suites=suites))
    p = Puppet(sx, conn)
    conn.initiate_connection()
    group = int(prefs[0])
    random = b'\xa5' * 32
    offer = {'groups': (P384, X25519, P256), 'suites': (0x1301, 0x1303), 'session': b'abc'}
    first = {'none': (), 'other': (X25519 + P256 - group,), 'unknown': ()}[sx.p('first')]
    ch1 = p.client_hello(shares=first, random=random, **offer)
    if sx.p('first') == 'unknown':
        strange = sx.int('strange', 0, 0xffff)
        sx.assume(sx.neg(one_of(sx, strange, (group,))))
        exts = [e for e in (ext(VERSIONS, b'\2\3\4'), ext(GROUPS, vec16(u16(P256) + u16(X25519))),
                            ext(SIGALGS, vec16(u16(ED25519))),
                            ext(SHARE, vec16(u16(strange) + vec16(b'xy'))))]
        ch1 = p.client_hello(shares=(), exts=exts, random=random, **offer)
    p.must(p.say(CH, ch1), 'the hello')
    p.pull()
    sx.check(len(p.received) == 1 and is_retry(p.received[0][1]), 'the server retries')
    hrr = p.parse_server_hello(p.received[0][1])
    suite = int(suites[0])
    sx.check(hrr.session == b'abc', 'the session is echoed')
    sx.check(int.from_bytes(hrr.suite, 'big') == suite, 'the suite preferred')
    sx.check(hrr.exts.get(SHARE) == u16(group), 'the group preferred is asked for')
    sx.check(hrr.exts.get(VERSIONS) == b'\3\4', 'the version is told')
    sx.check(set(hrr.exts) <= {SHARE, VERSIONS}, 'nothing else is told')
    sx.check(not conn.is_connected(), 'not connected')
    sx.reach('asked')
    second = dict(offer)
    shares, good, names = (group,), True, ()
    exts = None
    if sx.p('second') == 'random':
        delta = sx.bytes('delta', 32)
        random = bytes([a ^ b for a, b in zip(random, delta, strict=True)])
        good = delta == b'\0' * 32
        names = ('IllegalParameter',)
    elif sx.p('second') == 'suites':
        second['suites'] = [sx.int(f'suite {i}', 0, 0xffff) for i in range(sx.choice('n', (1, 2)))]
        good = sx.any([s == suite for s in second['suites']])
        names = ('IllegalParameter', 'HandshakeFailure')
    elif sx.p('second') == 'both':
        other = sx.choice('other', [g for g in (P384, X25519, P256) if g != group])
        groups = [sx.int(f'group {i}', 0, 0xffff) for i in range(sx.choice('n', (1, 2)))]
        good = False
        names = ('IllegalParameter', 'HandshakeFailure')
        exts = [ext(VERSIONS, b'\2\3\4'), ext(GROUPS, vec16(b''.join([u16(g) for g in groups]))),
                ext(SIGALGS, vec16(u16(ED25519))),
                ext(SHARE, vec16(u16(other) + vec16(Share(other).public)))]
    elif sx.p('second') in ('shares', 'groups'):
        keyed, groups = [group], (P384, X25519, P256)
        if sx.p('second') == 'shares':
            keyed = [sx.int('share', 0, 0xffff)] if sx.bool('has share') else []
            good = one_of(sx, keyed[0], (group,)) if keyed else False
            names = ('IllegalParameter', 'MissingExtension')
        else:
            groups = [sx.int(f'group {i}', 0, 0xffff) for i in range(sx.choice('n', (1, 2)))]
            good = sx.any([g == group for g in groups])
            names = ('IllegalParameter', 'HandshakeFailure')
        share = Share(group)
        exts = [ext(VERSIONS, b'\2\3\4'), ext(GROUPS, vec16(b''.join([u16(g) for g in groups]))),
                ext(SIGALGS, vec16(u16(ED25519))),
                ext(SHARE, vec16(b''.join([u16(g) + vec16(share.public) for g in keyed])))]
        shares = (group,)
    exc = p.say(CH, p.client_hello(shares=shares, random=random, exts=exts, **second))
    if exc is not None:
        sx.check(sx.neg(good), 'a good second hello is refused', repr(exc))
        failed(sx, p, exc, 'wrong second hello', *names)
        return
    sx.check(good, 'a wrong second hello is accepted')
    got = p.flight()
    sx.check(SH in got and FIN in got, 'the server goes on')
    sx.check(not is_retry(got[SH]), 'a second retry is sent')
    sx.check(p.suite == suite and p.group == group, 'the selection is the one announced')
    p.must(p.finish(), 'the Finished')
    sx.check(conn.is_connected(), 'the server is connected after the retry')
    reported(sx, p, cipher_suite=suite, key_exchange=group)


GROUP_LISTS = ([G.x25519], [G.secp256r1], [G.x25519, G.secp256r1], [G.secp256r1, G.x25519],
               [G.secp384r1, G.x25519], [G.secp521r1, G.secp256r1, G.x25519])

@case('S05', params=[{'client': i} for i in range(len(GROUP_LISTS))],
      functions=(*CLIENT, *SERVER), reach=('connected',),
      bounds='real client and server, 6 x 6 lists of groups, 3 suites, any application data of 3 '
             'bytes either way')
def both(sx):
    """The whole exchange, observed from the wire alone."""
    mine, theirs = GROUP_LISTS[sx.p('client')], sx.choice('server', GROUP_LISTS)
    suite = sx.choice('suite', (AES128, AES256, CHACHA))
    common = [g for g in theirs if g in mine]
    c, s = pair(client_config(key_exchanges=mine),
                server_config(key_exchanges=theirs, cipher_suites=[suite]))
    o = Observer(sx)
    c.initiate_connection()
    s.initiate_connection()
    if not common:
        exc, _ = sx.attempt(o.pump, c, s)
        sx.check(type(exc).__name__ == 'HandshakeFailure', 'no common group', repr(exc))
        sx.check(not (c.is_connected() or s.is_connected()), 'not connected')
        return
    exc, _ = sx.attempt(o.pump, c, s)
    sx.check(exc is None, 'the handshake fails', repr(exc))
    sx.check(c.is_connected() and s.is_connected(), 'both are connected')
    sx.check(o.retries == (0 if common[0] == mine[0] else 1), 'as many retries as needed',
             str(o.retries))
    for conn in (c, s):
        sx.check(conn.nconfig.key_exchange == common[0], 'the group reported',
                 str(conn.nconfig.key_exchange))
        sx.check(conn.nconfig.cipher_suite == suite, 'the suite reported')
    a, b = sx.bytes('a', 3), sx.bytes('b', 3)
    c.send_data(a)
    s.send_data(b)
    o.pump(c, s)
    sx.check(s.data_to_read() == a and c.data_to_read() == b, 'data goes through')
    sx.reach('connected')
