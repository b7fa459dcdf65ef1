"""A03: configurations, and what a connection makes of them."""
from siotls import TLSConfiguration, TLSConnection
from siotls.iana import (
    ALPNProtocol,
    CertificateType,
    CipherSuites,
    MaxFragmentLengthOctets as Octets,
    NamedGroup,
    SignatureScheme,
)

from cryptography.x509.verification import Store

from symex.api import case

from harness.puppet import (
    ALPN, GROUPS, HEARTBEAT, MFL, SHARE, SIGALGS, VERSIONS, parse_extensions, reach_server,
)
from harness.world import CERT, HOST, KEY, client_config, pair, server_config, u16, u8, vec16, vec8

CCTYPE, SCTYPE, STATUS, SNI = 19, 20, 5, 0
CONFIGURATION = ('siotls.configuration:TLSConfiguration.__post_init__',
                 'siotls.configuration:TLSConfiguration._check_mandatory_settings',
                 'siotls.configuration:TLSConfiguration._check_server_settings',
                 'siotls.configuration:TLSConfiguration._check_client_settings',
                 'siotls.configuration:TLSConfiguration.certificate_types',
                 'siotls.configuration:TLSConfiguration.peer_certificate_types',
                 'siotls.configuration:TLSConfiguration.require_peer_authentication')
SIZES = {512: 1, 1024: 2, 2048: 3, 4096: 4}


@case('A03', params=[{'side': s} for s in ('client', 'server')], functions=CONFIGURATION,
      reach=('refused', 'accepted'),
      bounds='default, given or one empty of: suites, groups, signature algorithms; every '
             'combination of present or absent: trust store, trusted keys, private key, public key, certificate chain, host names; '
             'every fragment length')
def construction(sx):
    side = sx.p('side')
    kw = {}
    wrong = False
    mandatory = {'cipher_suites': [CipherSuites.TLS_AES_128_GCM_SHA256],
                 'key_exchanges': [NamedGroup.x25519],
                 'signature_algorithms': [SignatureScheme.ed25519]}
    what = sx.choice('mandatory', ('default', 'given', *mandatory))
    if what != 'default':
        kw.update(mandatory)
    if what in mandatory:
        kw[what] = []
        wrong = True
    size = sx.choice('length', tuple(Octets))
    kw['max_fragment_length'] = size
    given = {}
    for name, value, empty in (
            ('private_key', KEY['ed'], None), ('public_key', KEY['ed'].public_key(), None),
            ('certificate_chain', [CERT['ed']], []), ('trust_store', Store([CERT['ca']]), None),
            ('trusted_public_keys', [KEY['ed2'].public_key()], []),
            ('server_hostnames', [HOST], [])):
        given[name] = sx.bool(name)
        kw[name] = value if given[name] else empty
    if side == 'server':
        wrong |= (size != Octets.MAX_16384 or not given['private_key']
                  or not (given['public_key'] or given['certificate_chain']))
    else:
        wrong |= given['server_hostnames']
    exc, conf = sx.attempt(lambda: TLSConfiguration(side, **kw))
    if wrong:
        sx.check(exc is not None, 'an inconsistent configuration is accepted')
        sx.reach('refused')
        return
    sx.check(exc is None, 'a consistent configuration is refused', repr(exc))
    sx.check(conf.require_peer_authentication == (given['trust_store'] or given['trusted_public_keys']),
             'the peer is authenticated exactly when some trust is configured')
    x509, raw = CertificateType.X509, CertificateType.RAW_PUBLIC_KEY
    sx.check(list(conf.certificate_types) == [t for t, n in (
        (x509, 'certificate_chain'), (raw, 'public_key')) if given[n]], 'types of certificate offered')
    sx.check(list(conf.peer_certificate_types) == [t for t, n in (
        (x509, 'trust_store'), (raw, 'trusted_public_keys')) if given[n]],
        'types of certificate accepted')
    sx.check(conf.side == side and conf.other_side == ('client' if side == 'server' else 'server'),
             'the sides')
    for name, value in kw.items():
        sx.check(getattr(conf, name) is value, f'{name} is the one given')
    for name in ('cipher_suites', 'key_exchanges', 'signature_algorithms'):
        sx.check(len(getattr(conf, name)) > 0, f'{name} by default')
    exc, _ = sx.attempt(setattr, conf, 'trust_store', None)
    sx.check(exc is not None and conf.trust_store is kw['trust_store'], 'a configuration changes')
    hostname = sx.choice('hostname', (None, '', HOST))
    exc, _ = sx.attempt(lambda: TLSConnection(conf, server_hostname=hostname))
    sx.check((exc is not None) == (side == 'server' and bool(hostname)),
             'only the client connects to a host', repr(exc))
    sx.reach('accepted')


def pick(sx, name, members):
    """Any of the members of the enumeration."""
    members = list(members)
    v = sx.int(name, min(members), max(members))
    sx.assume(sx.any([v == int(m) for m in members]))
    return type(members[0])(v)


def sent_hello(sx, conf, hostname=None, **kw):
    conn = TLSConnection(conf, server_hostname=hostname, **kw)
    exc, _ = sx.attempt(conn.initiate_connection)
    sx.check(exc is None, 'the connection does not start', repr(exc))
    data = bytes(conn.data_to_send())if not sx.symbolic else conn.data_to_send()
    sx.check(data[0] == 22 and data[5] == 1, 'a ClientHello')
    body = data[9:]
    at = 35 + body[34]
    n = body[at] * 256 + body[at + 1]
    suites = body[at + 2:at + 2 + n]
    at += 2 + n
    at += 1 + body[at]
    return suites, dict(parse_extensions(body[at:]))


OFFER = ('siotls.states.client.start:ClientStart.initiate_connection',
         'siotls.contents.handshakes.client_hello:ClientHello.serialize_body')


@case('A03', params=[{'vary': v} for v in ('algorithms', 'groups', 'suites', 'rest')],
      functions=OFFER + CONFIGURATION[4:], reach=('sent',),
      bounds='any 1..3 suites, any 1..3 signature algorithms, any 1..3 groups the first of which is '
             'x25519 or secp256r1; no host name, a name, an IPv4 or an IPv6 address; every fragment '
             'length; 4 lists of protocols; every combination of trust and key material')
def offer(sx):
    vary = sx.p('vary')
    kw = {}
    suites, groups, algorithms = [0x1303, 0x1302, 0x1301], [29, 23], None
    if vary == 'suites':
        n = sx.choice('number', (1, 2, 3))
        kw['cipher_suites'] = suites = [pick(sx, f'suite {i}', [
            m for m in CipherSuites if 0x1301 <= m <= 0x1305]) for i in range(n)]
        sx.assume(sx.all([sx.neg(a == b) for i, a in enumerate(suites) for b in suites[:i]]))
    if vary == 'groups':
        n = sx.choice('number', (1, 2, 3))
        kw['key_exchanges'] = groups = [sx.choice('first', (NamedGroup.x25519, NamedGroup.secp256r1))] + [
            pick(sx, f'group {i}', NamedGroup) for i in range(1, n)]
    if vary == 'algorithms':
        n = sx.choice('number', (1, 2, 3))
        kw['signature_algorithms'] = algorithms = [pick(sx, f'algorithm {i}', SignatureScheme)
                                                   for i in range(n)]
    hostname, size, protocols, echo = None, 16384, [], True
    store = keys = chain = public = False
    if vary == 'rest':
        hostname = sx.choice('host', (None, HOST, '192.0.2.7', '2001:db8::1'))
        size = sx.choice('length', (16384, 512, 1024, 2048, 4096))
        protocols = sx.choice('protocols', ([], ['h2'], ['http/1.1', 'h2'], ['http/0.9']))
        echo = sx.bool('echo')
        store, keys, chain, public = (sx.bool(n) for n in ('store', 'keys', 'chain', 'public'))
        kw.update(max_fragment_length=Octets(size), alpn=[ALPNProtocol(a) for a in protocols],
                  can_echo_heartbeat=echo)
        if store:
            kw['trust_store'] = Store([CERT['ca']])
        if keys:
            kw['trusted_public_keys'] = [KEY['ed'].public_key()]
        if chain:
            kw.update(private_key=KEY['ed'], certificate_chain=[CERT['ed']])
        if public:
            kw.update(private_key=KEY['ed'], public_key=KEY['ed'].public_key())
    conf = client_config(**kw)
    offered, exts = sent_hello(sx, conf, hostname)

    def listed(values):
        return b''.join([u16(int(v) if not sx.is_symbolic(v) else v) for v in values])
    sx.check(offered == listed(suites), 'the suites, in order')
    sx.check(exts[VERSIONS] == vec8(u16(0x0304)), 'the version')
    sx.check(exts[GROUPS] == vec16(listed(groups)), 'the groups, in order')
    sx.check(exts[SIGALGS] == vec16(listed(
        algorithms if algorithms is not None else conf.signature_algorithms)),
        'the signature algorithms, in order')
    sx.check(exts[SHARE][2:4] == u16(groups[0]), 'a share for the first group')
    sx.check(exts[HEARTBEAT] == u8(1 if echo else 2), 'whether heartbeats are allowed')
    name = hostname == HOST
    sx.check(exts.get(SNI) == (vec16(u8(0) + vec16(HOST.encode())) if name else None), 'the name')
    sx.check(exts.get(MFL) == (u8(SIZES[size]) if size in SIZES else None), 'the fragment length')
    sx.check(exts.get(ALPN) == (vec16(b''.join([vec8(p.encode()) for p in protocols]))
                                if protocols else None), 'the protocols, in order')
    kinds = {CCTYPE: [t for t, on in ((0, chain), (2, public)) if on],
             SCTYPE: [t for t, on in ((0, store), (2, keys)) if on]}
    for number, types in kinds.items():
        if types in ([], [0]):
            # X.509 is what the absence means
            sx.check(exts.get(number) in (None, vec8(b'\0')), 'types of certificate')
        else:
            sx.check(exts.get(number) == vec8(bytes(types)), 'types of certificate')
    sx.check((STATUS in exts) == store, 'the status of the certificate is asked for')
    sx.reach('sent')


@case(['A03', 'S04'],
      functions=('siotls.states.server.wait_client_hello:ServerWaitClientHello.process',
                        'siotls.states.server.wait_client_hello:'
                        'ServerWaitClientHello._request_user_certificate',
                        'siotls.states.server.wait_client_hello:'
                        'ServerWaitClientHello._negociate_client_certificate_type'),
      reach=('asked', 'not asked', 'refused'),
      bounds='a server with any of: trust store, trusted keys; any 1..3 signature algorithms; a '
             'client that announces any list of 1..2 client certificate types, or none')
def client_certificates(sx):
    store, keys = sx.bool('store'), sx.bool('keys')
    n = sx.choice('number', (0, 1, 2))
    algorithms = [pick(sx, f'algorithm {i}', SignatureScheme) for i in range(n)]
    kw = {}
    if store:
        kw['trust_store'] = Store([CERT['ca']])
    if keys:
        kw['trusted_public_keys'] = [KEY['ed2'].public_key()]
    conf = server_config(signature_algorithms=[SignatureScheme.ed25519, *algorithms], **kw)
    announced = None
    count = sx.choice('announced', (None, 1, 2))
    if count:
        announced = sx.bytes('types', count)
    p = reach_server(sx, 'wait hello', conf=conf)
    extra = () if announced is None else (u16(CCTYPE) + vec16(vec8(announced)),)
    exc = p.say(1, p.client_hello(extra=extra))
    types = [0] if announced is None else list(announced)
    mine = [t for t, on in ((0, store), (2, keys)) if on]
    common = sx.any([t == m for t in types for m in mine])
    if (store or keys) and sx.is_true(sx.neg(common)):
        sx.check(exc is not None, 'no common type of certificate')
        sx.reach('refused')
        return
    if not (store or keys):
        p.must(exc, 'the hello')
    # else what comes after the flight is missing: a finding of W04
    flight = p.flight()
    if not (store or keys):
        sx.check(13 not in flight, 'a certificate is requested without trust')
        sx.reach('not asked')
        return
    sx.check(13 in flight, 'no certificate is requested while some trust is configured')
    body = flight[13][4:]
    exts = dict(parse_extensions(body[1 + body[0]:]))
    sx.check(exts.get(SIGALGS) == vec16(b''.join([u16(v) for v in [0x0807, *algorithms]])),
             'the signature algorithms of the request')
    ee = dict(parse_extensions(flight[8][4:]))
    selected = ee.get(CCTYPE)
    if selected is None:
        sx.check(sx.all([0 in mine, sx.any([t == 0 for t in types])]), 'X.509 is selected')
    else:
        sx.check(sx.all([len(selected) == 1, sx.any([selected[0] == t for t in types]),
                         sx.any([selected[0] == m for m in mine])]), 'the type selected')
    sx.reach('asked')


@case(['A03', 'S10'], functions=('siotls.configuration:TLSConfiguration.policy_builder',),
      reach=('refused', 'connected'),
      bounds='a chain of two certificates under the root; every maximum depth 0..5')
def depth(sx):
    most = sx.choice('depth', (0, 1, 2, 3, 4, 5))
    c, s = pair(client_config(trust_store=Store([CERT['ca']]), max_chain_depth=most),
                server_config('server', chain=['leaf', 'mid']), hostname=HOST)
    c.initiate_connection()
    s.initiate_connection()

    def pump():
        for _ in range(4):
            for me, other in ((c, s), (s, c)):
                data = me.data_to_send()
                if data:
                    other.receive_data(data)
    exc, _ = sx.attempt(pump)
    if most < 1:
        sx.check(exc is not None and not c.is_connected(), 'a chain too long is accepted')
        sx.reach('refused')
        return
    sx.check(exc is None and c.is_connected(), 'a chain short enough is refused', repr(exc))
    sx.reach('connected')




# the algorithms of RFC 8446 section 4.2.3 that suit each kind of key
SUITABLE = {'ed': (0x0807,), 'ed448': (0x0808,), 'server': (0x0403,), 'p384': (0x0503,), 'p521': (0x0603,),
            'rsa': (0x0804, 0x0805, 0x0806), 'rsapss': (0x0809, 0x080a, 0x080b)}

@case('A03', functions=('siotls.configuration:TLSConfiguration.__post_init__',), reach=('connected',),
      bounds='a server of each kind of key, with a certificate or (but RSA-PSS) a raw key; a client that '
             'trusts nobody or that key; any fragment length; the default lists of algorithms, or on one side '
             'the last entry only of each of them')
def defaults(sx):
    """Configurations that name no algorithm get along, whatever the kind of key of the server."""
    key = sx.choice('key', tuple(SUITABLE))
    # a raw RSA key does not tell that it is meant for PSS only
    trusted = [CERT[key].public_key()] if key != 'rsapss' and sx.bool('trusted') else []
    size = sx.choice('size', (*SIZES, 16384))
    last = sx.choice('last only', (None, 'client', 'server'))

    def few(side):
        if last != side:
            return {}
        d = TLSConfiguration('client')
        return {'cipher_suites': d.cipher_suites[-1:], 'key_exchanges': d.key_exchanges[-1:]}
    kw = {} if not trusted else {'certificate_chain': None, 'public_key': trusted[0]}
    c, s = pair(client_config(trusted_public_keys=trusted, max_fragment_length=size, **few('client')),
                server_config(key, **kw, **few('server')), hostname=HOST)
    c.initiate_connection()
    s.initiate_connection()

    def pump():
        for _ in range(4):
            for me, other in ((c, s), (s, c)):
                data = me.data_to_send()
                if data:
                    other.receive_data(data)
    exc, _ = sx.attempt(pump)
    sx.check(exc is None and c.is_connected() and s.is_connected(), 'defaults do not get along', repr(exc))
    sx.check(c.nconfig.signature_algorithm in SUITABLE[key], 'the algorithm suits the key')
    sx.check(s.nconfig.signature_algorithm == c.nconfig.signature_algorithm, 'both sides agree')
    sx.reach('connected')
