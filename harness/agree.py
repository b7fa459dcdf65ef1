"""A06: what both ends report once connected; A05: the key log."""
import logging

from siotls import TLSError, key_logger
from siotls.contents import Heartbeat
from siotls.crypto.ciphers import TLSCipherSuite
from siotls.iana import ALPNProtocol, CipherSuites, HeartbeatMessageType, NamedGroup, SignatureScheme

from cryptography.x509.verification import Store

from symex.api import case

from harness import oracle
from harness.keys import randomise
from harness.observe import Observer
from harness.puppet import ALPN, HEARTBEAT, MFL, SCTYPE, SHARE, ext, parse_extensions, reach_client, reach_server
from harness.world import CERT, HOST, KEY, client_config, der, pair, server_config, spki, u16, u8, vec16, vec8

SUITE_LIST = [{'suite': n} for n in oracle.SUITES]
C, G, S = CipherSuites, NamedGroup, SignatureScheme
WAIT = ('siotls.states.client.wait_finished:ClientWaitFinished.process',
        'siotls.states.server.wait_finished:ServerWaitFinished.process',
        'siotls.configuration:TLSNegotiatedConfiguration.__setattr__',
        'siotls.states.client.wait_encrypted_extensions:ClientWaitEncryptedExtensions.process',
        'siotls.states.client.wait_server_hello:ClientWaitServerHello.process',
        'siotls.states.server.wait_client_hello:ServerWaitClientHello._negociate')

SUITES = ([C.TLS_AES_128_GCM_SHA256], [C.TLS_AES_256_GCM_SHA384, C.TLS_AES_128_GCM_SHA256],
          [C.TLS_CHACHA20_POLY1305_SHA256, C.TLS_AES_256_GCM_SHA384, C.TLS_AES_128_GCM_SHA256])
GROUPS = ([G.x25519], [G.secp256r1, G.x25519], [G.x25519, G.secp256r1], [G.x448, G.secp384r1])
PROTOCOLS = ([], ['h2'], ['http/1.1', 'h2'], ['ftp'])
LENGTHS = (16384, 512, 2048)
KEYS = ('ed', 'server', 'rsa')
SERVERS = ('x509', 'raw', 'both')          # what the server has
TRUSTS = ('nothing', 'x509', 'raw', 'both')  # what the client trusts
FIELDS = ('cipher_suite', 'key_exchange', 'signature_algorithm', 'alpn', 'max_fragment_length',
          'server_certificate_type')

MORE = ('can_send_heartbeat', 'can_echo_heartbeat', 'client_certificate_type',
        'peer_want_ocsp_stapling', 'peer_certificate', 'peer_public_key')


def configurations(sx, vary):
    """A pair of configurations; only the settings in `vary` are not the usual ones."""
    def pick(name, options, default=0):
        return sx.choice(name, options) if name in vary else options[default]
    suites = pick('client suites', SUITES, 2), pick('server suites', SUITES, 2)
    groups = pick('client groups', GROUPS, 2), pick('server groups', GROUPS, 2)
    protocols = pick('client protocols', PROTOCOLS), pick('server protocols', PROTOCOLS)
    key = pick('key', KEYS)
    kind = pick('server has', SERVERS)
    trust = pick('client trusts', TRUSTS)
    echo = pick('client echoes', (True, False)), pick('server echoes', (True, False))
    length = pick('length', LENGTHS)
    algorithms = {}
    if 'algorithms' in vary:
        algorithms = {'signature_algorithms': sx.choice('algorithms', (
            [S.ed25519, S.ecdsa_secp256r1_sha256, S.rsa_pss_rsae_sha512, S.rsa_pss_rsae_sha256],
            [S.rsa_pss_rsae_sha384, S.ecdsa_secp256r1_sha256, S.ed25519]))}
    ckw, skw = {}, {}
    if trust in ('x509', 'both'):
        ckw['trust_store'] = Store([CERT['ca']])
    if trust in ('raw', 'both'):
        ckw['trusted_public_keys'] = [CERT[key].public_key()]
    public = CERT[key].public_key()
    if kind in ('raw', 'both'):
        skw['public_key'] = public
    if kind == 'raw':
        skw['certificate_chain'] = None
    client = client_config(cipher_suites=list(suites[0]), key_exchanges=list(groups[0]),
                           alpn=[ALPNProtocol(a) for a in protocols[0]], can_echo_heartbeat=echo[0],
                           max_fragment_length=length, **algorithms, **ckw)
    server = server_config(key, cipher_suites=list(suites[1]), key_exchanges=list(groups[1]),
                           alpn=[ALPNProtocol(a) for a in protocols[1]], can_echo_heartbeat=echo[1], **skw)
    return client, server


def frozen(sx, conn):
    n = conn.nconfig
    for name in (*FIELDS, *MORE, 'another'):
        before = getattr(n, name, None)
        exc, _ = sx.attempt(setattr, n, name, None)
        sx.check(exc is not None, f'{name} can be changed once connected')
        sx.check(getattr(n, name, None) is before, f'{name} changed once connected')
        if name != 'another':
            exc, _ = sx.attempt(delattr, n, name)
            sx.check(exc is not None and hasattr(n, name), f'{name} can be removed once connected')


VARY = {'suites': ('client suites', 'server suites', 'key'),
        'groups': ('client groups', 'server groups'),
        'protocols': ('client protocols', 'server protocols'),
        'certificates': ('server has', 'client trusts', 'key'),
        'algorithms': ('algorithms', 'key', 'client suites'),
        'rest': ('client echoes', 'server echoes', 'length')}

@case('A06', quick=[{'vary': (v,)} for v in VARY],
      thorough=[{'vary': (v,)} for v in VARY] + [{'vary': v} for v in (
          ('suites', 'groups'), ('protocols', 'rest'), ('groups', 'rest'))],
      functions=WAIT, reach=('connected',),
      bounds='pairs of configurations: 3x3 lists of suites with 3 keys, 4x4 lists of groups, 4x4 lists '
             'of protocols, 3 kinds of server keys and 4 kinds of trust with 3 keys, 2 lists of '
             'algorithms, heartbeats allowed or not on each side with 3 fragment lengths')
def agreement(sx):
    vary = tuple(n for v in sx.p('vary') for n in VARY[v])
    cc, sc = configurations(sx, vary)
    c, s = pair(cc, sc, hostname=HOST if cc.require_peer_authentication else None)
    o = Observer(sx)
    c.initiate_connection()
    s.initiate_connection()
    exc, _ = sx.attempt(o.pump, c, s)
    if exc is not None:
        sx.check(isinstance(exc, TLSError), 'no TLS error', f'{type(exc).__name__}: {exc}')
        # each side may only be connected as long as it doesn't know about the failure of the other
        sx.check(not (c.is_connected() and s.is_connected()), 'connected after an error', repr(exc))
        sx.reach('failed')
        return
    sx.check(c.is_connected() and s.is_connected(), 'both sides are connected')
    for name in FIELDS:
        a, b = getattr(c.nconfig, name), getattr(s.nconfig, name)
        sx.check(a == b, f'both report the same {name}', f'{a!r} and {b!r}')
    n = c.nconfig
    # the wire tells the truth
    hello = next(m for _, t, m in o.messages if t == 2 and m[6:38] != _HRR)
    at = 4 + 35 + hello[38]
    sx.check(int(n.cipher_suite) == int.from_bytes(hello[at:at + 2], 'big'), 'the suite in use')
    share = dict(parse_extensions(hello[at + 3:]))[SHARE]
    sx.check(int(n.key_exchange) == int.from_bytes(share[:2], 'big'), 'the group in use')
    ee = dict(parse_extensions(next(m for _, t, m in o.messages if t == 8)[4:]))
    sx.check((vec16(vec8(n.alpn.encode())) if n.alpn is not None else None) == ee.get(ALPN), 'the protocol in use')
    proof = next(m for _, t, m in o.messages if t == 15)
    sx.check(int(n.signature_algorithm) == int.from_bytes(proof[4:6], 'big'), 'the algorithm in use')
    cert = next(m for _, t, m in o.messages if t == 11)
    size = int.from_bytes(cert[8:11], 'big')
    entry = cert[11:11 + size]
    raw = int(n.server_certificate_type) == 2
    public = sc.certificate_chain[0].public_key() if sc.certificate_chain else sc.public_key
    sx.check(entry == (spki(public) if raw else der(sc.certificate_chain[0])), 'the certificate type in use')
    if raw:
        sx.check(spki(n.peer_public_key) == spki(public), 'the key of the peer')
    else:
        sx.check(n.peer_certificate == sc.certificate_chain[0], 'the certificate of the peer')
    sx.check(int(n.max_fragment_length) == int(cc.max_fragment_length), 'the length in use')
    for me, mine, other in ((c, cc, sc), (s, sc, cc)):
        sx.check(me.nconfig.can_send_heartbeat == other.can_echo_heartbeat, 'what the other side allows')
        sx.check(me.nconfig.can_echo_heartbeat == mine.can_echo_heartbeat, 'what this side allows')
        frozen(sx, me)
    for me, peer in ((c, s), (s, c)):
        me.close_sending_end()
        peer.receive_data(me.data_to_send())
    frozen(sx, c)
    frozen(sx, s)
    sx.reach('connected')


_HRR = bytes.fromhex('CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')


@case('A06', params=[{'side': s} for s in ('client', 'server')],
      functions=('siotls.states.client.wait_encrypted_extensions:'
                 'ClientWaitEncryptedExtensions._negociate_heartbeat',
                 'siotls.states.server.wait_client_hello:ServerWaitClientHello._negociate_heartbeat',
                 'siotls.connection:TLSConnection._send_content'), reach=('sent', 'forbidden'),
      bounds='a peer that announces any heartbeat mode or none, allowed here or not; a request or an '
             'answer of any payload of 0..4 bytes')
def heartbeat(sx):
    mode = sx.choice('mode', (None, 1, 2))
    echo = sx.bool('echo')
    exts = () if mode is None else (ext(HEARTBEAT, u8(mode)),)
    if sx.p('side') == 'client':
        p = reach_client(sx, 'connected', conf=client_config(can_echo_heartbeat=echo), exts=exts)
        got = p.first.exts.get(HEARTBEAT)
        sx.check(got == u8(1 if echo else 2), 'the client announces what it allows')
    else:
        p = reach_server(sx, 'wait hello', conf=server_config(can_echo_heartbeat=echo))
        p.must(p.say(1, p.client_hello(extra=exts)), 'the hello')
        ee = dict(parse_extensions(p.flight()[8][4:]))
        sx.check(ee.get(HEARTBEAT) == (None if mode is None else u8(1 if echo else 2)),
                 'the server announces what it allows')
        p.must(p.finish(), 'the Finished')
    conn = p.conn
    sx.check(conn.nconfig.can_send_heartbeat == (mode == 1), 'what the peer allows')
    sx.check(conn.nconfig.can_echo_heartbeat == (echo and mode is not None), 'what is allowed here')
    payload = sx.bytes('payload', 0, 4)
    kind = sx.choice('type', (1, 2))
    before = len(p.contents)
    exc, _ = sx.attempt(conn._send_content, Heartbeat(HeartbeatMessageType(kind), payload, b'\0' * 16))
    p.pull()
    new = p.contents[before:]
    if kind == 1 and mode != 1:
        sx.check(isinstance(exc, TLSError), 'a heartbeat that the peer does not allow', repr(exc))
        sx.check(not new, 'a forbidden heartbeat was sent')
        sx.reach('forbidden')
        return
    sx.check(exc is None, 'a heartbeat that the peer allows is refused', repr(exc))
    sx.check(len(new) == 1 and new[0][0] == 24 and new[0][2], 'one protected heartbeat')
    sx.check(new[0][1] == u8(kind) + vec16(payload) + b'\0' * 16, 'the heartbeat')
    sx.reach('sent')


# ------------------------------------------------------------------------------------------- A05

ROOT, TOP = logging.getLogger(), logging.getLogger('siotls')
LINES = {'CLIENT_HANDSHAKE_TRAFFIC_SECRET': 'c_hs', 'SERVER_HANDSHAKE_TRAFFIC_SECRET': 's_hs',
         'CLIENT_TRAFFIC_SECRET_0': 'c_ap', 'SERVER_TRAFFIC_SECRET_0': 's_ap',
         'EXPORTER_SECRET': 'exporter'}
KEYLOG = ('siotls.crypto.ciphers:TLSCipherSuite.__init__',
          'siotls.crypto.ciphers:TLSCipherSuite.derive_handshake_secrets',
          'siotls.crypto.ciphers:TLSCipherSuite.derive_master_secrets')


class Keep(logging.Handler):
    """Keeps every record it is given."""
    def __init__(self, records):
        super().__init__(logging.NOTSET)
        self.records = records

    def handle(self, record):
        self.records.append(record)

    emit = handle


def listen(sx, loud=True):
    """What the key logger, and what any other logger, is given from now on."""
    kept = {key_logger: [], TOP: [], ROOT: []}
    for log, records in kept.items():
        handler = Keep(records)
        level = log.level
        log.addHandler(handler)
        if log is not key_logger:
            log.setLevel(logging.DEBUG if loud else logging.CRITICAL + 1)
        sx.cleanup(lambda log=log, handler=handler, level=level: (
            log.removeHandler(handler), log.setLevel(level)))
    # what the level of the key log is, is not a request
    key_logger.setLevel(1 if loud else logging.DEBUG)
    return kept[key_logger], (kept[TOP], kept[ROOT])


def text(record):
    """The message of a record, that may be made of symbolic text."""
    msg, args = record.msg, record.args
    if not args:
        return msg
    parts = msg.split('%s')
    if len(parts) != len(args) + 1 or '%' in ''.join(parts):
        return record.getMessage()
    out = parts[0]
    for arg, part in zip(args, parts[1:]):
        out = out + (arg if isinstance(arg, str) else str(arg)) + part
    return out


def everything(record):
    yield text(record)
    if record.exc_info:
        exc = record.exc_info[1]
        while exc is not None:
            yield repr(exc)
            exc = exc.__cause__ or exc.__context__


def leaks(sx, others, secrets):
    """None of the secrets, in any of the forms that one would log, is in the records."""
    for records in others:
        for record in records:
            sx.check(record.name != key_logger.name, 'the key log reached another logger')
            for arg in record.args if isinstance(record.args, tuple) else ():
                for name, secret in secrets.items() if isinstance(arg, (bytes, bytearray)) else ():
                    sx.check(sx.neg(sx.any([arg[i:i + len(secret)] == secret
                                            for i in range(len(arg) - len(secret) + 1)])),
                             f'{name} given to a logger', record.name)
            for said in everything(record):
                for name, secret in secrets.items():
                    if sx.is_symbolic(secret) and not sx.is_symbolic(said):
                        continue       # a constant isn't a function of the unknowns
                    for form in (secret.hex(), secret.hex().upper()):
                        found = sx.any([said[i:i + len(form)] == form
                                        for i in range(len(said) - len(form) + 1)])
                        sx.check(sx.neg(found), f'{name} given to a logger', record.name)
                    if not sx.is_symbolic(secret) and not sx.is_symbolic(said):
                        sx.check(repr(secret)[2:-1] not in said and str(list(secret)) not in said
                                 and str(int.from_bytes(secret, 'big')) not in said,
                                 f'{name} given to a logger', record.name)


def logged(sx, records, random, secrets, times, who):
    """The records are the lines of the secrets, each the number of times."""
    counts = dict.fromkeys(secrets, 0)
    for record in records:
        said = text(record)
        for label, name in LINES.items():
            if said.startswith(label + ' '):
                sx.check(name in secrets, f'{who}: {label} is logged too early')
                sx.check(said == label + ' ' + random.hex() + ' ' + secrets[name].hex(),
                         f'{who}: the line {label} has the random and the secret')
                counts[name] += 1
                break
        else:
            sx.fail(f'{who}: another line in the key log')
    for name, n in counts.items():
        sx.check(n == times, f'{who}: {name} is logged {times} times', n)


def secret_values(schedule):
    return {name: getattr(schedule, name) for name in LINES.values() if hasattr(schedule, name)}


@case('A05', params=[dict(s, side=side) for s in SUITE_LIST for side in ('client', 'server')],
      functions=KEYLOG, reach=('logged', 'silent'),
      bounds='any client random, any shared secret of 32 bytes, any transcript hashes')
def lines(sx):
    suite = sx.p('suite')
    random = sx.bytes('random', 32)
    shared = sx.bytes('shared', 32)
    schedule = oracle.Schedule(suite)
    size = schedule.size
    hashes = [sx.bytes(f'hash {i}', size) for i in range(3)]
    on = sx.bool('log keys')
    keys, others = listen(sx)
    exc, it = sx.attempt(lambda: TLSCipherSuite[CipherSuites(suite)](sx.p('side'), random, log_keys=on))
    sx.check(exc is None, 'refused', exc)
    it.skip_early_secrets()
    it.derive_handshake_secrets(shared, hashes[0])
    schedule.handshake(shared, hashes[0])
    if on:
        logged(sx, keys, random, secret_values(schedule), 1, 'handshake')
    it.derive_master_secrets(hashes[1], hashes[2])
    schedule.master(hashes[1], hashes[2])
    if on:
        logged(sx, keys, random, secret_values(schedule), 1, 'master')
        sx.reach('logged')
    else:
        sx.check(not keys, 'something in the key log while it is off')
        sx.reach('silent')
    leaks(sx, others, dict(secret_values(schedule), resumption=schedule.resumption, shared=shared))


@case('A05', params=[dict(s, side=side) for s in SUITE_LIST for side in ('client', 'server')],
      functions=('siotls.crypto.ciphers:TLSCipherSuite.derive_early_secrets',),
      reach=('logged', 'silent'),
      bounds='any client random, any pre-shared key of 32 bytes, any transcript hash')
def early_line(sx):
    suite = sx.p('suite')
    random = sx.bytes('random', 32)
    psk = sx.bytes('psk', 32)
    schedule = oracle.Schedule(suite, psk)
    hello = sx.bytes('hash', schedule.size)
    on = sx.bool('log keys')
    keys, others = listen(sx)
    it = TLSCipherSuite[CipherSuites(suite)](sx.p('side'), random, log_keys=on)
    exc, _ = sx.attempt(it.derive_early_secrets, psk, 'external', hello)
    sx.check(exc is None, 'refused', exc)
    schedule.early('external', hello)
    if on:
        sx.check(len(keys) == 1, 'one line for the early secret', len(keys))
        sx.check(text(keys[0]) == 'CLIENT_EARLY_TRAFFIC_SECRET ' + random.hex() + ' ' + schedule.c_e.hex(),
                 'the line of the early secret')
        sx.reach('logged')
    else:
        sx.check(not keys, 'something in the key log while it is off')
        sx.reach('silent')
    leaks(sx, others, {'the binder key': schedule.binder, 'c_e': schedule.c_e, 'the psk': psk,
                       'the early exporter secret': schedule.early_exporter})


@case('A05', quick=[{'suite': s, 'retry': r, 'randoms': a} for s, r, a in (
          (0x1301, False, 'any'), (0x1302, True, 'any'), (0x1303, False, 'any'), (0x1302, False, 'real'))],
      thorough=[dict(s, retry=r, randoms=a) for s in SUITE_LIST for r in (False, True)
                for a in ('any', 'real')],
      functions=KEYLOG + WAIT[:2] + ('siotls.connection:TLSConnection.initiate_connection',),
      reach=('client', 'server', 'both', 'nobody', 'failed'),
      bounds='whole handshakes for any randoms of both sides (and for drawn ones, where the logged '
             'representations of values are read as well), each side with and without the key '
             'log, with and without a retry, complete or with a server Finished, or a record of the '
             'client, spoiled on the way')
def handshakes(sx):
    suite = CipherSuites(sx.p('suite'))
    who = sx.choice('who', ('client', 'server', 'both', 'nobody'))
    spoiled = sx.choice('spoiled', (None, 'client', 'server'))
    groups = ([G.x25519, G.secp256r1], [G.secp256r1]) if sx.p('retry') else ([G.x25519],) * 2
    client, server = pair(
        client_config(cipher_suites=[suite], key_exchanges=groups[0], log_keys=who in ('client', 'both')),
        server_config(cipher_suites=[suite], key_exchanges=groups[1], log_keys=who in ('server', 'both')))
    keys, others = listen(sx)
    watch = Observer(sx)
    if sx.p('randoms') == 'any':
        randomise(sx, client, server)
    random = client._client_unique
    client.initiate_connection()
    server.initiate_connection()
    spoil = [spoiled]

    def pump():
        for _ in range(8):
            for me, other, side in ((client, server, 'client'), (server, client, 'server')):
                data = me.data_to_send()
                if not len(data):
                    continue
                watch.feed(side, data)
                if spoil[0] == side and watch.protection[side] is not None:
                    # the last byte of the last record is one of its tag
                    data = data[:-1] + bytes([data[-1] ^ 1])
                    spoil[0] = None
                other.receive_data(data)
    exc, _ = sx.attempt(pump)
    schedule = watch.schedule
    if spoiled:
        sx.check(isinstance(exc, TLSError), 'a spoiled record is refused', repr(exc))
    else:
        sx.check(exc is None, 'the handshake failed', repr(exc))
        sx.check(client.is_connected() and server.is_connected(), 'the handshake did not complete')
    values = secret_values(schedule)
    if spoiled == 'server':
        # the client never gets to the application keys
        early = {n: values[n] for n in ('c_hs', 's_hs')}
        per_side = {'client': [early], 'server': [early]}
    else:
        per_side = {'client': [values], 'server': [early_or(values, spoiled)]}
    talk = [s for s in ('client', 'server') if who in (s, 'both')]
    total = {}
    for side in talk:
        for d in per_side[side]:
            for name in d:
                total[name] = total.get(name, 0) + 1
    for name in LINES.values():
        n = count(sx, keys, name, random, values)
        sx.check(n == total.get(name, 0), f'{name} is logged once per side that asked for it', n)
    sx.check(len(keys) == sum(total.values()), 'nothing else is in the key log', len(keys))
    more = dict(values, **{'the shared secret': watch.shared[0]})
    if getattr(schedule, 'resumption', None) is not None:
        more['the resumption secret'] = schedule.resumption
    for name in ('c_hs', 's_hs', 'c_ap', 's_ap'):
        more[f'a key of {name}'], _ = schedule.key_iv(getattr(schedule, name))
    leaks(sx, others, more)
    sx.reach('failed' if spoiled else who)


def early_or(values, spoiled):
    return {n: values[n] for n in ('c_hs', 's_hs')} if spoiled == 'client' else values


def count(sx, records, name, random, values):
    """How many records are the line of that secret; every line with its label is right."""
    label = next(k for k, v in LINES.items() if v == name)
    n = 0
    for record in records:
        said = text(record)
        if said.startswith(label + ' '):
            sx.check(said == label + ' ' + random.hex() + ' ' + values[name].hex(),
                     f'the line {label} has the random and the secret')
            n += 1
    return n
