"""K01-K04: nonces, key schedule, HKDF, transcript hash."""
import hashlib

from siotls.contents import alerts
from siotls.crypto.ciphers import TLSCipherSuite
from siotls.crypto.hkdf import derive_secret, hkdf_expand, hkdf_expand_label, hkdf_extract
from siotls.iana import CipherSuites, NamedGroup

from symex.api import case

from harness import oracle
from harness.observe import HRR_RANDOM, Observer
from harness.puppet import P256, X25519, Share, ext, extensions, reach_client, reach_server
from harness.world import KEY, client_config, pair, server_config, u16, vec16, vec8

MOD = {'sha256': hashlib.sha256, 'sha384': hashlib.sha384}
HASHES = [{'hash': 'sha256'}, {'hash': 'sha384'}]
SUITES = [{'suite': n} for n in oracle.SUITES]


# ------------------------------------------------------------------------------------------- K03

@case('K03', params=HASHES, functions=('siotls.crypto.hkdf:hkdf_extract',),
      reach=('no salt', 'salt'),
      bounds='salts of 0, 1, 31, 32, 48, 64, 65 and 130 bytes, input keys of 0, 1, 32, 48, 66 and '
             '1024 bytes, any bytes')
def extract(sx):
    h = sx.p('hash')
    n = sx.choice('salt length', (0, 1, 31, 32, 48, 64, 65, 130))
    m = sx.choice('ikm length', (0, 1, 32, 48, 66, 1024))
    salt = sx.bytes('salt', n)
    ikm = sx.bytes('ikm', m)
    none = n == 0 and sx.choice('absent', (False, True))
    exc, got = sx.attempt(hkdf_extract, MOD[h], None if none else salt, ikm)
    sx.check(exc is None, 'extract refused', exc)
    sx.check(got == oracle.extract(h, salt, ikm), 'extract is HMAC(salt, ikm)')
    sx.reach('salt' if n else 'no salt')


@case('K03', params=[dict(h, range=r) for h in HASHES for r in ('low', 'high')],
      thorough=[dict(h, range=r) for h in HASHES for r in ('low', 'mid', 'high')],
      functions=('siotls.crypto.hkdf:hkdf_expand',), reach=(),
      bounds='every length 0..5 blocks+2 (0..40 blocks in the thorough tier), 254 blocks + 1, 255 '
             'blocks, 255 blocks + 1, 257 blocks, info of 0, 1, 4 and 40 bytes, any bytes')
def expand(sx):
    h = sx.p('hash')
    size = oracle.size_of(h)
    lo, hi = {'low': (0, 5 * size + 2), 'mid': (5 * size, 40 * size),
              'high': (254 * size, 257 * size)}[sx.p('range')]
    if sx.p('range') == 'high':
        length = sx.choice('length', (lo + 1, lo + size, lo + size + 1, hi))
    else:
        length = sx.int('length', lo, hi)
    prk = sx.bytes('prk', size)
    info = sx.bytes('info', sx.choice('info length', (0, 1, 40)
                                      if sx.p('range') == 'low' else (4,)))
    exc, got = sx.attempt(hkdf_expand, MOD[h], prk, info, length)
    if length > 255 * size:
        sx.check(exc is not None, 'more than 255 blocks are refused')
        sx.reach('too long')
        return
    sx.check(exc is None, 'expand refused', exc)
    sx.check(len(got) == length, 'expand length')
    sx.check(got == oracle.expand(h, prk, info, length),
             'expand is the concatenation of the blocks')


@case('K03', params=HASHES, reach=('refused', 'accepted'),
      functions=('siotls.crypto.hkdf:hkdf_expand_label', 'siotls.crypto.hkdf:hkdf_expand'),
      bounds='labels of 0..300 bytes, contexts of 0..300 bytes, lengths 0, 1, 12, 16, 32, 48, 100, '
             '65535, 65536, any bytes')
def expand_label(sx):
    h = sx.p('hash')
    size = oracle.size_of(h)
    secret = sx.bytes('secret', size)
    which = sx.choice('which', ('label', 'context', 'length'))
    label = sx.blob('label', 0, 300) if which == 'label' else b'c hs traffic'
    context = sx.blob('context', 0, 300) if which == 'context' else sx.bytes('hash', size)
    length = sx.choice('length', (0, 1, 12, 16, 32, 48, 100, 65535, 65536, 70000)
                       if which == 'length' else (16, 32))
    exc, got = sx.attempt(hkdf_expand_label, MOD[h], secret, label, context, length)
    if length > 255 * size or len(label) + 6 > 255 or len(context) > 255:
        sx.check(exc is not None, 'a field beyond its size is refused')
        sx.reach('refused')
        return
    sx.check(exc is None, 'expand-label refused', exc)
    sx.check(got == oracle.expand_label(h, secret, label, context, length),
             'expand-label is expand over length, tls13 label and context')
    sx.reach('accepted')


@case('K03', params=HASHES, functions=('siotls.crypto.hkdf:derive_secret',),
      bounds='every label used by TLS 1.3, transcript hashes of 0 or a full digest, any bytes')
def derive(sx):
    h = sx.p('hash')
    size = oracle.size_of(h)
    secret = sx.bytes('secret', size)
    label = sx.choice('label', (b'derived', b'c hs traffic', b's hs traffic', b'c ap traffic',
                                b's ap traffic', b'exp master', b'res master', b'finished'))
    context = sx.bytes('hash', sx.choice('hash length', (0, size)))
    exc, got = sx.attempt(derive_secret, MOD[h], secret, label, context)
    sx.check(exc is None, 'derive-secret refused', exc)
    sx.check(got == oracle.derive(h, secret, label, context), 'derive-secret')


# ------------------------------------------------------------------------------------------- K02

SECRETS = ('siotls.crypto.ciphers:_TLSSecrets.skip_early_secrets',
           'siotls.crypto.ciphers:_TLSSecrets.derive_handshake_secrets',
           'siotls.crypto.ciphers:_TLSSecrets.derive_master_secrets',
           'siotls.crypto.ciphers:TLSCipherSuite.derive_handshake_secrets',
           'siotls.crypto.ciphers:TLSCipherSuite.derive_master_secrets',
           'siotls.crypto.ciphers:TLSCipherSuite._derive_key_and_iv',
           'siotls.crypto.ciphers:TLSCipherSuite.sign_finish',
           'siotls.crypto.ciphers:TLSCipherSuite.verify_finish')


def make(suite, side):
    return TLSCipherSuite[CipherSuites(suite)](side, b'\x11' * 32, log_keys=False)


def protects(sx, stage, suites, want):
    """Each side writes with the keys of `want` and reads what the other writes."""
    for side, other in (('client', 'server'), ('server', 'client')):
        me, peer = suites[side], suites[other]
        sx.check(bool(me.must_encrypt) and bool(me.must_decrypt), f'{stage}: keys are on')
        for i in range(2):
            data = sx.bytes(f'{stage} {side} {i}', 5)
            ad = sx.bytes(f'{stage} {side} ad {i}', 5)
            out = me.encrypt(data, ad)
            sx.check(out == want[side].encrypt(data, ad),
                     f'{stage}: keys and nonces of the {side} write side')
            exc, got = sx.attempt(peer.decrypt, out, ad)
            sx.check(exc is None, f'{stage}: the peer of the {side} cannot read', exc)
            sx.check(got == data, f'{stage}: what the peer of the {side} reads')


@case('K02', quick=[dict(s, shared=n) for s in SUITES for n in (32,)] +
      [{'suite': 0x1302, 'shared': n} for n in (48, 66, 256)],
      thorough=[dict(s, shared=n) for s in SUITES for n in (32, 48, 56, 66, 256, 1024)],
      functions=SECRETS, bounds='every suite, any shared secret (32 bytes; 32..1024 in the '
      'thorough tier) and any transcript hashes')
def schedule(sx):
    number = sx.p('suite')
    want = oracle.Schedule(number)
    suites = {side: make(number, side) for side in ('client', 'server')}
    for s in suites.values():
        sx.check(not s.must_encrypt and not s.must_decrypt, 'no key before the handshake keys')
        s.skip_early_secrets()
        sx.check(not s.must_encrypt and not s.must_decrypt, 'no key before the handshake keys')
    shared = sx.bytes('shared secret', sx.p('shared'))
    hello = sx.bytes('hello hash', want.size)
    for s in suites.values():
        exc, _ = sx.attempt(s.derive_handshake_secrets, shared, hello)
        sx.check(exc is None, 'handshake secrets', exc)
    want.handshake(shared, hello)
    protects(sx, 'handshake', suites, {'client': oracle.Protection(want, want.c_hs),
                                       'server': oracle.Protection(want, want.s_hs)})
    for side, other, traffic in (('client', 'server', want.c_hs), ('server', 'client', want.s_hs)):
        transcript = sx.bytes(f'{side} finished hash', want.size)
        proof = suites[side].sign_finish(transcript)
        sx.check(proof == want.finished(traffic, transcript), f'finished of the {side}')
        exc, _ = sx.attempt(suites[other].verify_finish, transcript, proof)
        sx.check(exc is None, f'finished of the {side} refused by its peer', exc)
    server_finished = sx.bytes('server finished hash#', want.size)
    client_finished = sx.bytes('client finished hash#', want.size)
    want.master(server_finished, client_finished)
    for s in suites.values():
        exc, got = sx.attempt(s.derive_master_secrets, server_finished, client_finished)
        sx.check(exc is None, 'master secrets', exc)
        sx.check(got[0] == want.exporter, 'exporter master secret')
        sx.check(got[1] == want.resumption, 'resumption master secret')
    protects(sx, 'application', suites, {'client': oracle.Protection(want, want.c_ap),
                                         'server': oracle.Protection(want, want.s_ap)})
    sx.reach('end')


@case('K02', params=[dict(s, mode=m) for s in SUITES for m in ('external', 'resume')],
      functions=('siotls.crypto.ciphers:_TLSSecrets.derive_early_secrets',
                 'siotls.crypto.ciphers:TLSCipherSuite.derive_early_secrets'),
      bounds='every suite, both kinds of any pre-shared key of 32 bytes, any transcript hash and '
             'shared secret')
def early(sx):
    """The early secrets, and what follows from them."""
    psk = sx.bytes('psk', 32)
    want = oracle.Schedule(sx.p('suite'), psk)
    hello = sx.bytes('hello hash', want.size)
    want.early(sx.p('mode'), hello)
    suites = {side: make(sx.p('suite'), side) for side in ('client', 'server')}
    for suite in suites.values():
        exc, got = sx.attempt(suite.derive_early_secrets, psk, sx.p('mode'), hello)
        sx.check(exc is None, 'early secrets', exc)
        sx.check(got[0] == want.binder, 'binder key')
        sx.check(got[1] == want.early_exporter, 'early exporter master secret')
    client, server = suites['client'], suites['server']
    sx.check(client.must_encrypt and not client.must_decrypt, 'early keys: the client writes')
    sx.check(server.must_decrypt and not server.must_encrypt, 'early keys: the server reads')
    mine = oracle.Protection(want, want.c_e)
    for i in range(2):
        data = sx.bytes(f'data {i}', 3)
        out = client.encrypt(data, b'ad')
        sx.check(out == mine.encrypt(data, b'ad'), 'early keys and nonces of the client')
        exc, got = sx.attempt(server.decrypt, out, b'ad')
        sx.check(exc is None, 'the server cannot read early data', exc)
        sx.check(got == data, 'early data the server reads')
    shared = sx.bytes('shared secret', 32)
    hello = sx.bytes('server hello hash', want.size)
    want.handshake(shared, hello)
    for suite in suites.values():
        exc, _ = sx.attempt(suite.derive_handshake_secrets, shared, hello)
        sx.check(exc is None, 'handshake secrets', exc)
    protects(sx, 'handshake', suites, {'client': oracle.Protection(want, want.c_hs),
                                       'server': oracle.Protection(want, want.s_hs)})


@case('K02', params=SUITES, functions=SECRETS,
      bounds='every order of up to 4 calls of the three stages, except what follows the master '
             'secrets')
def stages(sx):
    suite = make(sx.p('suite'), sx.choice('side', ('client', 'server')))
    size = oracle.size_of(oracle.SUITES[sx.p('suite')][0])
    calls = {'early': lambda: suite.skip_early_secrets(),
             'handshake': lambda: suite.derive_handshake_secrets(b'\x01' * 32, b'\x02' * size),
             'master': lambda: suite.derive_master_secrets(b'\x03' * size, b'\x04' * size)}
    order = ('early', 'handshake', 'master')
    done = 0
    for i in range(4):
        name = sx.choice(f'call {i}', order)
        exc, _ = sx.attempt(calls[name])
        if name == order[done]:
            sx.check(exc is None, f'{name} in its turn is refused', exc)
            done += 1
            if done == 3:
                return
        else:
            sx.check(exc is not None, f'{name} out of turn')


# ------------------------------------------------------------------------------------------- K01

NONCE = ('siotls.crypto.ciphers:TLSCipherSuite._next_read_nonce',
         'siotls.crypto.ciphers:TLSCipherSuite._next_write_nonce',
         'siotls.crypto.ciphers:TLSCipherSuite.encrypt',
         'siotls.crypto.ciphers:TLSCipherSuite.decrypt')


def keyed(sx, number, side, stage, shared):
    """A suite right after the keys of a stage, and the oracle of both its directions."""
    want = oracle.Schedule(number)
    suite = make(number, side)
    suite.skip_early_secrets()
    hello, fin = b'\x02' * want.size, b'\x03' * want.size
    suite.derive_handshake_secrets(shared, hello)
    want.handshake(shared, hello)
    traffic = {'client': want.c_hs, 'server': want.s_hs}
    if stage == 'application':
        if sx.choice('handshake records before', (0, 1)):
            suite.encrypt(b'x', b'')
            other = 'server' if side == 'client' else 'client'
            suite.decrypt(oracle.Protection(want, traffic[other]).encrypt(b'y', b''), b'')
        suite.derive_master_secrets(fin, fin)
        want.master(fin, fin)
        traffic = {'client': want.c_ap, 'server': want.s_ap}
    other = 'server' if side == 'client' else 'client'
    return (suite, oracle.Protection(want, traffic[side]),
            oracle.Protection(want, traffic[other]))


@case('K01', params=[dict(s, side=side, stage=stage) for s in SUITES
                     for side in ('client', 'server') for stage in ('handshake', 'application')],
      functions=NONCE, reach=('end',),
      bounds='the first 300 records of each direction under a key, for any shared secret')
def counting(sx):
    shared = sx.bytes('shared secret', 32)
    suite, mine, theirs = keyed(sx, sx.p('suite'), sx.p('side'), sx.p('stage'), shared)
    for i in range(sx.p("n", 300)):
        exc, out = sx.attempt(suite.encrypt, b'data', b'ad')
        sx.check(exc is None, 'encryption stopped', exc)
        sx.check(out == mine.encrypt(b'data', b'ad', i), 'the n-th record is sealed with IV xor n')
        exc, got = sx.attempt(suite.decrypt, theirs.encrypt(b'data', b'ad', i), b'ad')
        sx.check(exc is None, 'the n-th record is opened with IV xor n', exc)
        sx.check(got == b'data', 'opened data')
    sx.reach('end')


@case('K01', params=[dict(s, side=side) for s in SUITES for side in ('client', 'server')],
      functions=NONCE, reach=('stopped',),
      bounds='usage limit 3, 6 records in each direction')
def usage_limit(sx):
    number = sx.p('suite')
    cls = TLSCipherSuite[CipherSuites(number)]
    sx.check(isinstance(cls.usage_limit, int) and 0 < cls.usage_limit <= 2 ** 64,
             'the suite has a usage limit under which nonces cannot repeat')
    if oracle.SUITES[number][1] != 'chacha':
        sx.check(cls.usage_limit <= 2 ** 24.5, 'usage limit of AES (RFC 8446 5.5)')
    if 'ccm' in oracle.SUITES[number][1]:
        sx.check(cls.usage_limit <= 2 ** 23, 'usage limit of AES-CCM (RFC 9147 4.5.3)')
    sx.patches._set(cls, 'usage_limit', 3)
    shared = sx.bytes('shared secret', 32)
    suite, mine, theirs = keyed(sx, number, sx.p('side'), sx.choice('stage', (
        'handshake', 'application')), shared)
    stopped = False
    for i in range(6):
        exc, out = sx.attempt(suite.encrypt, b'data', b'ad')
        if exc is None:
            sx.check(not stopped, 'used again after it stopped')
            sx.check(i < 3, 'used beyond the limit')
            sx.check(out == mine.encrypt(b'data', b'ad', i), 'a nonce is repeated')
        else:
            stopped = True
            sx.check(i >= 3, 'stopped before the limit')
            sx.reach('stopped')
    stopped = False
    for i in range(6):
        exc, out = sx.attempt(suite.decrypt, theirs.encrypt(b'data', b'ad', i), b'ad')
        if exc is None:
            sx.check(not stopped, 'used again after it stopped')
            sx.check(i < 3, 'used beyond the limit')
        else:
            stopped = True
            sx.check(i >= 3, 'stopped before the limit')


@case('K01', params=[dict(s, side=side) for s in SUITES for side in ('client', 'server')],
      functions=NONCE,
      bounds='a record that cannot be opened, of any 20 bytes, anywhere among the first 3')
def forged(sx):
    """A failed decryption does not make the write side repeat a nonce, nor resets the counters."""
    shared = b'\x01' * 32
    suite, mine, theirs = keyed(sx, sx.p('suite'), sx.p('side'), 'application', shared)
    bad = sx.choice('bad', (0, 1, 2))
    for i in range(4):
        data = theirs.encrypt(b'data', b'ad', i)
        if i == bad:
            data = sx.bytes('forged', 20)
            sx.assume(sx.neg(data == theirs.encrypt(b'data', b'ad', i)))
        exc, got = sx.attempt(suite.decrypt, data, b'ad')
        if i == bad:
            sx.check(isinstance(exc, alerts.BadRecordMac), 'forged record', exc)
        elif i < bad:
            sx.check(exc is None, 'genuine record refused', exc)
        exc, out = sx.attempt(suite.encrypt, b'data', b'ad')
        sx.check(exc is None, 'encryption stopped', exc)
        sx.check(out == mine.encrypt(b'data', b'ad', i), 'the n-th record is sealed with IV xor n')


# ------------------------------------------------------------------------- K02, K04: connections

HANDSHAKE = ('siotls.transcript:Transcript.update', 'siotls.transcript:Transcript.post_init',
             'siotls.transcript:Transcript.do_hrr_dance', 'siotls.transcript:Transcript.digest',
             'siotls.states.client.wait_server_hello:ClientWaitServerHello.process',
             'siotls.states.client.wait_certificate_verify:ClientWaitCertificateVerify.process',
             'siotls.states.client.wait_finished:ClientWaitFinished.process',
             'siotls.states.server.wait_client_hello:ServerWaitClientHello.process',
             'siotls.states.server.wait_finished:ServerWaitFinished.process')

def randomise(sx, client, server):
    """Any client and server randoms."""
    if getattr(client, '_client_unique', None) is not None:
        client._client_unique = sx.bytes('client random', 32)
    if getattr(server, '_server_unique', None) is not None:
        server._server_unique = sx.bytes('server random', 32)
        # this one means a retry
        sx.assume(sx.neg(server._server_unique == HRR_RANDOM))


def observed(sx, client_conf, server_conf, **kw):
    """A handshake between any randoms, checked on the wire; (client, server, observer)."""
    client, server = pair(client_conf, server_conf, **kw)
    watch = Observer(sx)
    randomise(sx, client, server)
    client.initiate_connection()
    server.initiate_connection()
    exc, _ = sx.attempt(watch.pump, client, server)
    sx.check(exc is None, 'the handshake failed', exc)
    sx.check(client.is_connected() and server.is_connected(), 'the handshake did not complete')
    return client, server, watch


def certificate_verify(sx, watch, key, algorithm, cert_entry):
    """The CertificateVerify is a signature of the transcript up to the Certificate."""
    before = []
    for side, msg_type, data in watch.messages:
        if msg_type == 15 and side == 'server':
            n = data[6] * 256 + data[7]
            sx.check(len(data) == 8 + n, 'signature length')
            content = (b'\x20' * 64 + b'TLS 1.3, server CertificateVerify\x00'
                       + oracle.digest(watch.schedule.hash, watch.before + b''.join(before)))
            exc, _ = sx.attempt(lambda: key.public_key().verify(data[8:], content))
            sx.check(exc is None, 'CertificateVerify does not sign the transcript', exc)
            return
        if msg_type == 2 and data[6:38] == HRR_RANDOM or (watch.retries and msg_type == 1
                                                           and not before):
            before = [data] if msg_type == 2 else []
            continue
        before.append(data)
    sx.fail('no CertificateVerify')


@case(['K02', 'K04', 'S02', 'S05'], reach=('end',), functions=HANDSHAKE + SECRETS,
      quick=[{'suite': s, 'retry': r} for s in oracle.SUITES for r in (False, True)],
      thorough=[{'suite': s, 'retry': r, 'offer': o} for s in oracle.SUITES for r in (False, True)
                for o in ('alone', 'first', 'last')],
      bounds='whole handshakes for any randoms of both sides, every suite, with and without a '
             'retry; suites offered together with others of another hash')
def whole_handshake(sx):
    suite = CipherSuites(sx.p('suite'))
    other = [CipherSuites.TLS_AES_256_GCM_SHA384, CipherSuites.TLS_AES_128_GCM_SHA256]
    other = [o for o in other if o != suite]
    offers = {'alone': [suite], 'first': [suite, *other], 'last': [*other, suite]}
    offer = sx.p('offer') or sx.choice('offer', ('alone', 'first', 'last'))
    groups = {}
    if sx.p('retry'):
        groups = {'key_exchanges': [NamedGroup.x25519, NamedGroup.secp256r1]}
    client_conf = client_config(cipher_suites=offers[offer], **groups)
    if sx.p('retry'):
        groups = {'key_exchanges': [NamedGroup.secp256r1]}
    server_conf = server_config(cipher_suites=[suite], **groups)
    client, server, watch = observed(sx, client_conf, server_conf)
    sx.check(watch.retries == (1 if sx.p('retry') else 0), 'number of retries')
    retry = [('server', 2), ('client', 1)] if sx.p('retry') else []
    sx.check(watch.types() == [('client', 1), *retry, ('server', 2), ('server', 8),
                               ('server', 11), ('server', 15), ('server', 20), ('client', 20)],
             'messages of the handshake')
    certificate_verify(sx, watch, KEY['ed'], None, None)
    x, y = sx.bytes('from the client', 4), sx.bytes('from the server', 4)
    client.send_data(x)
    server.send_data(y)
    exc, _ = sx.attempt(watch.pump, client, server)
    sx.check(exc is None, 'application data refused', exc)
    sx.check(watch.data['client'] == x and watch.data['server'] == y, 'application data')
    sx.check(server.data_to_read() == x and client.data_to_read() == y, 'application data read')
    sx.reach('end')


# --------------------------------------------------------- K04: what was sent, not what it means

def twice(ext_type, body):
    """The same extension twice, which is tolerated, another one in between."""
    return [ext(ext_type, body), ext(0x1a1a, b'abc'), ext(ext_type, body)]

ODD_IN_HELLO = {
    'nothing': [],
    'unprintable protocols': [ext(16, vec16(vec8(b'\x0a\x0a') + vec8(b'h2') + vec8(b'\xff')))],
    'letters of a host name': [ext(0, vec16(b'\0' + vec16(b'SeRvEr.ExAmPlE')))],
    'undecodable host name': [ext(0, vec16(b'\0' + vec16(b'xn--\xff')))],
    'two host names': [ext(0, vec16((b'\0' + vec16(b'a.b')) * 2))],
    'repeated known': twice(15, b'\1'),
    'repeated unknown': twice(0x0a0a, b'xyz'),
}

@case(['K04', 'S02', 'S05'], params=[{'odd': o} for o in ODD_IN_HELLO], reach=('end',),
      functions=HANDSHAKE,
      bounds='a hello whose meaning is less than its bytes (protocols, host names and repeated '
             'extensions that are skipped), any client random, with and without a retry, three '
             'suites')
def wire_of_hello(sx):
    suite = sx.choice('suite', (0x1301, 0x1302))
    odd = ODD_IN_HELLO[sx.p('odd')]
    conf = server_config(alpn=['h2'])
    random = sx.bytes('client random', 32)
    if sx.bool('retry'):
        p = reach_server(sx, 'wait second hello', conf=conf, suites=(suite,), random=random,
                         extra=odd)
        exc = p.say(1, p.client_hello(suites=(suite,), groups=(X25519, P256), shares=(X25519,),
                                      random=random, extra=odd))
        p.must(exc, 'the second hello')
    else:
        p = reach_server(sx, 'wait hello', conf=conf)
        p.must(p.say(1, p.client_hello(suites=(suite,), random=random, extra=odd)), 'the hello')
    flight = p.flight()     # its Finished is checked
    sx.check(20 in flight, 'the server goes on')
    p.must(p.finish(), 'the Finished of what was sent')
    sx.check(p.conn.is_connected(), 'the server is connected')
    p.must(p.push(23, b'data'), 'application data')
    sx.check(p.conn.data_to_read() == b'data', 'the data is read')
    sx.reach('end')


@case(['K04', 'S02'], params=[{'in': m} for m in ('none', 'SH', 'EE', 'CR', 'CT')], reach=('end',),
      functions=HANDSHAKE, bounds='a repeated extension in each message of the server, any of its '
      'randoms, with and without a certificate request')
def wire_of_flight(sx):
    where = sx.p('in')
    p = reach_client(sx, 'wait hello')
    random = sx.bytes('server random', 32)
    sx.assume(sx.neg(random == HRR_RANDOM))
    exts = None
    if where == 'SH':
        share = Share(X25519)
        exts = [*twice(43, b'\3\4'), ext(51, u16(X25519) + vec16(share.public))]
    p.must(p.say_hello(random=random, exts=exts), 'the server hello')
    body = p.encrypted_extensions(*(twice(15, b'\1') if where == 'EE' else ()))
    p.must(p.say(8, body), 'the encrypted extensions')
    requested = where == 'CR' or sx.bool('request')
    if requested:
        wanted = vec16(u16(0x0807) + u16(0x0403))
        exts = twice(13, wanted) if where == 'CR' else [ext(13, wanted)]
        p.must(p.say(13, vec8(b'') + extensions(*exts)), 'the request')
    p.must(p.say(11, p.certificate('ed', exts=twice(18, b'') if where == 'CT' else ())),
           'the certificate')
    p.must(p.say(15, p.certificate_verify('ed')), 'the signature')
    p.must(p.say(20, p.finished_value()), 'the Finished')
    p.master()
    n = len(p.received)
    p.pull()
    mine = p.received[n:]
    sx.check([t for t, _ in mine] == [11, 20][not requested:], 'what the client answers')
    before = p.transcript_
    p.transcript_ = before[:len(before) - len(mine[-1][1])]
    sx.check(mine[-1][1][4:] == p.finished_value('client'), 'Finished of the client')
    p.transcript_ = before
    sx.check(p.conn.is_connected(), 'the client is connected')
    sx.reach('end')
