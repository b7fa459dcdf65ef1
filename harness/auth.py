"""S10: what a client takes as proof of the server's identity.

The server is the puppet; verdicts of what lies outside the repository (the path validation and
the certificate parsing of `cryptography`) are symbolic or those of the real library."""
import datetime

from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding
from cryptography.x509.verification import PolicyBuilder, Store, VerificationError, VerifiedClient

from siotls.crypto import ocsp as ocsp_module
from siotls.iana import SignatureScheme as S

from symex.api import case

from harness.puppet import (
    CLIENT_CONTEXT, CT, CV, EE, FIN, OCSP, SCTYPE, SERVER_CONTEXT, certificate_entry,
    CH, certificate_message, ext, reach_client, reach_server, sign,
)
from harness.states import failed, later
from harness.world import (
    CERT, CRL, DATA, HOST, KEY, client_config, der, server_config, spki, state, trusting, u16, u8, vec16, vec24,
)

VERIFY = ('siotls.states.client.wait_certificate_verify:ClientWaitCertificateVerify.process',)
CERTIFICATE = ('siotls.states.client.wait_certificate:ClientWaitCertificate.process',)

CRLS = {'none': None, 'ca': CRL,
        'mid': x509.load_der_x509_crl((DATA / 'mid.crl').read_bytes()),
        'ca_mid': x509.load_der_x509_crl((DATA / 'ca_mid.crl').read_bytes())}

# the alerts about certificates, and the one about their proof
CERT_ALERTS = ('BadCertificate', 'UnsupportedCertificate', 'CertificateRevoked',
               'CertificateExpired', 'CertificateUnknown', 'UnknownCa', 'AccessDenied',
               'CertificateRequired', 'BadCertificateStatusResponse')

# RFC 8446 section 4.2.3: the algorithms of a CertificateVerify by key
SUITS = {'ed': (0x0807,), 'ed448': (0x0808,), 'server': (0x0403,), 'p384': (0x0503,),
         'p521': (0x0603,), 'rsa': (0x0804, 0x0805, 0x0806), 'rsapss': (0x0809, 0x080a, 0x080b),
         'brainpool': ()}
OTHER_KEY = {'ed': 'ed2', 'ed448': None, 'server': 'other', 'p384': None, 'p521': None,
             'rsa': None, 'rsapss': None, 'brainpool': None}
HASHES = {0x0403: hashes.SHA256, 0x0503: hashes.SHA384, 0x0603: hashes.SHA512}
PSS = {0x0804: hashes.SHA256, 0x0805: hashes.SHA384, 0x0806: hashes.SHA512,
       0x0809: hashes.SHA256, 0x080a: hashes.SHA384, 0x080b: hashes.SHA512}
PKCS = {0x0401: hashes.SHA256, 0x0501: hashes.SHA384, 0x0601: hashes.SHA512}
EVERY = [S(v) for v in (0x0807, 0x0808, *HASHES, *PSS, *PKCS)]


def sign_with(key, algorithm, content):
    key = KEY[key]
    if algorithm in HASHES:
        return key.sign(content, ec.ECDSA(HASHES[algorithm]()))
    if algorithm in PSS:
        h = PSS[algorithm]()
        return key.sign(content, padding.PSS(padding.MGF1(h), h.digest_size), h)
    if algorithm in PKCS:
        return key.sign(content, padding.PKCS1v15(), PKCS[algorithm]())
    return key.sign(content)


def same_scheme(a, b):
    """Whether the two code points stand for the same computation (rsae and pss)."""
    return a == b or (a in PSS and b in PSS and PSS[a] is PSS[b])


def technically(key):
    """The algorithms that the key can compute, suitable or not."""
    if key in ('ed', 'ed448'):
        return SUITS[key]
    if key in ('rsa', 'rsapss'):
        return (*PSS, *PKCS)
    return tuple(HASHES)


OFFERS = {'default': None, 'every': EVERY, 'few': [S(0x0503), S(0x0401), S(0x0805), S(0x0809), S(0x0807)]}

@case('S10', params=[{'key': k, 'offer': o, 'as': a} for k in SUITS for o in OFFERS
                     for a in ('x509', 'raw') if a == 'x509' or k not in ('rsapss', 'brainpool')],
      functions=VERIFY, reach=('refused',),
      bounds='8 kinds of keys, as a certificate or raw, 3 lists of algorithms; any algorithm (16 '
             'bits) with a signature made by any algorithm of the key, by another key, over another '
             'transcript (any difference of the digest) or another context, or of any 0..4 or 64 bytes')
def proof(sx):
    key = sx.p('key')
    offer = OFFERS[sx.p('offer')]
    kw = {} if offer is None else {'signature_algorithms': list(offer)}
    if sx.p('as') == 'raw':
        kw['trusted_public_keys'] = [CERT[key].public_key()]
    conf = client_config(**kw)
    p = reach_client(sx, 'wait extensions', conf=conf)
    if sx.p('as') == 'raw':
        p.say_flight(exts=(ext(SCTYPE, u8(2)),), upto=CT)
        body = certificate_message(certificate_entry(spki(CERT[key].public_key())))
    else:
        p.say_flight(upto=CT)
        body = p.certificate(key)
    p.must(p.say(CT, body), 'the certificate')
    algorithm = sx.int('algorithm', 0, 0xffff)
    kind = sx.choice('signature', ('genuine', 'other key', 'other context', 'bytes'))
    offered = sx.any([algorithm == int(a) for a in conf.signature_algorithms])
    suited = sx.any([algorithm == a for a in SUITS[key]])
    valid = False
    if kind == 'bytes':
        sig = sx.bytes('bytes', sx.choice('size', (0, 1, 4, 64)))
    else:
        by = sx.choice('by', technically(key))
        signer = key
        digest = p.digest()
        context = SERVER_CONTEXT
        if kind == 'genuine':
            delta = sx.bytes('delta', len(digest))
            digest = bytes([a ^ b for a, b in zip(digest, delta, strict=True)])
            valid = sx.all([delta == b'\0' * len(digest),
                            sx.any([algorithm == a for a in EVERY if same_scheme(int(a), by)])])
        elif kind == 'other key':
            signer = OTHER_KEY[key]
            sx.assume(signer is not None)
        else:
            context = CLIENT_CONTEXT
        sig = sign_with(signer, by, context + digest)
    exc = p.say(CV, u16(algorithm) + vec16(sig))
    good = sx.all([offered, suited, valid])
    if exc is not None:
        sx.check(sx.neg(good), 'a valid proof is refused', repr(exc))
        names = ['IllegalParameter'] if sx.is_true(sx.neg(sx.all([offered, suited]))) else []
        if sx.is_true(sx.neg(valid)):
            names.append('DecryptError')
        if not SUITS[key]:
            names += CERT_ALERTS
        failed(sx, p, exc, 'no proof', *names)
        sx.reach('refused')
        return
    sx.check(good, 'something that proves nothing is accepted')
    p.must(p.say(FIN, p.finished_value()), 'the Finished')
    sx.check(p.conn.is_connected(), 'connected')
    sx.check(int(p.conn.nconfig.signature_algorithm) == algorithm, 'the algorithm reported')


@case('S10', params=[{'cert': c} for c in (
          'xkey', 'dsa', 'explicit', 'odd_oid', 'odd_point')], functions=(*CERTIFICATE, *VERIFY),
      reach=('refused',),
      bounds='certificates of keys that cannot sign in TLS 1.3 or that cannot be loaded, any algorithm')
def odd_keys(sx):
    p = reach_client(sx, 'wait certificate')
    exc = p.say(CT, p.certificate(sx.p('cert')))
    if exc is None:
        algorithm = sx.int('algorithm', 0, 0xffff)
        exc = p.say(CV, u16(algorithm) + vec16(sx.bytes('signature', 2)))
    failed(sx, p, exc, 'a key that cannot sign', 'IllegalParameter', 'DecryptError', *CERT_ALERTS)
    sx.reach('refused')


# --------------------------------------------------------------------------------- trusted chains

class Builder:
    """The part of PolicyBuilder that the code may use; its verdict is a symbolic one."""
    log = None
    verdict = None
    chain = None

    def __init__(self, store=None, depth=None, other=()):
        self.store_, self.depth, self.other = store, depth, other

    def store(self, store):
        return Builder(store, self.depth, self.other)

    def max_chain_depth(self, depth):
        return Builder(self.store_, depth, self.other)

    def time(self, when):
        return Builder(self.store_, self.depth, (*self.other, 'time'))

    def build_server_verifier(self, subject):
        return Verifier(self, 'server', subject)

    def build_client_verifier(self):
        return Verifier(self, 'client', None)


class Verifier:
    def __init__(self, builder, kind, subject):
        self.builder, self.kind, self.subject = builder, kind, subject

    def verify(self, leaf, intermediates):
        Builder.log.append((self.builder, self.kind, self.subject, leaf, list(intermediates)))
        if not Builder.verdict:
            raise VerificationError('verdict of the harness')
        chain = Builder.chain if Builder.chain is not None else [leaf, *intermediates]
        return chain if self.kind == 'server' else Verified(chain)


class Verified:
    """What a client verifier gives back."""
    def __init__(self, chain):
        self.chain, self.subjects, self.subject = chain, None, None


def validation(sx, verdict=None, chain=None):
    """Put the path validation of the harness in place."""
    Builder.log, Builder.verdict, Builder.chain = [], verdict, chain
    sx.cleanup(lambda: setattr(Builder, 'log', None))
    sx.patches.everywhere(PolicyBuilder, Builder)
    sx.patches.everywhere(VerifiedClient, Verified, extra=((x509.verification, 'VerifiedClient'),))


SUBJECTS = {HOST: x509.DNSName(HOST), 'b\xfccher.example': x509.DNSName('xn--bcher-kva.example')}

def subject_of(hostname):
    import ipaddress
    try:
        return x509.IPAddress(ipaddress.ip_address(hostname))
    except ValueError:
        return SUBJECTS[hostname]


@case('S10', params=[{'chain': n} for n in (0, 1, 2, 3)], functions=CERTIFICATE,
      reach=('end',),
      bounds='chains of 0..3 certificates, 5 host names (a name, an international one, addresses, '
             'none), 2 depths, either verdict of the path validation, with or without an earlier '
             'connection of the same configuration to another host')
def verdicts(sx):
    hostname = sx.choice('host', (HOST, 'b\xfccher.example', '192.0.2.7', '2001:db8::7', None))
    depth = sx.choice('depth', (0, 5))
    store = Store([CERT['ca2']])
    validation(sx)
    conf = client_config(trust_store=store, max_chain_depth=depth)
    names = ('server', 'mid', 'ca')[:sx.p('chain')]
    if names and sx.bool('another connection before'):
        # to another host, of the same configuration
        other = reach_client(sx, 'wait certificate', conf=conf, hostname='192.0.2.8')
        Builder.verdict = sx.bool('verdict of the other')
        exc = other.say(CT, other.certificate('server'))
        sx.check((exc is None) == Builder.verdict, 'the verdict of the other connection', repr(exc))
        Builder.log.clear()
    p = reach_client(sx, 'wait certificate', conf=conf, hostname=hostname)
    Builder.verdict = sx.bool('verdict')
    exc = p.say(CT, p.certificate(*names))
    sx.reach('end')
    if not names or not Builder.verdict:
        failed(sx, p, exc, 'an untrusted chain', *CERT_ALERTS)
        if not names:
            return
    sx.check(len(Builder.log) > 0, 'the chain is not verified')
    for builder, kind, subject, leaf, intermediates in Builder.log:
        sx.check(builder.store_ is store, 'the configured store is used')
        sx.check(builder.depth == depth, 'the configured depth is used')
        sx.check(not builder.other, 'nothing else is changed')
        if hostname is not None:
            sx.check(kind == 'server' and subject == subject_of(hostname), 'the expected name is verified',
                     str(subject))
        sx.check(leaf == CERT['server'], 'the leaf is the first certificate')
        sx.check(intermediates == [CERT[n] for n in names[1:]], 'the others are the intermediates')
    if not Builder.verdict:
        return
    sx.check(exc is None, 'a trusted chain is refused', repr(exc))
    p.must(p.say(CV, p.certificate_verify('server')), 'the proof')
    p.must(p.say(FIN, p.finished_value()), 'the Finished')
    sx.check(p.conn.is_connected(), 'connected')
    sx.check(p.conn.nconfig.peer_certificate == CERT['server'], 'the peer certificate')


# (chain, host name) -> trusted by the CA of the harness
CHAINS = {
    'server': (('server',), HOST, True),
    'with root': (('server', 'ca'), HOST, True),
    'leaf': (('leaf', 'mid'), HOST, True),
    'no intermediate': (('leaf',), HOST, False),
    'disorder': (('mid', 'leaf'), HOST, False),
    'address': (('ip',), '192.0.2.7', True),
    'other address': (('ip',), '192.0.2.8', False),
    'name of another': (('server',), 'other.example', False),
    'other host': (('other_host',), HOST, False),
    'expired': (('expired',), HOST, False),
    'other ca': (('other_ca',), HOST, False),
    'self signed': (('ed',), HOST, False),
    'revoked': (('revoked',), HOST, True),
}
REVOKED = {'ca': ('revoked',), 'mid': ('leaf',), 'ca_mid': ('mid',), 'none': ()}
KEY_OF = {'leaf': 'server', 'ip': 'server', 'revoked': 'other', 'server': 'server'}

@case('S10', params=[{'chain': c} for c in CHAINS], functions=CERTIFICATE, reach=('end',),
      bounds='13 real chains and host names, 4 revocation lists, the real path validation')
def chains(sx):
    names, hostname, good = CHAINS[sx.p('chain')]
    listed = sx.choice('revocation list', tuple(CRLS))
    good = good and not any(n in REVOKED[listed] for n in names)
    p = reach_client(sx, 'wait certificate', conf=trusting(revocation_list=CRLS[listed]), hostname=hostname)
    exc = p.say(CT, p.certificate(*names))
    sx.reach('end')
    if not good:
        failed(sx, p, exc, 'an untrusted chain', *CERT_ALERTS)
        return
    sx.check(exc is None, 'a trusted chain is refused', repr(exc))
    key = KEY_OF[names[0]]
    p.must(p.say(CV, u16(0x0403) + vec16(sign_with(key, 0x0403, SERVER_CONTEXT + p.digest()))), 'the proof')
    p.must(p.say(FIN, p.finished_value()), 'the Finished')
    sx.check(p.conn.is_connected(), 'connected')


# ------------------------------------------------------------------------------ certificate status

class Service:
    """An OCSP service whose answer and failures are those the harness picks."""
    def __init__(self, answer, failure=None):
        self.answer, self.failure = answer, failure
        self.requests, self.cached, self.uncached = [], [], []

    def request(self, url, req):
        self.requests.append((url, req))
        if self.failure is not None:
            raise self.failure
        return self.answer

    def cache(self, until, req, res):
        self.cached.append((until, req, res))

    def uncache(self, req):
        self.uncached.append(req)


FAILURES = {'timeout': TimeoutError('t'), 'unreachable': OSError('o'), 'value': ValueError('v'),
            'type': RuntimeError('r')}

@case(['S10', 'A01'], params=[{'status': a, 'service': b} for a in ('none', 'stapled', 'garbage')
                     for b in ('none', 'works', *FAILURES)], functions=CERTIFICATE, reach=('end',),
      bounds='chains with or without an OCSP address, a stapled status of any 1..3 bytes or none, any '
             'answer of 1..3 bytes of the service or 4 failures, either verdict of the validation')
def statuses(sx):
    log = []
    verdict = sx.bool('verdict')

    def validate(issuer, request, response):
        log.append((issuer, request, response))
        if not verdict:
            raise ValueError('verdict of the harness')
        return 'until'
    validation(sx, True)
    sx.patches.everywhere(ocsp_module.validate_ocsp, validate)
    service = None
    answer = sx.bytes('answer', 1, 3)
    if sx.p('service') != 'none':
        service = Service(answer, FAILURES.get(sx.p('service')))
    names = (sx.choice('leaf', ('server_ocsp', 'server')), 'ca')[:sx.choice('chain', (1, 2))]
    exts = ()
    staple = sx.bytes('staple', 1, 3)
    if sx.p('status') != 'none':
        exts = (ext(OCSP, u8(1) + vec24(staple)),)
    p = reach_client(sx, 'wait certificate', conf=client_config(trust_store=Store([CERT['ca']])),
                     hostname=HOST, ocsp=service)
    exc = p.say(CT, p.certificate(*names, exts=exts))
    sx.reach('end')
    asked = None                     # the answer that must be validated
    down = False
    if len(names) == 2:
        if exts:
            asked = staple
        elif service is not None and names[0] == 'server_ocsp':
            asked = answer
            down = service.failure is not None
    request = ocsp_module.make_ocsp_request(CERT[names[0]], CERT['ca'])
    if service is not None:
        looked_up = asked is not None and not exts
        sx.check(len(service.requests) == (1 if looked_up else 0), 'the service is asked when needed')
        for url, req in service.requests:
            sx.check(req == request, 'the service is asked about the certificate')
            sx.check(url == 'http://ocsp.example/', 'at the address it tells', url)
    if down:
        failed(sx, p, exc, 'the status could not be fetched', *CERT_ALERTS)
        sx.check(not service.cached, 'a failure is cached')
        return
    if asked is not None:
        sx.check(len(log) == 1, 'the status is validated')
        issuer, req, res = log[0]
        sx.check(issuer == CERT['ca'], 'by the key of its issuer')
        sx.check(req == request, 'for the certificate')
        sx.check(res == asked, 'and this very answer')
        if not verdict:
            failed(sx, p, exc, 'a bad status', *CERT_ALERTS)
            if not exts:
                sx.check(not service.cached, 'a bad answer is cached')
                sx.check(service.uncached == [request], 'a bad answer is forgotten')
            return
        if not exts:
            sx.check(len(service.cached) == 1, 'a good answer is cached')
            until, req, res = service.cached[0]
            sx.check(until == 'until' and req == request, 'until it expires')
            sx.check(res == asked, 'the answer itself')
    sx.check(exc is None, 'a certificate of no bad status is refused', repr(exc))
    p.must(p.say(CV, p.certificate_verify('server')), 'the proof')
    p.must(p.say(FIN, p.finished_value()), 'the Finished')
    sx.check(p.conn.is_connected(), 'connected')


class Unforeseen(Exception):
    pass


@case('S07', params=[{'side': s, 'fails': f} for s in ('client', 'server') for f in ('cache', 'uncache')],
      functions=('siotls.connection:TLSConnection.receive_data',), reach=('raised',),
      bounds='an OCSP service whose cache fails in 9 ways (of no class in particular) while a message '
             'is processed, after any 8 bytes, a genuine record, an alert and every operation')
def unforeseen(sx):
    """Whatever goes wrong while a message is processed, the connection does not go on."""
    fails = sx.p('fails')
    error = sx.choice('error', (ValueError('v'), KeyError('k'), TypeError('t'), AttributeError('a'),
                                RuntimeError('r'), OSError('o'), NotImplementedError('n'),
                                AssertionError('s'), Unforeseen('u')))

    def validate(issuer, request, response):
        if fails == 'uncache':
            raise ValueError('verdict of the harness')
        return 'until'
    validation(sx, True)
    sx.patches.everywhere(ocsp_module.validate_ocsp, validate)

    def fail(*args):
        raise error
    service = Service(b'answer')
    setattr(service, fails, fail)
    if sx.p('side') == 'client':
        p = reach_client(sx, 'wait certificate', conf=client_config(trust_store=Store([CERT['ca']])),
                         hostname=HOST, ocsp=service)
        exc = p.say(CT, p.certificate('server_ocsp', 'ca'))
    else:
        conf = server_config(certificate_chain=[CERT['server_ocsp'], CERT['ca']], private_key=KEY['server'])
        p = reach_server(sx, 'wait hello', conf=conf, ocsp=service)
        exc = p.say(CH, p.client_hello(extra=[ext(OCSP, u8(1) + vec16(b'') + vec16(b''))]))
    if exc is None:
        return                       # the failure was dealt with
    sx.reach('raised')
    sx.check(state(p.conn) == 'Failed', 'the connection did not fail', f'{state(p.conn)} {exc!r}')
    sx.check(not p.conn.is_connected(), 'still connected')
    sx.check(not p.conn.data_to_read(), 'data was delivered')
    if sx.p('side') == 'client':
        before = len(p.alerts)
        new = p.pull()
        sx.check(len(p.alerts) == before + 1, 'exactly one alert is sent', len(new))
        sx.check(new[-1][0] == 21 and p.alerts[-1][0] == 2, 'the alert is fatal, and the last thing sent')
    else:
        sx.check(len(p.conn.data_to_send()) > 7, 'no alert is sent')
    later(sx, p)


# what the server sent -> what the path validation made of it
PATHS = {
    'leaf only': (('leaf_ocsp',), ('leaf_ocsp', 'mid_ocsp', 'ca')),
    'no root': (('leaf_ocsp', 'mid_ocsp'), ('leaf_ocsp', 'mid_ocsp', 'ca')),
    'whole': (('leaf_ocsp', 'mid_ocsp', 'ca'), ('leaf_ocsp', 'mid_ocsp', 'ca')),
    'disorder': (('leaf_ocsp', 'ca', 'mid_ocsp'), ('leaf_ocsp', 'mid_ocsp', 'ca')),
    'other issuer first': (('leaf_ocsp', 'mid', 'mid_ocsp'), ('leaf_ocsp', 'mid_ocsp', 'ca')),
    'other in between': (('server_ocsp', 'ca2', 'ca'), ('server_ocsp', 'ca')),
    'other at the end': (('leaf_ocsp', 'mid_ocsp', 'server_ocsp'), ('leaf_ocsp', 'mid_ocsp', 'ca')),
    'trusted itself': (('leaf_ocsp', 'mid_ocsp'), ('leaf_ocsp',)),
    'no address': (('server', 'mid_ocsp'), ('server', 'ca')),
}
ADDRESS = {'server_ocsp': 'http://ocsp.example/', 'mid_ocsp': 'http://ocsp.example/mid',
           'leaf_ocsp': 'http://ocsp.example/leaf'}

@case(['S10', 'A01'], params=[{'path': n, 'host': h, 'service': s}
                     for n in PATHS for h in (HOST, None) for s in (True, False)],
      functions=CERTIFICATE, reach=('end',),
      bounds='9 lists of up to 3 certificates and what the path validation makes of them; any status '
             'of 2 bytes at any of them, any answer of the service for each, any verdict of each')
def paths(sx):
    """The status of each certificate of the verified chain is the one its issuer there tells."""
    sent, verified = PATHS[sx.p('path')]
    log = []
    verdicts = {}

    def validate(issuer, request, response):
        if request not in verdicts:
            verdicts[request] = sx.bool(f'verdict {len(verdicts)}')
        log.append((issuer, request, response))
        if not verdicts[request]:
            raise ValueError('verdict of the harness')
        return 'until'
    validation(sx, True, [CERT[n] for n in verified])
    sx.patches.everywhere(ocsp_module.validate_ocsp, validate)
    answers = {}

    class Asked(Service):
        def request(self, url, req):
            self.requests.append((url, req))
            if req not in answers:
                answers[req] = sx.bytes(f'answer {len(answers)}', 2)
            return answers[req]
    service = Asked(None) if sx.p('service') else None
    staples = {}
    entries = []
    for i, n in enumerate(sent):
        exts = ()
        if sx.bool(f'status of {n}'):
            staples[n] = sx.bytes(f'staple {i}', 2)
            exts = (ext(OCSP, u8(1) + vec24(staples[n])),)
        entries.append(certificate_entry(der(CERT[n]), *exts))
    p = reach_client(sx, 'wait certificate', conf=client_config(trust_store=Store([CERT['ca']])),
                     hostname=sx.p('host'), ocsp=service)
    exc = p.say(CT, certificate_message(*entries))
    sx.reach('end')
    good = True
    asked = 0
    for n, issuer in zip(verified, verified[1:]):
        request = ocsp_module.make_ocsp_request(CERT[n], CERT[issuer])
        if n in staples:
            answer = staples[n]
        elif service is not None and n in ADDRESS:
            asked += 1
            if exc is None:
                sx.check((ADDRESS[n], request) in service.requests, 'the service is asked')
            answer = answers.get(request)
        else:
            continue
        done = [(a, c) for a, b, c in log if b == request]
        if exc is None:
            sx.check(len(done) > 0, 'the status of a certificate of the chain is validated', n)
        for a, c in done:
            sx.check(a == CERT[issuer], 'by the key of its issuer')
            sx.check(c == answer, 'and this very answer')
        if done and not verdicts[request]:
            good = False
    if service is not None:
        sx.check(len(service.requests) <= asked, 'the service is asked when needed')
    if not good:
        failed(sx, p, exc, 'a bad status', *CERT_ALERTS)
        return
    sx.check(exc is None, 'a certificate of no bad status is refused', repr(exc))


@case('S10', params=[{'path': n, 'host': h} for n in PATHS for h in (HOST, None)],
      functions=CERTIFICATE, reach=('refused', 'accepted'),
      bounds='9 lists of up to 3 certificates and what the path validation makes of them; any of the '
             'certificates revoked')
def revocations(sx):
    """A certificate of the verified chain that is revoked, sent or not, makes it refused."""
    sent, verified = PATHS[sx.p('path')]
    validation(sx, True, [CERT[n] for n in verified])
    names = tuple(dict.fromkeys((*sent, *verified)))
    listed = [n for n in names if sx.bool(f'{n} is revoked')]
    day = datetime.datetime(2020, 1, 1)
    crl = x509.CertificateRevocationListBuilder().issuer_name(CERT['ca'].subject)
    crl = crl.last_update(day).next_update(day.replace(year=2120))
    for n in listed:
        crl = crl.add_revoked_certificate(x509.RevokedCertificateBuilder().serial_number(
            CERT[n].serial_number).revocation_date(day).build())
    conf = client_config(trust_store=Store([CERT['ca']]),
                         revocation_list=crl.sign(KEY['ca'], hashes.SHA256()))
    p = reach_client(sx, 'wait certificate', conf=conf, hostname=sx.p('host'))
    exc = p.say(CT, p.certificate(*sent))
    if any(n in listed for n in verified):
        failed(sx, p, exc, 'a revoked certificate', *CERT_ALERTS)
        sx.reach('refused')
        return
    sx.check(exc is None or any(n in listed for n in sent), 'a certificate that is not revoked is refused',
             repr(exc))
    sx.reach('accepted')


# ---------------------------------------------------------------------------------------- raw keys

@case(['S10', 'A03'], params=[{'trust': t} for t in ('raw', 'both', 'nothing')],
      functions=CERTIFICATE, reach=('refused', 'connected'),
      bounds='3 configurations, 2 trusted keys among 4, entries of 0..2 keys, 1..3 bytes of garbage, '
             'a certificate in place of a key, any status extension of 1..2 bytes')
def raw_keys(sx):
    trusted = ('ed', 'server')
    kw = {}
    if sx.p('trust') != 'nothing':
        kw['trusted_public_keys'] = [CERT[k].public_key() for k in trusted]
    if sx.p('trust') == 'both':
        kw['trust_store'] = Store([CERT['ca']])
    p = reach_client(sx, 'wait extensions', conf=client_config(**kw), hostname=HOST)
    raw = sx.p('trust') != 'nothing'
    exc = p.say(EE, p.encrypted_extensions(*((ext(SCTYPE, u8(2)),) if raw else ())))
    p.must(exc, 'the extensions')
    kind = sx.choice('entries', ('one', 'none', 'two', 'garbage', 'certificate'))
    key = sx.choice('key', ('ed', 'ed2', 'server', 'rsa'))
    entry = certificate_entry(spki(CERT[key].public_key()))
    body = {
        'one': lambda: certificate_message(entry),
        'none': lambda: certificate_message(),
        'two': lambda: certificate_message(entry, certificate_entry(spki(CERT['ed'].public_key()))),
        'garbage': lambda: certificate_message(certificate_entry(sx.bytes('garbage', 1, 3))),
        'certificate': lambda: certificate_message(certificate_entry(der(CERT[key]))),
    }[kind]()
    exc = p.say(CT, body)
    good = kind in ('one', 'two') and key in trusted
    if not raw:
        # certificates were negotiated and none is verified
        good = kind == 'certificate'
    if exc is None and not good:
        # keys that come after the first one prove nothing
        exc = p.say(CV, p.certificate_verify(key if kind != 'none' else 'ed'))
    if not good:
        failed(sx, p, exc, 'an untrusted key', *CERT_ALERTS, 'DecodeError', 'DecryptError',
               'IllegalParameter')
        sx.reach('refused')
        return
    if exc is not None and kind == 'two':
        # RFC 7250: a single key
        failed(sx, p, exc, 'two keys')
        sx.reach('refused')
        return
    sx.check(exc is None, 'a trusted key is refused', repr(exc))
    p.must(p.say(CV, p.certificate_verify(key)), 'the proof')
    p.must(p.say(FIN, p.finished_value()), 'the Finished')
    sx.check(p.conn.is_connected(), 'connected')
    if raw:
        sx.check(spki(p.conn.nconfig.peer_public_key) == spki(CERT[key].public_key()), 'the peer key')
    sx.reach('connected')


@case('S10', params=[{'trust': t} for t in ('x509', 'raw', 'nothing')], functions=CERTIFICATE,
      reach=('end',),
      bounds='an empty certificate list with any context of 0..1 bytes')
def nothing(sx):
    kw = {'x509': {'trust_store': Store([CERT['ca']])},
          'raw': {'trusted_public_keys': [CERT['ed'].public_key()]}, 'nothing': {}}[sx.p('trust')]
    p = reach_client(sx, 'wait extensions', conf=client_config(**kw), hostname=HOST)
    p.must(p.say(EE, p.encrypted_extensions(*((ext(SCTYPE, u8(2)),) if sx.p('trust') == 'raw' else ()))),
           'the extensions')
    exc = p.say(CT, certificate_message(context=sx.bytes('context', 0, 1)))
    failed(sx, p, exc, 'no certificate', *CERT_ALERTS, 'DecodeError', 'IllegalParameter')
    sx.reach('end')
