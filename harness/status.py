"""A01: which OCSP answers are taken as a proof that a certificate is good.

The parsing of answers is `cryptography`'s: the parsed answer is a stand-in whose every field is
symbolic, and that refuses to tell fields the way the library does."""
from cryptography.exceptions import UnsupportedAlgorithm
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding
from cryptography.x509 import ocsp as library
from cryptography.x509.oid import ObjectIdentifier, SignatureAlgorithmOID as Oid

from siotls.crypto import ocsp as module

from symex.api import case

from harness import clock
from harness.clock import Instant
from harness.auth import FAILURES, Service
from harness.puppet import CH, CT, OCSP, SCTYPE, certificate_entry, certificate_message, ext, reach_server
from harness.world import CERT, KEY, der, server_config, spki, u8, vec8, vec16, vec24

STATUSES = tuple(library.OCSPResponseStatus)
VERDICTS = tuple(library.OCSPCertStatus)
FUNCTIONS = ('siotls.crypto.ocsp:validate_ocsp',)

# the algorithms of the answers, the way the library tells them
UNTOLD = 'untold'
ALGORITHMS = {
    'ecdsa-sha256': (Oid.ECDSA_WITH_SHA256, hashes.SHA256()),
    'ecdsa-sha384': (Oid.ECDSA_WITH_SHA384, hashes.SHA384()),
    'ecdsa-sha512': (Oid.ECDSA_WITH_SHA512, hashes.SHA512()),
    'ecdsa-sha224': (Oid.ECDSA_WITH_SHA224, hashes.SHA224()),
    'ecdsa-sha1': (Oid.ECDSA_WITH_SHA1, hashes.SHA1()),
    'pkcs1-sha256': (Oid.RSA_WITH_SHA256, hashes.SHA256()),
    'pkcs1-sha384': (Oid.RSA_WITH_SHA384, hashes.SHA384()),
    'pkcs1-sha512': (Oid.RSA_WITH_SHA512, hashes.SHA512()),
    'pkcs1-sha1': (Oid.RSA_WITH_SHA1, hashes.SHA1()),
    'pkcs1-md5': (Oid.RSA_WITH_MD5, hashes.MD5()),
    'pss-sha256': (Oid.RSASSA_PSS, hashes.SHA256()),
    'pss-sha384': (Oid.RSASSA_PSS, hashes.SHA384()),
    'pss-sha512': (Oid.RSASSA_PSS, hashes.SHA512()),
    'pss-sha1': (Oid.RSASSA_PSS, hashes.SHA1()),
    'pss-other': (Oid.RSASSA_PSS, UNTOLD),
    'dsa-sha256': (Oid.DSA_WITH_SHA256, hashes.SHA256()),
    'ed25519': (Oid.ED25519, None),
    'ed448': (Oid.ED448, None),
    'unheard': (ObjectIdentifier('1.2.3.4.5'), UNTOLD),
}
# those that the keys of the issuers can compute, and the code knows
EC = ('ecdsa-sha256', 'ecdsa-sha384', 'ecdsa-sha512')
RSA = ('pkcs1-sha256', 'pkcs1-sha384', 'pkcs1-sha512', 'pss-sha256', 'pss-sha384', 'pss-sha512')
CAPABLE = {'server': EC, 'p384': EC, 'p521': EC, 'brainpool': EC, 'rsa': RSA, 'rsapss': RSA[3:],
           'ed': ('ed25519',), 'ed448': ('ed448',), 'dsa': (), 'xkey': (), 'explicit': EC, 'ca': EC}
OTHER_KEY = {'ed': 'ed2', 'server': 'other'}


def sign_with(name, algorithm, content):
    key = KEY[name]
    kind, _, digest = algorithm.partition('-')
    if kind.startswith('ed'):
        return key.sign(content)
    h = {'sha256': hashes.SHA256, 'sha384': hashes.SHA384, 'sha512': hashes.SHA512}[digest]()
    if kind == 'pkcs1':
        return key.sign(content, padding.PKCS1v15(), h)
    return key.sign(content, padding.PSS(padding.MGF1(h), h.digest_size), h)


def sign_as(name, algorithm, content):
    if algorithm.startswith('ecdsa'):
        h = ALGORITHMS[algorithm][1]
        return KEY[name].sign(content, ec.ECDSA(h))
    return sign_with(name, algorithm, content)


def told(name):
    @property
    def field(self):
        if self.response_status is not STATUSES[0]:
            raise ValueError('OCSP response status is not successful so the property has no value')
        value = self.get(name)
        if value is UNTOLD:
            raise UnsupportedAlgorithm(f'{name} not recognized')
        return value
    return field


class Answer:
    """What `load_der_ocsp_response` gives. What the harness picks is picked once it is read."""
    def __init__(self, fields, picks):
        self.fields, self.picks = fields, picks

    def get(self, name):
        if name not in self.fields:
            self.fields.update(self.picks[name]())
        return self.fields[name]

    @property
    def response_status(self):
        return self.get('response_status')

    certificate_status = told('certificate_status')
    issuer_name_hash = told('issuer_name_hash')
    issuer_key_hash = told('issuer_key_hash')
    hash_algorithm = told('hash_algorithm')
    serial_number = told('serial_number')
    this_update = told('this_update')
    this_update_utc = told('this_update_utc')
    next_update = told('next_update')
    next_update_utc = told('next_update_utc')
    produced_at = told('this_update')
    produced_at_utc = told('this_update_utc')
    signature_algorithm_oid = told('signature_algorithm_oid')
    signature_hash_algorithm = told('signature_hash_algorithm')
    signature = told('signature')
    tbs_response_bytes = told('tbs_response_bytes')
    certificates = told('certificates')

    @property
    def responses(self):
        return iter([self]) if self.response_status is STATUSES[0] else self.certificates


DER = b'the answer'

def answer(sx, request, issuer):
    """Any answer, its expiry, and a function that tells whether it shows that the certificate is
    good, at the edges of its validity period excluded and included."""
    size = len(request.issuer_name_hash)
    since, until = sx.int('since', -100, 100), sx.int('until', -100, 100)
    fields = {
        'hash_algorithm': request.hash_algorithm,
        'issuer_name_hash': sx.bytes('name hash', size),
        'issuer_key_hash': sx.bytes('key hash', size),
        'serial_number': sx.int('serial', 0, 2 ** 160),
        'this_update': Instant(since), 'this_update_utc': Instant(since, True),
        'certificates': [],
        'tbs_response_bytes': sx.bytes('signed', 3),
    }

    def expiry():
        expires = sx.bool('expires')
        return {'next_update': Instant(until) if expires else None,
                'next_update_utc': Instant(until, True) if expires else None}

    def algorithm():
        oid, h = ALGORITHMS[sx.choice('algorithm', tuple(ALGORITHMS))]
        return {'signature_algorithm_oid': oid, 'signature_hash_algorithm': h}

    def signature():
        kinds = ['bytes']
        if CAPABLE[issuer] and issuer in KEY:
            kinds.append('genuine')
            if issuer in OTHER_KEY:
                kinds.append('other key')
        kind = sx.choice('signature', tuple(kinds))
        if kind == 'bytes':
            return {'signature': sx.bytes('bytes', sx.choice('size', (0, 2, 64))), 'valid': False}
        by = sx.choice('by', CAPABLE[issuer])
        signer = issuer if kind == 'genuine' else OTHER_KEY[issuer]
        what = sx.bytes('what is signed', 3)
        oid, h = ALGORITHMS[by]
        return {'signature': sign_as(signer, by, what), 'valid': sx.all([
            kind == 'genuine', what == res.get('tbs_response_bytes'),
            res.get('signature_algorithm_oid') == oid, res.get('signature_hash_algorithm') == h])}

    res = Answer(fields, {
        'response_status': lambda: {'response_status': sx.choice('status', STATUSES)},
        'certificate_status': lambda: {'certificate_status': sx.choice('verdict', VERDICTS)},
        'next_update': expiry, 'next_update_utc': expiry,
        'signature_algorithm_oid': algorithm, 'signature_hash_algorithm': algorithm,
        'signature': signature, 'valid': signature})

    def good(edges):
        now = Instant.now_
        conditions = [
            res.get('issuer_name_hash') == request.issuer_name_hash,
            res.get('issuer_key_hash') == request.issuer_key_hash,
            res.get('serial_number') == request.serial_number,
            *([since <= now, now <= until] if edges else [since < now, now < until])]
        wanted = {'response_status': lambda v: v is STATUSES[0],
                  'certificate_status': lambda v: v is VERDICTS[0],
                  'next_update': lambda v: v is not None,
                  'valid': lambda v: v}
        # what is picked already first: the rest does not matter when that is bad
        for name in sorted(wanted, key=lambda name: name not in fields):
            if not conditions or not sx.is_true(sx.all(conditions)):
                return False
            conditions.append(wanted[name](res.get(name)))
        return sx.is_true(sx.all(conditions))
    return res, until, good


@case('A01', params=[{'issuer': i} for i in CAPABLE], functions=FUNCTIONS, reach=('refused',),
      bounds='12 kinds of issuer keys; every status, certificate status, name hash, key hash, serial '
             'number, validity period (or no end), clock reading, time zone, 19 signature algorithms '
             'and signatures by any algorithm of the key over anything, by another key, or any of 0, 2 '
             'or 64 bytes; whether the answer can be parsed')
def answers(sx):
    issuer = sx.p('issuer')
    clock.install(sx, sx.int('time zone', -50, 50))
    Instant.now_ = sx.int('now', -100, 100)
    der = module.make_ocsp_request(CERT['server_ocsp'], CERT[issuer])
    request = library.load_der_ocsp_request(der)
    sx.check(request.serial_number == CERT['server_ocsp'].serial_number, 'the certificate asked about')
    res, until, good = answer(sx, request, issuer)
    unparsed = []

    def load(data):
        sx.check(data == DER, 'what is parsed is the answer')
        if sx.bool('does not parse'):
            unparsed.append(data)
            raise ValueError('error parsing asn1 value')
        return res
    sx.patches.everywhere(library.load_der_ocsp_response, load,
                          extra=((library, 'load_der_ocsp_response'),))
    exc, got = sx.attempt(module.validate_ocsp, CERT[issuer], der, DER)
    if exc is not None:
        sx.check(isinstance(exc, ValueError), 'refused by another failure than ValueError', repr(exc))
        sx.check(unparsed or issuer == 'brainpool' or not good(False), 'a good answer is refused', repr(exc))
        sx.reach('refused')
        return
    sx.check(not unparsed, 'an answer that cannot be parsed is accepted')
    sx.check(good(True), 'an answer that shows nothing is accepted')
    sx.check(got.t == until, 'the expiry told')
    sx.reach('accepted')


@case('A01', params=[{'service': s, 'type': t} for s in ('none', 'works', *FAILURES)
                     for t in (('x509', 'raw') if s in ('none', 'works') else ('x509',))],
      functions=('siotls.states.server.wait_client_hello:ServerWaitClientHello._send_server_certificate',),
      reach=('end',),
      bounds='3 chains, with or without an OCSP address, or a raw key; clients that ask or not for a '
             'status of any type, with 0..2 bytes of extensions; any answer of 1..3 bytes, either verdict')
def stapling(sx):
    """A server staples what it validated, and nothing else."""
    log = []
    verdict = sx.bool('verdict')

    def validate(issuer, request, response):
        log.append((issuer, request, response))
        if not verdict:
            raise ValueError('verdict of the harness')
        return 'until'
    sx.patches.everywhere(module.validate_ocsp, validate)
    service = None
    data = sx.bytes('answer', 1, 3)
    if sx.p('service') != 'none':
        service = Service(data, FAILURES.get(sx.p('service')))
    chain = sx.choice('chain', (('server_ocsp', 'ca'), ('server_ocsp',), ('server', 'ca')))
    asks = sx.bool('asks')
    exts = []
    kind = None
    if asks:
        kind = sx.int('status type', 0, 255)
        exts.append(ext(OCSP, u8(kind) + vec16(b'') + vec16(sx.bytes('extensions', 0, 2))))
    conf = {'certificate_chain': [CERT[n] for n in chain], 'private_key': KEY['server']}
    if sx.p('type') == 'raw':
        conf['public_key'] = KEY['server'].public_key()
        exts.append(ext(SCTYPE, vec8(bytes([2]))))
    p = reach_server(sx, 'wait hello', conf=server_config(**conf), ocsp=service)
    exc = p.say(CH, p.client_hello(extra=exts))
    if exc is not None:
        sx.check(sx.neg(kind == 1) if asks else False, 'the hello', repr(exc))
        return
    flight = p.flight()
    request = module.make_ocsp_request(CERT[chain[0]], CERT['ca'])
    wanted = sx.is_true(kind == 1) if asks else False
    looked_up = (wanted and chain == ('server_ocsp', 'ca') and service is not None
                 and sx.p('type') == 'x509')
    stapled = looked_up and service.failure is None and verdict
    staple = ext(OCSP, u8(1) + vec24(data))
    if sx.p('type') == 'raw':
        entries = [certificate_entry(spki(CERT['server'].public_key()))]
    else:
        entries = [certificate_entry(der(CERT[n]), *([staple] if stapled and not i else []))
                   for i, n in enumerate(chain)]
    got = flight[CT]
    sx.check(got[4:] == certificate_message(*entries), 'the certificates and their status')
    sx.reach('end')
    if service is not None:
        sx.check(service.requests == ([('http://ocsp.example/', request)] if looked_up else []),
                 'the service is asked when needed')
        if looked_up and service.failure is None:
            sx.check(len(log) == 1 and log[0][0] == CERT['ca'] and log[0][1] == request, 'the validation')
            sx.check(log[0][2] == data, 'the validation of the answer')
            sx.check(len(service.cached) == bool(verdict) and service.uncached == [request] * (not verdict),
                     'a good answer is cached, a bad one forgotten')
        else:
            sx.check(not service.cached, 'nothing is cached')
    p.must(p.finish(), 'the client Finished')
    sx.check(p.conn.is_connected(), 'connected')


@case('A01', functions=('siotls.crypto.ocsp:get_ocsp_url',), reach=('end',),
      bounds='5 lists of access descriptions in a certificate, at any place of each')
def addresses(sx):
    """The address of the OCSP service is the one that the certificate tells."""
    from cryptography import x509
    methods = x509.oid.AuthorityInformationAccessOID
    kinds = {'ocsp': methods.OCSP, 'issuers': methods.CA_ISSUERS, 'other': ObjectIdentifier('1.2.3')}
    n = sx.choice('number', (0, 1, 2, 3))
    names = [sx.choice(f'method {i}', tuple(kinds)) for i in range(n)]

    class Certificate:
        @property
        def extensions(self):
            return self

        def get_extension_for_oid(self, oid):
            sx.check(oid == x509.oid.ExtensionOID.AUTHORITY_INFORMATION_ACCESS, 'which extension')
            if not n:
                raise x509.ExtensionNotFound('no such extension', oid)
            return self

        def get_extension_for_class(self, cls):
            return self.get_extension_for_oid(cls.oid)

        @property
        def value(self):
            return [x509.AccessDescription(kinds[k], x509.UniformResourceIdentifier(f'http://{i}/'))
                    for i, k in enumerate(names)]
    exc, got = sx.attempt(module.get_ocsp_url, Certificate())
    sx.check(exc is None, 'fails', repr(exc))
    sx.check(got == (f'http://{names.index("ocsp")}/' if 'ocsp' in names else None), 'the address')
    sx.reach('end')
